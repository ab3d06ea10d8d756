//@ include omap.vs
//@ file src/red_black_tree/node.rs as red_black_tree::node
//@ file src/red_black_tree/tree.rs as red_black_tree::tree
//@ file src/red_black_tree/map.rs as red_black_tree::map
//@ file src/red_black_tree/set.rs as red_black_tree::set
//@ include bst_tree.vs m=red_black_tree
//@ include bst_map.vs X=RedBlack m=red_black_tree
//@ include bst_set.vs X=RedBlack m=red_black_tree
//@ cmpops red_black_tree::tree::remove key

//@ fn red_black_tree::node::Color
//@ attr #[derive(Clone, Copy, PartialEq, Eq)]

//@ spec red_black_tree::tree
broadcast use crate::omap::group_cat;
pub open spec fn red<T, U>(t: Tree<T, U>) -> bool { match t { None => false, Some(n) => n.color == Color::Red } }
// the number of black nodes on the left spine
pub open spec fn bh<T, U>(t: Tree<T, U>) -> nat
    decreases t
{
    match t { None => 0, Some(n) => bh(n.left) + (if n.color == Color::Black { 1nat } else { 0 }) }
}
pub open spec fn bhn<T, U>(n: Node<T, U>) -> nat { bh(n.left) + (if n.color == Color::Black { 1nat } else { 0 }) }
// left-leaning red-black: no red right child, no two reds in a row, all paths with the same number of blacks
pub open spec fn ok<T, U>(t: Tree<T, U>) -> bool
    decreases t
{
    match t {
        None => true,
        Some(n) => {
            &&& ok(n.left) && ok(n.right)
            &&& bh(n.left) == bh(n.right)
            &&& !red(n.right)
            &&& n.color == Color::Red ==> !red(n.left)
        }
    }
}
pub open spec fn kids<T, U>(n: Node<T, U>) -> bool { ok(n.left) && ok(n.right) && bh(n.left) == bh(n.right) }
// ok, except that the root and its left child may both be red
pub open spec fn nearly<T, U>(t: Tree<T, U>) -> bool {
    match t { None => true, Some(n) => kids(*n) && !red(n.right) }
}
pub open spec fn keep<T, U>(a: Tree<T, U>, b: Tree<T, U>) -> bool {
    &&& (ok(a) ==> ok(b))
    &&& bh(b) == bh(a)
    &&& red(b) == red(a)
}
// what remove needs on its way down: the node or its left child is red, or it is a black node with a
// red right child that the search will enter
pub open spec fn pre_rm<T: Ord, U>(t: Tree<T, U>, k: real) -> bool {
    match t {
        None => true,
        Some(n) => {
            ||| ok(t) && (red(t) || red(n.left))
            ||| kids(*n) && !red(t) && !red(n.left) && red(n.right) && k >= rk(n.entry)
        }
    }
}
pub proof fn lemma_open<T, U>(n: Node<T, U>)
    ensures
        ok(Some(Box::new(n))) ==> kids(n) && !red(n.right) && (n.color == Color::Red ==> !red(n.left)),
        kids(n) && !red(n.right) && (n.color == Color::Red ==> !red(n.left)) ==> ok(Some(Box::new(n))),
        bh(Some(Box::new(n))) == bhn(n),
{ }
pub open spec fn depth<T, U>(t: Tree<T, U>) -> int
    decreases t
{
    match t { None => 0, Some(n) => spec_max(depth(n.left), depth(n.right)) + 1 }
}
pub open spec fn p2(n: int) -> int
    decreases n
{
    if n <= 0 { 1 } else { 2 * p2(n - 1) }
}
// the balance bound: a black root has depth <= 2 log2(n + 1)
pub proof fn lemma_bound<T, U>(t: Tree<T, U>)
    requires ok(t),
    ensures
        p2(bh(t) as int) <= view(t).len() + 1,
        depth(t) <= 2 * bh(t) + (if red(t) { 1int } else { 0 }),
    decreases t,
{
    if let Some(n) = t {
        lemma_bound(n.left);
        lemma_bound(n.right);
    }
}
pub open spec fn recolored<T, U>(a: Tree<T, U>, b: Tree<T, U>) -> bool {
    match a {
        None => b is None,
        Some(x) => b is Some && *b->0 == (Node { color: flip(x.color), ..*x }),
    }
}
pub open spec fn flip(c: Color) -> Color { if c == Color::Red { Color::Black } else { Color::Red } }

//@ spec red_black_tree::node
// TRUSTED: the derived PartialEq of the fieldless enum Color is equality (Structural)
unsafe impl Structural for Color {}
use crate::omap::*;
use crate::red_black_tree::tree::*;
broadcast use crate::omap::group_cat;

//@ fn red_black_tree::node::Color::flip
    ensures ret == flip(self),
//@ fn red_black_tree::node::Node::new
    ensures ret.entry.key == key, ret.entry.value == value, ret.color == Color::Red, ret.left is None, ret.right is None,
//@ fn red_black_tree::node::Node::flip_colors
    ensures
        final(self).entry == old(self).entry,
        final(self).color == flip(old(self).color), // @rbal
        recolored(old(self).left, final(self).left), recolored(old(self).right, final(self).right),
        nv(*final(self)) == nv(*old(self)),
//@ fn red_black_tree::node::Node::rotate_left
    requires old(self).right is Some,
    ensures
        nv(*final(self)) == nv(*old(self)),
        ({
            let c = old(self).right->0;
            &&& final(self).right == c.right && final(self).entry == c.entry
            &&& final(self).left is Some
            &&& final(self).left->0.left == old(self).left
            &&& final(self).left->0.right == c.left
            &&& final(self).left->0.entry == old(self).entry
        }),
        final(self).left->0.color == Color::Red, // @rbal
        final(self).color == old(self).color, // @rbal
//@ entry
    proof {
        let c = self.right->0;
        assert(cat(cat(view(self.left), self.entry, view(c.left)), c.entry, view(c.right)) =~= cat(view(self.left), self.entry, cat(view(c.left), c.entry, view(c.right))));
    }
//@ fn red_black_tree::node::Node::rotate_right
    requires old(self).left is Some,
    ensures
        nv(*final(self)) == nv(*old(self)),
        ({
            let c = old(self).left->0;
            &&& final(self).left == c.left && final(self).entry == c.entry
            &&& final(self).right is Some
            &&& final(self).right->0.right == old(self).right
            &&& final(self).right->0.left == c.right
            &&& final(self).right->0.entry == old(self).entry
        }),
        final(self).right->0.color == Color::Red, // @rbal
        final(self).color == old(self).color, // @rbal
        ok(Some(Box::new(*old(self)))) && red(old(self).left) ==> // @rbal
            kids(*final(self)) && !red(final(self).left) && red(final(self).right) && bhn(*final(self)) == bhn(*old(self)), // @rbal
//@ entry
    proof {
        reveal_with_fuel(ok, 3); reveal_with_fuel(bh, 3);
        let c = self.left->0;
        assert(cat(view(c.left), c.entry, cat(view(c.right), self.entry, view(self.right))) =~= cat(cat(view(c.left), c.entry, view(c.right)), self.entry, view(self.right)));
    }
//@ fn red_black_tree::node::Node::balance
    requires
        kids(*old(self)), old(self).color == Color::Red ==> !red(old(self).left) && !red(old(self).right), // @rbal
    ensures
        nv(*final(self)) == nv(*old(self)),
        kids(*final(self)), !red(final(self).right), final(self).color == Color::Red ==> !red(final(self).left), // @rbal
        bhn(*final(self)) == bhn(*old(self)), // @rbal
        final(self).color == Color::Red <==> old(self).color == Color::Red || red(old(self).left) && red(old(self).right), // @rbal
//@ entry
    proof { reveal_with_fuel(ok, 3); reveal_with_fuel(bh, 3); }
//@ fn red_black_tree::node::Node::shift_left
    requires
        kids(*old(self)), old(self).color == Color::Red, old(self).left is Some, // @rbal
        !red(old(self).left), !red(old(self).right), !red(old(self).left->0.left), // @rbal
    ensures
        nv(*final(self)) == nv(*old(self)),
        final(self).left is Some,
        view(final(self).left).len() >= view(old(self).left).len(),
        nv(*old(self))[view(old(self).left).len() as int] == old(self).entry,
        nv(*old(self))[view(final(self).left).len() as int] == final(self).entry,
        kids(*final(self)), bhn(*final(self)) == bhn(*old(self)), // @rbal
        final(self).color == Color::Black && red(final(self).left) && red(final(self).right) // @rbal
            || final(self).color == Color::Red && !red(final(self).left) && !red(final(self).right) && red(final(self).left->0.left), // @rbal
//@ entry
    proof { reveal_with_fuel(ok, 4); reveal_with_fuel(bh, 4); }
//@ fn red_black_tree::node::Node::shift_right
    requires
        kids(*old(self)), old(self).color == Color::Red, old(self).right is Some, // @rbal
        !red(old(self).left), !red(old(self).right), !red(old(self).right->0.left), // @rbal
    ensures
        nv(*final(self)) == nv(*old(self)),
        final(self).right is Some,
        view(final(self).left).len() <= view(old(self).left).len(),
        nv(*old(self))[view(old(self).left).len() as int] == old(self).entry,
        nv(*old(self))[view(final(self).left).len() as int] == final(self).entry,
        final(self).color == Color::Red ==> view(final(self).left).len() < view(old(self).left).len(),
        final(self).color == Color::Red ==> final(self).right->0.entry == old(self).entry,
        bhn(*final(self)) == bhn(*old(self)), ok(final(self).left), bh(final(self).left) == bh(final(self).right), // @rbal
        final(self).color == Color::Black && red(final(self).left) && red(final(self).right) && ok(final(self).right) // @rbal
            || final(self).color == Color::Red && !red(final(self).left) && !red(final(self).right) // @rbal
                && kids(*final(self).right->0) && !red(final(self).right->0.left) && red(final(self).right->0.right), // @rbal
//@ entry
    proof { reveal_with_fuel(ok, 4); reveal_with_fuel(bh, 4); }

//@ fn red_black_tree::tree::is_red
    ensures ret == red(*tree),
//@ fn red_black_tree::tree::remove_min
    requires
        (*old(tree)) is Some,
        ok(*old(tree)), red(*old(tree)) || red((*old(tree))->0.left), // @rbal
    ensures
        view(*old(tree)) =~= seq![ret.entry] + view(*final(tree)),
        ok(*final(tree)), bh(*final(tree)) == bh(*old(tree)), // @rbal
        !red(*old(tree)) ==> !red(*final(tree)), // @rbal
    decreases view(*old(tree)).len(),
//@ entry
    proof { reveal_with_fuel(ok, 3); reveal_with_fuel(bh, 3); lemma_bound(*tree); }
//@ fn red_black_tree::tree::combine_subtrees
    requires
        right_tree is Some,
        ok(right_tree), red(right_tree) || red(right_tree->0.left), // @rbal
    ensures
        ret is Some,
        cat(view(ret->0.left), ret->0.entry, view(ret->0.right)) =~= view(left_tree) + view(right_tree),
        ret->0.left == left_tree, ret->0.color == color, // @rbal
        ok(ret->0.right), bh(ret->0.right) == bh(right_tree), // @rbal
        !red(right_tree) ==> !red(ret->0.right), // @rbal
//@ fn red_black_tree::tree::fix_root
    requires
        ok(*old(tree)), !red(*old(tree)), // @rbal
    ensures
        view(*final(tree)) == view(*old(tree)),
        ok(*final(tree)), // @rbal
        (*final(tree)) is Some ==> red(*final(tree)) || red((*final(tree))->0.left), // @rbal
//@ fn red_black_tree::tree::insert
    requires
        sorted(view(*old(tree))),
        new_node.left is None, new_node.right is None,
        ok(*old(tree)), new_node.color == Color::Red, // @rbal
    ensures
        (*final(tree)) is Some,
        view(*final(tree)) == ins(view(*old(tree)), new_node.entry),
        ret == at(view(*old(tree)), rk(new_node.entry)),
        nearly(*final(tree)), !red(*old(tree)) ==> ok(*final(tree)), // @rbal
        bh(*final(tree)) == bh(*old(tree)), // @rbal
    decreases *old(tree),
//@ entry
    proof { reveal_with_fuel(ok, 3); reveal_with_fuel(bh, 3); }
//@ fn red_black_tree::tree::remove
//@ attr #[verifier::rlimit(30)]
    requires
        sorted(view(*old(tree))),
        pre_rm(*old(tree), key.rank()), // @rbal
    ensures
        view(*final(tree)) == rem(view(*old(tree)), key.rank()),
        ret == at(view(*old(tree)), key.rank()),
        ok(*final(tree)), bh(*final(tree)) == bh(*old(tree)), // @rbal
        !red(*old(tree)) ==> !red(*final(tree)), // @rbal
    decreases view(*old(tree)).len(),
//@ entry
    hide(rem); hide(at);
    proof { if (*tree) is Some { lemma_open(*(*tree)->0); } }

//@ spec red_black_tree::map
impl<T, U> RedBlackMap<T, U> {
    pub open spec fn inv0(&self) -> bool { ok(self.tree) && !red(self.tree) && self.len == self@.len() }
}
