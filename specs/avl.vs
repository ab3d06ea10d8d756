//@ include omap.vs
//@ file src/avl_tree/node.rs as avl_tree::node
//@ file src/avl_tree/tree.rs as avl_tree::tree
//@ file src/avl_tree/map.rs as avl_tree::map
//@ file src/avl_tree/set.rs as avl_tree::set
//@ include bst_tree.vs m=avl_tree
//@ include bst_map.vs X=Avl m=avl_tree
//@ include bst_set.vs X=Avl m=avl_tree

//@ spec avl_tree::tree
pub open spec fn hh<T, U>(t: Tree<T, U>) -> int {
    match t { None => 0, Some(n) => n.height as int }
}
// every height field is the height of its subtree, and siblings differ by at most one
pub open spec fn ok<T, U>(t: Tree<T, U>) -> bool
    decreases t
{
    match t {
        None => true,
        Some(n) => {
            &&& ok(n.left) && ok(n.right)
            &&& n.height == spec_max(hh(n.left), hh(n.right)) + 1
            &&& -1 <= hh(n.left) - hh(n.right) <= 1
        }
    }
}
pub open spec fn depth<T, U>(t: Tree<T, U>) -> int
    decreases t
{
    match t { None => 0, Some(n) => spec_max(depth(n.left), depth(n.right)) + 1 }
}
pub open spec fn p2(n: int) -> int
    decreases n
{
    if n <= 0 { 1 } else { 2 * p2(n - 1) }
}
pub proof fn lemma_p2_mono(a: int, b: int)
    requires a <= b,
    ensures 1 <= p2(a) <= p2(b),
    decreases b - a, a,
{
    if a > 0 { lemma_p2_mono(a - 1, b - 1); } else if b > 0 { lemma_p2_mono(a, b - 1); }
}
// the fewest entries of an AVL tree of height h: h <= 1.4405 log2(n + 2)
pub open spec fn minn(h: int) -> int
    decreases h
{
    if h <= 0 { 0 } else if h == 1 { 1 } else { minn(h - 1) + minn(h - 2) + 1 }
}
pub proof fn lemma_minn_mono(a: int, b: int)
    requires a <= b,
    ensures 0 <= minn(a) <= minn(b),
    decreases b,
{
    if b >= 2 { lemma_minn_mono(b - 1, b - 1); lemma_minn_mono(b - 2, b - 2); }
    if a < b && b > 0 { lemma_minn_mono(a, b - 1); }
}
// the balance bound
pub proof fn lemma_fib<T, U>(t: Tree<T, U>)
    requires ok(t),
    ensures view(t).len() >= minn(depth(t)),
    decreases t,
{
    if let Some(n) = t {
        lemma_fib(n.left);
        lemma_fib(n.right);
        lemma_bound(t); lemma_bound(n.left); lemma_bound(n.right);
        let h = hh(t);
        if h >= 2 {
            lemma_minn_mono(h - 2, hh(n.left));
            lemma_minn_mono(h - 2, hh(n.right));
        }
    }
}
pub proof fn lemma_bound<T, U>(t: Tree<T, U>)
    requires ok(t),
    ensures
        depth(t) == hh(t), hh(t) >= 0, hh(t) == 0 <==> t is None,
        p2(hh(t) / 2) <= view(t).len() + 1,
    decreases t,
{
    if let Some(n) = t {
        lemma_bound(n.left);
        lemma_bound(n.right);
        let h = hh(t);
        if h >= 2 {
            lemma_p2_mono((h - 2) / 2, hh(n.left) / 2);
            lemma_p2_mono((h - 2) / 2, hh(n.right) / 2);
            assert(p2(h / 2) == 2 * p2(h / 2 - 1));
        }
    }
}
pub proof fn lemma_small<T, U>(t: Tree<T, U>)
    requires ok(t), view(t).len() <= usize::MAX,
    ensures 0 <= hh(t) <= 130, hh(t) == 0 <==> t is None,
{
    lemma_bound(t);
    if hh(t) > 130 {
        lemma_p2_mono(65, hh(t) / 2);
        assert(p2(65) > 0x1_0000_0000_0000_0000) by (compute);
    }
}

// what get_mut preserves besides the contents
pub open spec fn keep<T, U>(a: Tree<T, U>, b: Tree<T, U>) -> bool { ok(a) ==> ok(b) && hh(b) == hh(a) }
//@ fn avl_tree::tree::height
    ensures ret == hh(*tree), // @bal
//@ fn avl_tree::node::Node::new
    ensures ret.entry.key == key, ret.entry.value == value, ret.height == 1, ret.left is None, ret.right is None,
//@ fn avl_tree::node::Node::update
    requires hh(old(self).left) < 1000, hh(old(self).right) < 1000, // @bal
    ensures
        *final(self) == (Node { height: final(self).height, ..*old(self) }),
        final(self).height == spec_max(hh(old(self).left), hh(old(self).right)) + 1, // @bal
//@ fn avl_tree::node::Node::balance
    requires hh(self.left) < 1000, hh(self.right) < 1000, // @bal
    ensures ret == hh(self.left) - hh(self.right), // @bal
//@ fn avl_tree::node::Node::rotate_left
    requires
        old(self).right is Some,
        hh(old(self).left) < 500, // @bal
        hh(old(self).right->0.left) < 500, hh(old(self).right->0.right) < 500, // @bal
    ensures
        nv(*final(self)) == nv(*old(self)),
        ({
            let c = old(self).right->0;
            &&& final(self).right == c.right
            &&& final(self).left is Some
            &&& final(self).left->0.left == old(self).left
            &&& final(self).left->0.right == c.left
            &&& hh(final(self).left) == spec_max(hh(old(self).left), hh(c.left)) + 1 // @bal
            &&& final(self).height == spec_max(hh(final(self).left), hh(c.right)) + 1 // @bal
        }),
//@ entry
    proof {
        let c = self.right->0;
        assert(cat(cat(view(self.left), self.entry, view(c.left)), c.entry, view(c.right)) =~= cat(view(self.left), self.entry, cat(view(c.left), c.entry, view(c.right))));
    }
//@ fn avl_tree::node::Node::rotate_right
    requires
        old(self).left is Some,
        hh(old(self).right) < 500, // @bal
        hh(old(self).left->0.left) < 500, hh(old(self).left->0.right) < 500, // @bal
    ensures
        nv(*final(self)) == nv(*old(self)),
        ({
            let c = old(self).left->0;
            &&& final(self).left == c.left
            &&& final(self).right is Some
            &&& final(self).right->0.right == old(self).right
            &&& final(self).right->0.left == c.right
            &&& hh(final(self).right) == spec_max(hh(old(self).right), hh(c.right)) + 1 // @bal
            &&& final(self).height == spec_max(hh(final(self).right), hh(c.left)) + 1 // @bal
        }),
//@ entry
    proof {
        let c = self.left->0;
        assert(cat(view(c.left), c.entry, cat(view(c.right), self.entry, view(self.right))) =~= cat(cat(view(c.left), c.entry, view(c.right)), self.entry, view(self.right)));
    }
//@ spec avl_tree::node
use crate::omap::*;
use crate::avl_tree::tree::*;

//@ fn avl_tree::tree::balance
    requires
        (*old(tree)) is Some ==> {
            let n = (*old(tree))->0;
            &&& ok(n.left) && ok(n.right) // @bal
            &&& hh(n.left) < 400 && hh(n.right) < 400 // @bal
            &&& -2 <= hh(n.left) - hh(n.right) <= 2 // @bal
        },
    ensures
        view(*final(tree)) == view(*old(tree)),
        ok(*final(tree)), // @bal
        (*old(tree)) is None ==> (*final(tree)) is None,
        (*old(tree)) is Some ==> {
            let n = (*old(tree))->0;
            let m = spec_max(hh(n.left), hh(n.right)); // @bal
            &&& (*final(tree)) is Some
            &&& m <= hh(*final(tree)) <= m + 1 // @bal
            &&& -1 <= hh(n.left) - hh(n.right) <= 1 ==> hh(*final(tree)) == m + 1 // @bal
        },
//@ entry
    proof {
        reveal_with_fuel(ok, 3);
        if (*old(tree)) is Some {
            let n = (*old(tree))->0;
            lemma_bound(n.left); lemma_bound(n.right);
            if n.left is Some { lemma_bound(n.left->0.left); lemma_bound(n.left->0.right); }
            if n.right is Some { lemma_bound(n.right->0.left); lemma_bound(n.right->0.right); }
        }
    }
//@ fn avl_tree::tree::remove_min
    requires
        (*old(tree)) is Some,
        ok(*old(tree)), view(*old(tree)).len() <= usize::MAX, // @bal
    ensures
        view(*old(tree)) =~= seq![ret.entry] + view(*final(tree)),
        ok(*final(tree)), // @bal
        hh(*old(tree)) - 1 <= hh(*final(tree)) <= hh(*old(tree)), // @bal
    decreases *old(tree),
//@ entry
    proof {
        lemma_small(*old(tree));
        lemma_small((*old(tree))->0.left); lemma_small((*old(tree))->0.right);
    }
//@ fn avl_tree::tree::combine_subtrees
    requires
        right_tree is Some,
        ok(left_tree), ok(right_tree), view(right_tree).len() <= usize::MAX, // @bal
    ensures
        ret is Some,
        cat(view(ret->0.left), ret->0.entry, view(ret->0.right)) =~= view(left_tree) + view(right_tree),
        ret->0.left == left_tree,
        ok(ret->0.right), // @bal
        hh(right_tree) - 1 <= hh(ret->0.right) <= hh(right_tree), // @bal
//@ fn avl_tree::tree::insert
    requires
        ok(*old(tree)), // @bal
            sorted(view(*old(tree))), view(*old(tree)).len() < usize::MAX,
        new_node.left is None, new_node.right is None, new_node.height == 1,
    ensures
        view(*final(tree)) == ins(view(*old(tree)), new_node.entry),
        ret == at(view(*old(tree)), rk(new_node.entry)),
        ok(*final(tree)), // @bal
        hh(*old(tree)) <= hh(*final(tree)) <= hh(*old(tree)) + 1, // @bal
    decreases *old(tree),
//@ entry
    proof {
        lemma_small(*old(tree));
        lemma_empty::<T, U>(rk(new_node.entry));
        if (*old(tree)) is Some {
            let n = (*old(tree))->0;
            lemma_small(n.left); lemma_small(n.right);
            lemma_cat(view(n.left), n.entry, view(n.right), rk(new_node.entry));
            lemma_cat_ins(view(n.left), n.entry, view(n.right), new_node.entry);
        }
    }
//@ fn avl_tree::tree::remove
    requires
        ok(*old(tree)), // @bal
            sorted(view(*old(tree))), view(*old(tree)).len() <= usize::MAX,
    ensures
        view(*final(tree)) == rem(view(*old(tree)), key.rank()),
        ret == at(view(*old(tree)), key.rank()),
        ok(*final(tree)), // @bal
        hh(*old(tree)) - 1 <= hh(*final(tree)) <= hh(*old(tree)), // @bal
    decreases *old(tree),
//@ entry
    proof {
        lemma_small(*old(tree));
        lemma_empty::<T, U>(key.rank());
        reveal_with_fuel(ok, 2);
        if (*old(tree)) is Some {
            let n = (*old(tree))->0;
            lemma_small(n.left); lemma_small(n.right);
            lemma_cat(view(n.left), n.entry, view(n.right), key.rank());
            assert(Seq::<Entry<T, U>>::empty() + view(n.right) =~= view(n.right));
            assert(view(n.left) + Seq::<Entry<T, U>>::empty() =~= view(n.left));
        }
    }
//@ spec avl_tree::map
impl<T, U> AvlMap<T, U> {
    pub open spec fn inv0(&self) -> bool { ok(self.tree) && self.len == self@.len() }
}
