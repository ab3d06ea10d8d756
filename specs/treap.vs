//@ include omap.vs
//@ include rng.vs
//@ inherent Add
//@ inherent Sub
//@ file src/treap/node.rs as treap::node
//@ file src/treap/tree.rs as treap::tree
//@ file src/treap/map.rs as treap::map
//@ file src/treap/set.rs as treap::set
//@ use crate::treap::implicit_tree => -
//@ only treap::node::Node
//@ include bst_tree.vs m=treap
//@ include bst_map.vs X=Treap m=treap
//@ include bst_set.vs X=Treap m=treap

//@ spec treap::tree
// the len field of every node is the size of its subtree
pub open spec fn lens<T, U>(t: Tree<T, U>) -> bool
    decreases t
{
    match t { None => true, Some(n) => lens(n.left) && lens(n.right) && n.len == view(t).len() }
}
pub open spec fn prio<T, U>(t: Tree<T, U>) -> int { match t { None => -1, Some(n) => n.priority as int } }
// no node has a greater priority than its parent
pub open spec fn heap<T, U>(t: Tree<T, U>) -> bool
    decreases t
{
    match t { None => true, Some(n) => heap(n.left) && heap(n.right) && prio(n.left) <= n.priority && prio(n.right) <= n.priority }
}
pub open spec fn keep<T, U>(a: Tree<T, U>, b: Tree<T, U>) -> bool {
    (lens(a) ==> lens(b)) && (heap(a) ==> heap(b) && prio(b) == prio(a))
}
pub open spec fn below_p<T, U>(t: Tree<T, U>, p: int) -> bool { heap(t) && prio(t) <= p }

//@ spec treap::node
use crate::omap::*;
use crate::treap::tree::*;
//@ fn treap::node::Node::new
    ensures ret.entry.key == key, ret.entry.value == value, ret.left is None, ret.right is None, ret.len == 1, ret.priority == priority,
//@ fn treap::node::Node::update
    requires lens(old(self).left), lens(old(self).right), view(old(self).left).len() + view(old(self).right).len() + 1 <= usize::MAX,
    ensures
        *final(self) == (Node { len: final(self).len, ..*old(self) }),
        final(self).len == view(old(self).left).len() + view(old(self).right).len() + 1,
//@ fn treap::tree::merge
    requires
        lens(*old(l_tree)), lens(r_tree), view(*old(l_tree)).len() + view(r_tree).len() <= usize::MAX,
        heap(*old(l_tree)), heap(r_tree), // @heap
    ensures
        view(*final(l_tree)) =~= view(*old(l_tree)) + view(r_tree),
        lens(*final(l_tree)),
        below_p(*final(l_tree), spec_max(prio(*old(l_tree)), prio(r_tree))), // @heap
    decreases view(*old(l_tree)).len() + view(r_tree).len(),
//@ fn treap::tree::split
    requires
        lens(*old(tree)), view(*old(tree)).len() <= usize::MAX, sorted(view(*old(tree))),
        heap(*old(tree)), // @heap
    ensures
        view(*final(tree)) == lo(view(*old(tree)), key.rank()),
        view(ret.1) == hi(view(*old(tree)), key.rank()),
        match at(view(*old(tree)), key.rank()) {
            Some(e) => ret.0 is Some && ret.0->0.entry == e && ret.0->0.left is None && ret.0->0.right is None,
            None => ret.0 is None,
        },
        lens(*final(tree)), lens(ret.0), lens(ret.1),
        below_p(*final(tree), prio(*old(tree))), below_p(ret.0, prio(*old(tree))), below_p(ret.1, prio(*old(tree))), // @heap
    decreases *old(tree),
//@ entry
    hide(lo); hide(hi); hide(at);
    broadcast use { group_cat, group_split };
    proof { reveal_with_fuel(lens, 3); reveal_with_fuel(heap, 3); }
//@ fn treap::tree::insert
    requires
        lens(*old(tree)), view(*old(tree)).len() < usize::MAX, sorted(view(*old(tree))),
        new_node.left is None, new_node.right is None, new_node.len == 1,
        heap(*old(tree)), // @heap
    ensures
        view(*final(tree)) == ins(view(*old(tree)), new_node.entry),
        ret == at(view(*old(tree)), rk(new_node.entry)),
        lens(*final(tree)),
        below_p(*final(tree), spec_max(prio(*old(tree)), new_node.priority as int)), // @heap
    decreases *old(tree),
//@ entry
    hide(lo); hide(hi); hide(at); hide(ins);
    broadcast use { group_cat, group_split };
    proof { lemma_ins(view(*tree), new_node.entry); reveal_with_fuel(view, 2); }
//@ fn treap::tree::remove
    requires
        lens(*old(tree)), view(*old(tree)).len() <= usize::MAX, sorted(view(*old(tree))),
        heap(*old(tree)), // @heap
    ensures
        view(*final(tree)) == rem(view(*old(tree)), key.rank()),
        ret == at(view(*old(tree)), key.rank()),
        lens(*final(tree)),
        below_p(*final(tree), prio(*old(tree))), // @heap
    decreases *old(tree),
//@ entry
    hide(at); hide(rem);
    broadcast use { group_cat, group_split };
    proof { lemma_rem(view(*tree), key.rank()); }
//@ fn treap::tree::union
    requires
        lens(left_tree), lens(right_tree), sorted(view(left_tree)), sorted(view(right_tree)),
        view(left_tree).len() + view(right_tree).len() <= usize::MAX,
        heap(left_tree), heap(right_tree), // @heap
    ensures
        if swapped { is_union(view(ret), view(right_tree), view(left_tree)) } else { is_union(view(ret), view(left_tree), view(right_tree)) },
        view(ret).len() <= view(left_tree).len() + view(right_tree).len(),
        lens(ret),
        below_p(ret, spec_max(prio(left_tree), prio(right_tree))), // @heap
    decreases view(left_tree).len() + view(right_tree).len(),
//@ entry
    hide(cat); hide(lo); hide(hi); hide(at); hide(sorted); hide(below); hide(above);
    broadcast use group_alg;
//@ fn treap::tree::intersection
    requires
        lens(left_tree), lens(right_tree), sorted(view(left_tree)), sorted(view(right_tree)),
        view(left_tree).len() + view(right_tree).len() <= usize::MAX,
        heap(left_tree), heap(right_tree), // @heap
    ensures
        if swapped { is_inter(view(ret), view(right_tree), view(left_tree)) } else { is_inter(view(ret), view(left_tree), view(right_tree)) },
        view(ret).len() <= view(left_tree).len() + view(right_tree).len(),
        lens(ret),
        below_p(ret, spec_max(prio(left_tree), prio(right_tree))), // @heap
    decreases view(left_tree).len() + view(right_tree).len(),
//@ entry
    hide(cat); hide(lo); hide(hi); hide(at); hide(sorted); hide(below); hide(above);
    broadcast use group_alg;
//@ fn treap::tree::difference
    requires
        lens(left_tree), lens(right_tree), sorted(view(left_tree)), sorted(view(right_tree)),
        view(left_tree).len() + view(right_tree).len() <= usize::MAX,
        heap(left_tree), heap(right_tree), // @heap
    ensures
        symmetric ==> is_sym(view(ret), view(left_tree), view(right_tree)),
        !symmetric && swapped ==> is_diff(view(ret), view(right_tree), view(left_tree)),
        !symmetric && !swapped ==> is_diff(view(ret), view(left_tree), view(right_tree)),
        view(ret).len() <= view(left_tree).len() + view(right_tree).len(),
        lens(ret),
        below_p(ret, spec_max(prio(left_tree), prio(right_tree))), // @heap
    decreases view(left_tree).len() + view(right_tree).len(),
//@ entry
    hide(cat); hide(lo); hide(hi); hide(at); hide(sorted); hide(below); hide(above);
    broadcast use group_alg;

//@ spec treap::map
impl<T, U> TreapMap<T, U> {
    pub open spec fn inv0(&self) -> bool { lens(self.tree) && heap(self.tree) && self@.len() <= usize::MAX }
}
// the three set operations on whole maps
pub open spec fn fit2<T, U>(l: TreapMap<T, U>, r: TreapMap<T, U>) -> bool { l@.len() + r@.len() <= usize::MAX }
pub open spec fn cut<T: Ord, U>(s: Seq<Entry<T, U>>, k: real, inclusive: bool) -> int {
    pos(s, k) + (if inclusive && hask(s, k) { 1int } else { 0int })
}
//@ fn treap::map::TreapMap::split_off
    requires old(self).inv(),
    ensures
        final(self).inv(), ret.inv(),
        final(self)@ =~= old(self)@.subrange(0, cut(old(self)@, key.rank(), inclusive)),
        ret@ =~= old(self)@.subrange(cut(old(self)@, key.rank(), inclusive), old(self)@.len() as int),
//@ entry
    proof { lemma_pos(self@, key.rank()); b_lt(self@, key.rank()); b_gt(self@, key.rank()); reveal_with_fuel(view, 2); }
//@ fn treap::map::TreapMap::union
    requires left.inv(), right.inv(), fit2(left, right),
    ensures ret.inv(), is_union(ret@, left@, right@),
//@ fn treap::map::TreapMap::intersection
    requires left.inv(), right.inv(), fit2(left, right),
    ensures ret.inv(), is_inter(ret@, left@, right@),
//@ fn treap::map::TreapMap::difference
    requires left.inv(), right.inv(), fit2(left, right),
    ensures ret.inv(), is_diff(ret@, left@, right@),
//@ fn treap::map::TreapMap::symmetric_difference
    requires left.inv(), right.inv(), fit2(left, right),
    ensures ret.inv(), is_sym(ret@, left@, right@),
//@ fn treap::map::TreapMap::Add::add
    requires self.inv(), other.inv(), fit2(self, other),
    ensures ret.inv(), is_union(ret@, self@, other@),
//@ fn treap::map::TreapMap::Sub::sub
    requires self.inv(), other.inv(), fit2(self, other),
    ensures ret.inv(), is_diff(ret@, self@, other@),
//@ spec treap::set
use crate::treap::map::{cut, fit2};
//@ fn treap::set::TreapSet::split_off
    requires old(self).inv(),
    ensures
        final(self).inv(), ret.inv(),
        final(self)@ =~= old(self)@.subrange(0, cut(old(self)@, key.rank(), inclusive)),
        ret@ =~= old(self)@.subrange(cut(old(self)@, key.rank(), inclusive), old(self)@.len() as int),
//@ fn treap::set::TreapSet::union
    requires left.inv(), right.inv(), fit2(left.map, right.map),
    ensures ret.inv(), is_union(ret@, left@, right@),
//@ fn treap::set::TreapSet::intersection
    requires left.inv(), right.inv(), fit2(left.map, right.map),
    ensures ret.inv(), is_inter(ret@, left@, right@),
//@ fn treap::set::TreapSet::difference
    requires left.inv(), right.inv(), fit2(left.map, right.map),
    ensures ret.inv(), is_diff(ret@, left@, right@),
//@ fn treap::set::TreapSet::symmetric_difference
    requires left.inv(), right.inv(), fit2(left.map, right.map),
    ensures ret.inv(), is_sym(ret@, left@, right@),
//@ fn treap::set::TreapSet::Add::add
    requires self.inv(), other.inv(), fit2(self.map, other.map),
    ensures ret.inv(), is_union(ret@, self@, other@),
//@ fn treap::set::TreapSet::Sub::sub
    requires self.inv(), other.inv(), fit2(self.map, other.map),
    ensures ret.inv(), is_diff(ret@, self@, other@),
