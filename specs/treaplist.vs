//@ # TreapList: the sequence; files treap/list.rs, treap/implicit_tree.rs and ImplicitNode of treap/node.rs
//@ include vp.vs
//@ include rng.vs
//@ inherent Add
//@ inherent Iterator
//@ inherent Index
//@ inherent IndexMut
//@ inherent Default
//@ inherent IntoIterator
//@ use crate::treap::tree => -
//@ use crate::entry::Entry => -
//@ file src/treap/node.rs as treap::node
//@ file src/treap/implicit_tree.rs as treap::implicit_tree
//@ file src/treap/list.rs as treap::list
//@ only treap::node::ImplicitNode
//@ prelude
pub mod lseq {
use vstd::prelude::*;
pub open spec fn cat<T>(l: Seq<T>, x: T, r: Seq<T>) -> Seq<T> { l + seq![x] + r }
pub open spec fn oref<A>(o: Option<&A>) -> Option<A> { match o { Some(e) => Some(*e), None => None } }
pub open spec fn nth<T>(s: Seq<T>, i: int) -> Option<T> { if 0 <= i < s.len() { Some(s[i]) } else { None } }
}
//@ spec treap::implicit_tree
use crate::lseq::*;
use crate::vp::spec_max;
pub open spec fn view<T>(t: Tree<T>) -> Seq<T>
    decreases t
{
    match t { None => Seq::empty(), Some(n) => cat(view(n.left), n.value, view(n.right)) }
}
pub open spec fn nv<T>(n: ImplicitNode<T>) -> Seq<T> { cat(view(n.left), n.value, view(n.right)) }
// the len field of every node is the size of its subtree
pub open spec fn lens<T>(t: Tree<T>) -> bool
    decreases t
{
    match t { None => true, Some(n) => lens(n.left) && lens(n.right) && n.len == view(t).len() }
}
pub open spec fn prio<T>(t: Tree<T>) -> int { match t { None => -1, Some(n) => n.priority as int } }
// no node has a greater priority than its parent
pub open spec fn heap<T>(t: Tree<T>) -> bool
    decreases t
{
    match t { None => true, Some(n) => heap(n.left) && heap(n.right) && prio(n.left) <= n.priority && prio(n.right) <= n.priority }
}
pub open spec fn below_p<T>(t: Tree<T>, p: int) -> bool { heap(t) && prio(t) <= p }
pub open spec fn keep<T>(a: Tree<T>, b: Tree<T>) -> bool {
    (lens(a) ==> lens(b)) && (heap(a) ==> heap(b) && prio(b) == prio(a))
}
pub open spec fn size<T>(t: Tree<T>) -> nat
    decreases t
{
    match t { None => 0, Some(n) => size(n.left) + size(n.right) + 1 }
}
//@ spec treap::node
use crate::lseq::*;
use crate::treap::implicit_tree::*;
//@ fn treap::node::ImplicitNode::new
    ensures ret.value == value, ret.left is None, ret.right is None, ret.len == 1, ret.priority == priority,
//@ fn treap::node::ImplicitNode::len
    ensures ret == self.len,
//@ fn treap::node::ImplicitNode::update
    requires lens(old(self).left), lens(old(self).right), view(old(self).left).len() + view(old(self).right).len() + 1 <= usize::MAX,
    ensures
        *final(self) == (ImplicitNode { len: final(self).len, ..*old(self) }),
        final(self).len == view(old(self).left).len() + view(old(self).right).len() + 1,
//@ fn treap::node::ImplicitNode::get_implicit_key
    requires lens(self.left), view(self.left).len() < usize::MAX,
    ensures ret == view(self.left).len() + 1,
//@ fn treap::implicit_tree::merge
    requires
        lens(*old(l_tree)), lens(r_tree), view(*old(l_tree)).len() + view(r_tree).len() <= usize::MAX,
        heap(*old(l_tree)), heap(r_tree), // @heap
    ensures
        view(*final(l_tree)) =~= view(*old(l_tree)) + view(r_tree),
        lens(*final(l_tree)),
        below_p(*final(l_tree), spec_max(prio(*old(l_tree)), prio(r_tree))), // @heap
    decreases view(*old(l_tree)).len() + view(r_tree).len(),
//@ fn treap::implicit_tree::split
    requires
        lens(*old(tree)), view(*old(tree)).len() <= usize::MAX,
        left_inclusive ==> index >= 1,
        index <= view(*old(tree)).len() + (if left_inclusive { 1int } else { 0int }),
        heap(*old(tree)), // @heap
    ensures
        view(*final(tree)) =~= view(*old(tree)).subrange(0, if left_inclusive { index - 1 } else { index as int }),
        view(ret) =~= view(*old(tree)).subrange(if left_inclusive { index - 1 } else { index as int }, view(*old(tree)).len() as int),
        lens(*final(tree)), lens(ret),
        below_p(*final(tree), prio(*old(tree))), below_p(ret, prio(*old(tree))), // @heap
    decreases *old(tree),
//@ fn treap::implicit_tree::insert
    requires
        lens(*old(tree)), view(*old(tree)).len() < usize::MAX, 1 <= index <= view(*old(tree)).len() + 1,
        new_node.left is None, new_node.right is None, new_node.len == 1,
        heap(*old(tree)), // @heap
    ensures
        view(*final(tree)) =~= view(*old(tree)).insert(index - 1, new_node.value),
        lens(*final(tree)),
        heap(*final(tree)), // @heap
//@ entry
    proof { reveal_with_fuel(view, 2); reveal_with_fuel(lens, 2); reveal_with_fuel(heap, 2); }
//@ fn treap::implicit_tree::remove
    requires
        lens(*old(tree)), view(*old(tree)).len() <= usize::MAX, 1 <= index <= view(*old(tree)).len(),
        heap(*old(tree)), // @heap
    ensures
        view(*final(tree)) =~= view(*old(tree)).remove(index - 1),
        ret == view(*old(tree))[index - 1],
        lens(*final(tree)),
        below_p(*final(tree), prio(*old(tree))), // @heap
    decreases *old(tree),
//@ fn treap::implicit_tree::get
    requires lens(*tree), view(*tree).len() <= usize::MAX, 1 <= index,
    ensures oref(ret) == nth(view(*tree), index - 1),
    decreases *tree,
//@ fn treap::implicit_tree::get_mut
    requires lens(*old(tree)), view(*old(tree)).len() <= usize::MAX, 1 <= index,
    ensures
        match ret {
            Some(r) => {
                &&& index <= view(*old(tree)).len()
                &&& *r == view(*old(tree))[index - 1]
                &&& view(*final(tree)) =~= view(*old(tree)).update(index - 1, *final(r))
            },
            None => index > view(*old(tree)).len() && view(*final(tree)) =~= view(*old(tree)),
        },
        keep(*old(tree), *final(tree)), // @bal
    decreases *old(tree),
//@ fn treap::implicit_tree::len
    requires lens(*tree),
    ensures ret == view(*tree).len(),
//@ spec treap::list
use crate::lseq::*;
use crate::treap::implicit_tree::*;
impl<T> View for TreapList<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { view(self.tree) }
}
impl<T> TreapList<T> {
    pub open spec fn inv(&self) -> bool { lens(self.tree) && heap(self.tree) && self@.len() <= usize::MAX }
}
//@ fn treap::list::TreapList::new
    ensures ret.inv(), ret@ == Seq::<T>::empty(),
//@ fn treap::list::TreapList::Default::default
    ensures ret.inv(), ret@ == Seq::<T>::empty(),
//@ fn treap::list::TreapList::insert
    requires old(self).inv(), index <= old(self)@.len() < usize::MAX,
    ensures final(self).inv(), final(self)@ == old(self)@.insert(index as int, value),
//@ fn treap::list::TreapList::remove
    requires old(self).inv(), index < old(self)@.len(),
    ensures final(self).inv(), final(self)@ == old(self)@.remove(index as int), ret == old(self)@[index as int],
//@ fn treap::list::TreapList::push_front
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures final(self).inv(), final(self)@ =~= seq![value] + old(self)@,
//@ fn treap::list::TreapList::push_back
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures final(self).inv(), final(self)@ =~= old(self)@.push(value),
//@ fn treap::list::TreapList::pop_front
    requires old(self).inv(), old(self)@.len() > 0,
    ensures final(self).inv(), final(self)@ =~= old(self)@.subrange(1, old(self)@.len() as int), ret == old(self)@[0],
//@ fn treap::list::TreapList::pop_back
    requires old(self).inv(), old(self)@.len() > 0,
    ensures final(self).inv(), final(self)@ =~= old(self)@.drop_last(), ret == old(self)@.last(),
//@ fn treap::list::TreapList::get
    requires self.inv(),
    ensures oref(ret) == nth(self@, index as int),
//@ fn treap::list::TreapList::get_mut
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(r) => {
                &&& index < old(self)@.len()
                &&& *r == old(self)@[index as int]
                &&& final(self)@ =~= old(self)@.update(index as int, *final(r))
            },
            None => index >= old(self)@.len() && final(self)@ =~= old(self)@,
        },
//@ fn treap::list::TreapList::len
    requires self.inv(),
    ensures ret == self@.len(),
//@ fn treap::list::TreapList::is_empty
    requires self.inv(),
    ensures ret == (self@.len() == 0),
//@ fn treap::list::TreapList::clear
    ensures final(self).inv(), final(self)@ == Seq::<T>::empty(),
//@ fn treap::list::TreapList::Add::add
    requires self.inv(), other.inv(), self@.len() + other@.len() <= usize::MAX,
    ensures ret.inv(), ret@ =~= self@ + other@,
//@ fn treap::list::TreapList::Index::index
    requires self.inv(), index < self@.len(),
    ensures *ret == self@[index as int],
//@ fn treap::list::TreapList::IndexMut::index_mut
    requires old(self).inv(), index < old(self)@.len(),
    ensures
        final(self).inv(), *ret == old(self)@[index as int],
        final(self)@ =~= old(self)@.update(index as int, *final(ret)),

// ---- iterators: the view of an iterator is the sequence of values still to come
//@ spec treap::implicit_tree
pub open spec fn stk<T>(s: Seq<ImplicitNode<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { seq![s.last().value] + view(s.last().right) + stk(s.drop_last()) }
}
pub open spec fn deref<T>(s: Seq<&ImplicitNode<T>>) -> Seq<ImplicitNode<T>> { s.map_values(|n: &ImplicitNode<T>| *n) }
pub broadcast proof fn lemma_stk_push<T>(s: Seq<ImplicitNode<T>>, n: ImplicitNode<T>)
    ensures #[trigger] stk(s.push(n)) == seq![n.value] + view(n.right) + stk(s),
{
    assert(s.push(n).drop_last() =~= s);
}
pub broadcast proof fn lemma_deref_push<T>(s: Seq<&ImplicitNode<T>>, n: &ImplicitNode<T>)
    ensures #[trigger] deref(s.push(n)) == deref(s).push(*n),
{
    assert(deref(s.push(n)) =~= deref(s).push(*n));
}
pub broadcast proof fn lemma_deref_sub<T>(s: Seq<&ImplicitNode<T>>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures #[trigger] deref(s).subrange(a, b) == deref(s.subrange(a, b)),
{
    assert(deref(s).subrange(a, b) =~= deref(s.subrange(a, b)));
}
// values still to come: as they are now, and as the caller will leave them
pub open spec fn mcur<T>(c: Option<&mut ImplicitNode<T>>) -> Seq<T> {
    match c { None => Seq::empty(), Some(n) => nv(*n) }
}
#[verifier::prophetic]
pub open spec fn mfut<T>(c: Option<&mut ImplicitNode<T>>) -> Seq<T> {
    match c { None => Seq::empty(), Some(n) => nv(*final(n)) }
}
pub open spec fn mstk<T>(s: Seq<Option<(&mut T, Option<&mut ImplicitNode<T>>)>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        (match s.last() {
            Some((e, r)) => seq![*e] + mcur(r),
            None => Seq::empty(),
        }) + mstk(s.drop_last())
    }
}
#[verifier::prophetic]
pub open spec fn fstk<T>(s: Seq<Option<(&mut T, Option<&mut ImplicitNode<T>>)>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        (match s.last() {
            Some((e, r)) => seq![*final(e)] + mfut(r),
            None => Seq::empty(),
        }) + fstk(s.drop_last())
    }
}
pub broadcast proof fn lemma_mstk_push<T>(s: Seq<Option<(&mut T, Option<&mut ImplicitNode<T>>)>>, x: Option<(&mut T, Option<&mut ImplicitNode<T>>)>)
    ensures
        #[trigger] mstk(s.push(x)) == (match x { Some((e, r)) => seq![*e] + mcur(r), None => Seq::empty() }) + mstk(s),
{
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast proof fn lemma_fstk_push<T>(s: Seq<Option<(&mut T, Option<&mut ImplicitNode<T>>)>>, x: Option<(&mut T, Option<&mut ImplicitNode<T>>)>)
    ensures
        #[trigger] fstk(s.push(x)) == (match x { Some((e, r)) => seq![*final(e)] + mfut(r), None => Seq::empty() }) + fstk(s),
{
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast group group_stk { lemma_stk_push, lemma_deref_push, lemma_deref_sub, lemma_mstk_push, lemma_fstk_push }
//@ spec treap::list
broadcast use group_stk;
impl<T> View for TreapListIntoIter<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { view(self.current) + stk(self.stack@) }
}
impl<'a, T> View for TreapListIter<'a, T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { view(*self.current) + stk(deref(self.stack@)) }
}
impl<'a, T> TreapListIterMut<'a, T> {
    pub open spec fn inv(&self) -> bool { forall|i: int| 0 <= i < self.stack@.len() ==> #[trigger] self.stack@[i] is Some }
    pub open spec fn cur(&self) -> Seq<T> { mcur(self.current) + mstk(self.stack@) }
#[verifier::prophetic]
    pub open spec fn fut(&self) -> Seq<T> { mfut(self.current) + fstk(self.stack@) }
}
//@ fn treap::list::TreapList::iter
    ensures ret@ =~= self@,
//@ fn treap::list::TreapList::IntoIterator::into_iter
    ensures ret@ =~= self@,
//@ fn treap::list::TreapListIntoIter::Iterator::next
    ensures
        match ret {
            Some(v) => old(self)@ =~= seq![v] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0
    invariant self@ =~= old(self)@,
    ensures self.current is None,
    decreases self.current,
//@ fn treap::list::TreapListIter::Iterator::next
    ensures
        match ret {
            Some(v) => old(self)@ =~= seq![*v] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0
    invariant self@ =~= old(self)@,
    ensures *self.current is None,
    decreases *self.current,
//@ subst treap::list::TreapList::iter_mut `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ subst treap::list::TreapListIterMut::Iterator::next `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ fn treap::list::TreapList::iter_mut
    ensures ret.inv(), ret.cur() =~= old(self)@, ret.fut() =~= final(self)@,
//@ fn treap::list::TreapListIterMut::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(v) => {
                &&& old(self).cur() =~= seq![*v] + final(self).cur()
                &&& old(self).fut() =~= seq![*final(v)] + final(self).fut()
            },
            None => old(self).cur().len() == 0 && final(self).cur().len() == 0 && old(self).fut().len() == 0,
        },
//@ loop 0
    invariant
        forall|i: int| 0 <= i < stack@.len() ==> #[trigger] stack@[i] is Some,
        mcur(*current) + mstk(stack@) =~= old(self).cur(),
        mfut(*current) + fstk(stack@) =~= old(self).fut(),
    ensures *current is None,
    decreases (match *current { None => 0, Some(n) => size(n.left) + size(n.right) + 1 }),
