//@ include omap.vs
//@ include rng.vs
//@ inherent Add
//@ inherent Iterator
//@ inherent Index
//@ inherent IndexMut
//@ inherent Default
//@ inherent IntoIterator
//@ inherent Drop
//@ file src/skiplist/list.rs as skiplist::list
//@ use std::alloc => -
//@ use std::ptr => -
//@ rawptr skiplist::list links T
//@ heapfield SkipList heap: Tracked<crate::rp::Heap<T>>
//@ heapfield SkipListIntoIter heap: Tracked<crate::rp::Heap<T>>
//@ heapfield SkipListIter heap: Tracked<&'a crate::rp::Heap<T>>
//@ heapfield SkipListIterMut heap: Tracked<&'a mut crate::rp::Heap<T>>
//@ heapparam Node::new Tracked(h): Tracked<&mut crate::rp::Heap<T>>
//@ heapparam Node::free Tracked(h): Tracked<&mut crate::rp::Heap<T>>
//@ heap Node::new h | h
//@ heap Node::free h | h
//@ rawkeep Node::get_layout
//@ rawkeep Node::allocate
//@ rawkeep Node::deallocate
//@ rawkeep Node::get_pointer
//@ rawkeep Node::get_pointer_mut
//@ heap SkipList::new &hp | &mut hp | Tracked(hp)
//@ heap SkipList::Add::add &hp | &mut hp
//@ heap SkipList::iter self.heap.borrow() | | Tracked(self.heap.borrow())
//@ heap SkipList::iter_mut self.heap.borrow() | self.heap.borrow_mut() | Tracked(self.heap.borrow_mut())
//@ heap SkipList::IntoIterator::into_iter &hp | &mut hp | Tracked(hp.take_rest(self.head))
//@ skip skiplist::list::Node::get_layout
//@ skip skiplist::list::Node::allocate
//@ skip skiplist::list::Node::deallocate
//@ skip skiplist::list::Node::get_pointer
//@ skip skiplist::list::Node::get_pointer_mut
//@ skip skiplist::list::Link
//@ subst skiplist::list::SkipListIterMut::Iterator::next `value_mut` => `value_lend`
//@ prelude
// ---------------------------------------------------------------------------
// Memory reached through raw pointers: the nodes of a skip list live in an explicit heap.
// TRUSTED: the contracts below say what the dereferences, `ptr::read`, `ptr::write`,
// `ptr::drop_in_place`, `ptr::write_bytes` and the allocator do to that heap. A heap is owned
// (tracked), so two heaps never share a node.
// ---------------------------------------------------------------------------
pub mod rp {
use vstd::prelude::*;

#[derive(Clone, Copy)]
pub struct Ptr { pub a: usize }
pub open spec fn null() -> Ptr { Ptr { a: 0 } }
// the record of a link (struct Link of the source, with an address for the raw pointer)
#[derive(Clone, Copy)]
pub struct Link { pub next: Ptr, pub distance: usize }
pub open spec fn nolink() -> Link { Link { next: null(), distance: 0 } }
// a place that holds a pointer: a local or field (by value), or the next field of link l of a node
#[derive(Clone, Copy)]
pub enum Slot { Loc(Ptr), Link(Ptr, usize) }
// link number l of a node
#[derive(Clone, Copy)]
pub struct LSlot { pub p: Ptr, pub l: usize }

// value: None while the memory holds no initialised value
pub ghost struct NodeV<T> { pub value: Option<T>, pub links: Seq<Link> }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub tracked struct Heap<T> { x: core::marker::PhantomData<T> }
impl<T> View for Heap<T> {
    type V = Map<Ptr, NodeV<T>>;
    uninterp spec fn view(&self) -> Map<Ptr, NodeV<T>>;
}
impl<T> Heap<T> {
    pub axiom fn empty() -> (tracked r: Self)
        ensures r@ == Map::<Ptr, NodeV<T>>::empty();
    // the heap loses all its nodes to the result
    pub axiom fn take(tracked &mut self) -> (tracked r: Self)
        ensures r@ == old(self)@, final(self)@ == Map::<Ptr, NodeV<T>>::empty();
    // the heap keeps p only
    pub axiom fn take_rest(tracked &mut self, p: Ptr) -> (tracked r: Self)
        requires old(self)@.dom().contains(p),
        ensures r@ == old(self)@.remove(p), final(self)@ == Map::<Ptr, NodeV<T>>::empty().insert(p, old(self)@[p]);
    // one heap from two; no node is in both
    pub axiom fn join(tracked &mut self, tracked o: Self)
        ensures
            forall|p: Ptr| old(self)@.dom().contains(p) ==> !o@.dom().contains(p),
            final(self)@ == old(self)@.union_prefer_right(o@);
}
pub open spec fn set_link<T>(m: Map<Ptr, NodeV<T>>, p: Ptr, l: int, v: Link) -> Map<Ptr, NodeV<T>> {
    m.insert(p, NodeV { links: m[p].links.update(l, v), ..m[p] })
}
pub open spec fn live<T>(m: Map<Ptr, NodeV<T>>, p: Ptr) -> bool {
    m.dom().contains(p) && m[p].value is Some
}
pub open spec fn ent<T>(m: Map<Ptr, NodeV<T>>, p: Ptr) -> T { m[p].value->0 }
pub open spec fn set_ent<T>(m: Map<Ptr, NodeV<T>>, p: Ptr, e: T) -> Map<Ptr, NodeV<T>> {
    m.insert(p, NodeV { value: Some(e), ..m[p] })
}
pub open spec fn clr_ent<T>(m: Map<Ptr, NodeV<T>>, p: Ptr) -> Map<Ptr, NodeV<T>> {
    m.insert(p, NodeV { value: None, ..m[p] })
}
impl Slot {
    pub open spec fn val<T>(self, m: Map<Ptr, NodeV<T>>) -> Ptr {
        match self { Slot::Loc(p) => p, Slot::Link(p, l) => m[p].links[l as int].next }
    }
    pub open spec fn ok<T>(self, m: Map<Ptr, NodeV<T>>) -> bool {
        match self { Slot::Loc(p) => true, Slot::Link(p, l) => m.dom().contains(p) && l < m[p].links.len() }
    }
    #[verifier::external_body]
    pub fn rd<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: Ptr)
        requires self.ok(h@),
        ensures r == self.val(h@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: bool)
        requires self.ok(h@),
        ensures r == (self.val(h@) == null()),
    { unimplemented!() }
}
impl LSlot {
    pub open spec fn val<T>(self, m: Map<Ptr, NodeV<T>>) -> Link { m[self.p].links[self.l as int] }
    pub open spec fn ok<T>(self, m: Map<Ptr, NodeV<T>>) -> bool { m.dom().contains(self.p) && self.l < m[self.p].links.len() }
    #[verifier::external_body]
    pub fn rd<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: Link)
        requires self.ok(h@),
        ensures r == self.val(h@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: Ptr)
        requires self.ok(h@),
        ensures r == self.val(h@).next,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn distance<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: usize)
        requires self.ok(h@),
        ensures r == self.val(h@).distance,
    { unimplemented!() }
    pub fn next_slot<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: Slot)
        requires self.ok(h@),
        ensures r == Slot::Link(self.p, self.l),
    { Slot::Link(self.p, self.l) }
    #[verifier::external_body]
    pub fn wr<T>(self, v: Link, Tracked(h): Tracked<&mut Heap<T>>)
        requires self.ok(old(h)@),
        ensures final(h)@ == set_link(old(h)@, self.p, self.l as int, v),
    { unimplemented!() }
    pub fn replace<T>(self, v: Link, Tracked(h): Tracked<&mut Heap<T>>) -> (r: Link)
        requires self.ok(old(h)@),
        ensures
            r == self.val(old(h)@),
            final(h)@ == set_link(old(h)@, self.p, self.l as int, v),
    { let r = self.rd::<T>(Tracked(&*h)); self.wr::<T>(v, Tracked(h)); r }
    pub fn set_distance<T>(self, d: usize, Tracked(h): Tracked<&mut Heap<T>>)
        requires self.ok(old(h)@),
        ensures final(h)@ == set_link(old(h)@, self.p, self.l as int, Link { distance: d, ..self.val(old(h)@) }),
    { let r = self.rd::<T>(Tracked(&*h)); self.wr::<T>(Link { next: r.next, distance: d }, Tracked(h)); }
    pub fn add_distance<T>(self, d: usize, Tracked(h): Tracked<&mut Heap<T>>)
        requires self.ok(old(h)@), self.val(old(h)@).distance + d <= usize::MAX,
        ensures final(h)@ == set_link(old(h)@, self.p, self.l as int, Link { distance: (self.val(old(h)@).distance + d) as usize, ..self.val(old(h)@) }),
    { let r = self.rd::<T>(Tracked(&*h)); self.wr::<T>(Link { next: r.next, distance: r.distance + d }, Tracked(h)); }
    pub fn sub_distance<T>(self, d: usize, Tracked(h): Tracked<&mut Heap<T>>)
        requires self.ok(old(h)@), self.val(old(h)@).distance >= d,
        ensures final(h)@ == set_link(old(h)@, self.p, self.l as int, Link { distance: (self.val(old(h)@).distance - d) as usize, ..self.val(old(h)@) }),
    { let r = self.rd::<T>(Tracked(&*h)); self.wr::<T>(Link { next: r.next, distance: r.distance - d }, Tracked(h)); }
    // null links into the first n links of the node whose first link this is
    #[verifier::external_body]
    pub fn zero<T>(self, n: usize, Tracked(h): Tracked<&mut Heap<T>>)
        requires self.l == 0, old(h)@.dom().contains(self.p), n <= old(h)@[self.p].links.len(),
        ensures
            final(h)@ == old(h)@.insert(self.p, NodeV {
                links: Seq::new(old(h)@[self.p].links.len(), |i: int| if i < n { nolink() } else { old(h)@[self.p].links[i] }),
                ..old(h)@[self.p]
            }),
    { unimplemented!() }
}
pub fn lswap<T>(a: LSlot, b: LSlot, Tracked(h): Tracked<&mut Heap<T>>)
    requires a.ok(old(h)@), b.ok(old(h)@),
    ensures final(h)@ == set_link(set_link(old(h)@, a.p, a.l as int, b.val(old(h)@)), b.p, b.l as int, a.val(old(h)@)),
{
    let x = a.rd::<T>(Tracked(&*h));
    let y = b.rd::<T>(Tracked(&*h));
    a.wr::<T>(y, Tracked(h));
    b.wr::<T>(x, Tracked(h));
}
pub fn least(a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { a } else { b }),
{ if a < b { a } else { b } }
impl Ptr {
    #[verifier::external_body]
    pub fn is_null<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: bool)
        ensures r == (self == null()),
    { unimplemented!() }
    // the address of link l; l may be 0 on a node without links (where nothing may be read)
    #[verifier::external_body]
    pub fn slot<T>(self, l: usize, Tracked(h): Tracked<&Heap<T>>) -> (r: LSlot)
        requires h@.dom().contains(self), l < h@[self].links.len() || l == 0,
        ensures r == (LSlot { p: self, l }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn links_len<T>(self, Tracked(h): Tracked<&Heap<T>>) -> (r: usize)
        requires h@.dom().contains(self),
        ensures r == h@[self].links.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn value<'a, T>(self, Tracked(h): Tracked<&'a Heap<T>>) -> (r: &'a T)
        requires live(h@, self),
        ensures *r == ent(h@, self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn value_mut<'a, T>(self, Tracked(h): Tracked<&'a mut Heap<T>>) -> (r: &'a mut T)
        requires live(old(h)@, self),
        ensures *r == ent(old(h)@, self), final(h)@ == set_ent(old(h)@, self, *final(r)),
    { unimplemented!() }
    // a reference to the value that outlives the loan of the heap: the value leaves the heap,
    // and is back in it, as its last user left it, when the heap is returned to its owner
    #[verifier::external_body]
    pub fn value_lend<'a, T>(self, Tracked(h): Tracked<&mut &'a mut Heap<T>>) -> (r: &'a mut T)
        requires live((*old(h))@, self),
        ensures
            *r == ent((*old(h))@, self),
            (*final(h))@ == clr_ent((*old(h))@, self),
            final(*old(h))@ == set_ent(final(*final(h))@, self, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_value<T>(self, e: T, Tracked(h): Tracked<&mut Heap<T>>)
        requires old(h)@.dom().contains(self), old(h)@[self].value is None,
        ensures final(h)@ == set_ent(old(h)@, self, e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drop_value<T>(self, Tracked(h): Tracked<&mut Heap<T>>)
        requires live(old(h)@, self),
        ensures final(h)@ == clr_ent(old(h)@, self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_value<T>(self, Tracked(h): Tracked<&mut Heap<T>>) -> (r: T)
        requires live(old(h)@, self),
        ensures r == ent(old(h)@, self), final(h)@ == clr_ent(old(h)@, self),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn alloc<T>(n: usize, Tracked(h): Tracked<&mut Heap<T>>) -> (r: Ptr)
    ensures
        r != null(), !old(h)@.dom().contains(r),
        final(h)@ == old(h)@.insert(r, NodeV { value: None, links: Seq::new(n as nat, |i: int| nolink()) }),
{ unimplemented!() }
// the value must have been moved out or dropped before
#[verifier::external_body]
pub fn dealloc<T>(p: Ptr, Tracked(h): Tracked<&mut Heap<T>>)
    requires old(h)@.dom().contains(p), old(h)@[p].value is None,
    ensures final(h)@ == old(h)@.remove(p),
{ unimplemented!() }
}
// ---------------------------------------------------------------------------
// A skip list in the heap: s is the head followed by the nodes in order; every node of height
// above l is linked at level l to the next node of height above l; the distance of a link is the
// number of positions it leads on, or to the end where it leads nowhere.
// ---------------------------------------------------------------------------
pub mod sk {
use vstd::prelude::*;
use crate::rp::*;
pub type M<T> = Map<Ptr, NodeV<T>>;
pub open spec fn lst(a: int, b: int) -> int { if a < b { a } else { b } }
// the link of node i that leads to index j
pub open spec fn lk(s: Seq<Ptr>, j: int, i: int) -> Link { Link { next: tgt(s, j), distance: (lst(j, s.len() - 1) - i) as usize } }
pub open spec fn lvl<T>(m: M<T>, s: Seq<Ptr>, hs: Seq<int>, l: int) -> bool {
    forall|i: int| 0 <= i < s.len() && hs[i] > l ==> (#[trigger] m[s[i]]).links[l] == lk(s, nxt(hs, i, l), i)
}
// nodes, without the links
pub open spec fn base<T>(m: M<T>, head: Ptr, s: Seq<Ptr>) -> bool {
    &&& s.len() >= 1 && s.len() - 1 <= usize::MAX && s[0] == head && s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]) && s[i] != null() && 1 <= m[s[i]].links.len() <= 33
    &&& forall|i: int| 1 <= i < s.len() ==> live(m, #[trigger] s[i])
    &&& m[head].links.len() == 33 && m[head].value is None
}
#[verifier::opaque]
pub open spec fn repr<T>(m: M<T>, head: Ptr, s: Seq<Ptr>) -> bool {
    &&& base(m, head, s)
    &&& forall|p: Ptr| m.dom().contains(p) ==> #[trigger] s.contains(p)
    &&& forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l)
}
pub broadcast proof fn b_repr<T>(m: M<T>, head: Ptr, s: Seq<Ptr>)
    requires #[trigger] repr(m, head, s),
    ensures base(m, head, s),
{ reveal(repr); }
pub broadcast proof fn b_step<T>(m: M<T>, head: Ptr, s: Seq<Ptr>, i: int, l: int)
    requires #[trigger] repr(m, head, s), 0 <= i < s.len(), 0 <= l < hts(m, s)[i],
    ensures
        (#[trigger] m[s[i]].links[l]).next == tgt(s, nxt(hts(m, s), i, l)),
        m[s[i]].links[l].distance == lst(nxt(hts(m, s), i, l), s.len() - 1) - i,
        is_nxt(hts(m, s), i, l, nxt(hts(m, s), i, l)),
        l == 0 ==> nxt(hts(m, s), i, l) == i + 1,
{
    reveal(repr);
    assert(lvl(m, s, hts(m, s), l));
    b_nxt(hts(m, s), i, l);
    if l == 0 { lemma_nxt(hts(m, s), i, l, i + 1); }
}
pub open spec fn hts<T>(m: M<T>, s: Seq<Ptr>) -> Seq<int> { Seq::new(s.len(), |i: int| m[s[i]].links.len() as int) }
pub open spec fn vals<T>(m: M<T>, s: Seq<Ptr>) -> Seq<T> { Seq::new((s.len() - 1) as nat, |i: int| ent(m, s[i + 1])) }
pub open spec fn tgt(s: Seq<Ptr>, j: int) -> Ptr { if 0 <= j < s.len() { s[j] } else { null() } }
// the first index after i of height above l
pub open spec fn nxt(hs: Seq<int>, i: int, l: int) -> int
    decreases hs.len() - i
{
    if i + 1 >= hs.len() { hs.len() as int } else if hs[i + 1] > l { i + 1 } else { nxt(hs, i + 1, l) }
}
pub open spec fn is_nxt(hs: Seq<int>, i: int, l: int, j: int) -> bool {
    i < j <= hs.len() && (j < hs.len() ==> hs[j] > l) && forall|k: int| i < k < j ==> #[trigger] hs[k] <= l
}
pub open spec fn ix(s: Seq<Ptr>, p: Ptr) -> int { choose|i: int| 0 <= i < s.len() && s[i] == p }
pub broadcast proof fn b_ix(s: Seq<Ptr>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures ix(s, #[trigger] s[i]) == i,
{}
pub broadcast proof fn b_ix2(s: Seq<Ptr>, p: Ptr)
    requires #[trigger] s.contains(p),
    ensures 0 <= ix(s, p) < s.len(), s[ix(s, p)] == p,
{}
pub broadcast proof fn b_nxt(hs: Seq<int>, i: int, l: int)
    requires -1 <= i < hs.len(),
    ensures is_nxt(hs, i, l, #[trigger] nxt(hs, i, l)),
    decreases hs.len() - i,
{
    if i + 1 >= hs.len() {} else if hs[i + 1] > l {} else {
        b_nxt(hs, i + 1, l);
        let j = nxt(hs, i + 1, l);
        assert forall|k: int| i < k < j implies #[trigger] hs[k] <= l by { if k > i + 1 {} }
    }
}
pub proof fn lemma_nxt(hs: Seq<int>, i: int, l: int, j: int)
    requires -1 <= i < hs.len(), is_nxt(hs, i, l, j),
    ensures nxt(hs, i, l) == j,
{
    b_nxt(hs, i, l);
    let k = nxt(hs, i, l);
    if k < j { assert(hs[k] <= l); }
    if j < k { assert(hs[j] <= l); }
}
pub open spec fn ss<T>(m: M<T>, head: Ptr) -> Seq<Ptr> { choose|s: Seq<Ptr>| repr(m, head, s) }
// the list is determined by the heap
pub proof fn lemma_unique<T>(m: M<T>, head: Ptr, s: Seq<Ptr>, t: Seq<Ptr>)
    requires repr(m, head, s), repr(m, head, t),
    ensures s == t,
{
    reveal(repr);
    lemma_prefix(m, head, s, t, s.len() as int - 1);
    lemma_prefix(m, head, t, s, t.len() as int - 1);
    assert(s =~= t);
}
proof fn lemma_prefix<T>(m: M<T>, head: Ptr, s: Seq<Ptr>, t: Seq<Ptr>, n: int)
    requires repr(m, head, s), repr(m, head, t), 0 <= n < s.len(),
    ensures n < t.len(), forall|i: int| 0 <= i <= n ==> s[i] == t[i],
    decreases n,
{
    reveal(repr);
    if n > 0 {
        lemma_prefix(m, head, s, t, n - 1);
        assert(lvl(m, s, hts(m, s), 0) && lvl(m, t, hts(m, t), 0));
        lemma_nxt(hts(m, s), n - 1, 0, n);
        lemma_nxt(hts(m, t), n - 1, 0, n);
        assert(m[s[n - 1]].links[0].next == s[n]);
        assert(m[t[n - 1]].links[0].next == tgt(t, n));
    }
}
pub proof fn lemma_ss<T>(m: M<T>, head: Ptr, s: Seq<Ptr>)
    requires repr(m, head, s),
    ensures repr(m, head, ss(m, head)), ss(m, head) == s,
{
    lemma_unique(m, head, s, ss(m, head));
}
// the next pointer at level l of the node in slot c
pub open spec fn at_l<T>(m: M<T>, s: Seq<Ptr>, c: Slot, l: int) -> bool {
    c.ok(m) && s.contains(c.val(m)) && hts(m, s)[ix(s, c.val(m))] > l
}
pub broadcast proof fn b_ss<T>(m: M<T>, head: Ptr, s: Seq<Ptr>)
    requires #[trigger] repr(m, head, s),
    ensures ss(m, head) == s,
{ lemma_ss(m, head, s); }
pub broadcast proof fn b_set_ent<T>(m: M<T>, head: Ptr, s: Seq<Ptr>, p: Ptr, e: T)
    requires repr(m, head, s), s.contains(p), p != head,
    ensures
        #![trigger repr(m, head, s), set_ent(m, p, e)]
        repr(set_ent(m, p, e), head, s),
        vals(set_ent(m, p, e), s) == vals(m, s).update(ix(s, p) - 1, e),
{
    reveal(repr);
    let m2 = set_ent(m, p, e);
    assert(hts(m2, s) =~= hts(m, s));
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { assert(lvl(m, s, hts(m, s), l)); }
    assert(vals(m2, s) =~= vals(m, s).update(ix(s, p) - 1, e));
}
// ---- the nodes reached from p by the lowest links
pub open spec fn chain0<T>(m: M<T>, p: Ptr, s: Seq<Ptr>) -> bool {
    &&& p == tgt(s, 0) && s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> live(m, #[trigger] s[i]) && s[i] != null() && 1 <= m[s[i]].links.len() <= 33 && m[s[i]].links[0].next == tgt(s, i + 1)
}
#[verifier::opaque]
pub open spec fn chain<T>(m: M<T>, p: Ptr, s: Seq<Ptr>) -> bool { chain0(m, p, s) }
pub open spec fn cs<T>(m: M<T>, p: Ptr) -> Seq<Ptr> { choose|s: Seq<Ptr>| chain(m, p, s) }
pub open spec fn ok_chain<T>(m: M<T>, p: Ptr) -> bool { chain(m, p, cs(m, p)) }
pub open spec fn cvals<T>(m: M<T>, s: Seq<Ptr>) -> Seq<T> { Seq::new(s.len(), |i: int| ent(m, s[i])) }
proof fn lemma_chain_prefix<T>(m: M<T>, p: Ptr, s: Seq<Ptr>, t: Seq<Ptr>, n: int)
    requires chain(m, p, s), chain(m, p, t), 0 <= n < s.len(),
    ensures n < t.len(), s[n] == t[n],
    decreases n,
{
    reveal(chain);
    if n > 0 {
        lemma_chain_prefix(m, p, s, t, n - 1);
        assert(m[s[n - 1]].links[0].next == s[n]);
        assert(m[t[n - 1]].links[0].next == tgt(t, n));
    }
}
pub broadcast proof fn b_cs<T>(m: M<T>, p: Ptr, s: Seq<Ptr>)
    requires #[trigger] chain(m, p, s),
    ensures cs(m, p) == s,
{
    let t = cs(m, p);
    if s.len() > 0 { lemma_chain_prefix(m, p, s, t, s.len() - 1); }
    if t.len() > 0 { lemma_chain_prefix(m, p, t, s, t.len() - 1); }
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { lemma_chain_prefix(m, p, s, t, i); }
    assert(s =~= t);
}
pub broadcast proof fn b_chain<T>(m: M<T>, p: Ptr, s: Seq<Ptr>)
    requires #[trigger] chain(m, p, s),
    ensures
        p == null() ==> s.len() == 0,
        p != null() ==> s.len() > 0 && s[0] == p && live(m, p),
        forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]) && live(m, s[i]),
        s.no_duplicates(),
{ reveal(chain); }
pub broadcast proof fn b_chain_step<T>(m: M<T>, p: Ptr, s: Seq<Ptr>)
    requires chain(m, p, s), p != null(),
    ensures
        #![trigger chain(m, p, s), m[p].links]
        1 <= m[p].links.len() <= 33,
        chain(m, m[p].links[0].next, s.drop_first()),
        !s.drop_first().contains(p),
        forall|q: Ptr| #![trigger s.contains(q)] #![trigger s.drop_first().contains(q)] s.contains(q) <==> q == p || s.drop_first().contains(q),
        s =~= seq![p] + s.drop_first(),
{
    reveal(chain);
    let t = s.drop_first();
    assert forall|i: int| 0 <= i < t.len() implies live(m, #[trigger] t[i]) && t[i] != null() && 1 <= m[t[i]].links.len() <= 33 && m[t[i]].links[0].next == tgt(t, i + 1) by { assert(t[i] == s[i + 1]); }
    assert(m[s[0]].links[0].next == tgt(s, 1));
    lemma_drop_first(s);
}
pub broadcast proof fn b_chain_frame<T>(m: M<T>, p: Ptr, s: Seq<Ptr>, x: Ptr, n: NodeV<T>)
    requires chain(m, p, s), !s.contains(x),
    ensures
        #![trigger chain(m, p, s), m.insert(x, n)]
        chain(m.insert(x, n), p, s),
{ reveal(chain); }
pub broadcast proof fn b_chain_rm<T>(m: M<T>, p: Ptr, s: Seq<Ptr>, x: Ptr)
    requires chain(m, p, s), !s.contains(x),
    ensures
        #![trigger chain(m, p, s), m.remove(x)]
        chain(m.remove(x), p, s),
{ reveal(chain); }
// the same nodes with other entries
#[verifier::opaque]
pub open spec fn same_links<T>(m: M<T>, m2: M<T>) -> bool {
    forall|p: Ptr| (m.dom().contains(p) <==> #[trigger] m2.dom().contains(p)) && (m.dom().contains(p) ==> m[p].links == m2[p].links)
}
pub proof fn lemma_drop_first(s: Seq<Ptr>)
    requires s.len() > 0, s.no_duplicates(),
    ensures !s.drop_first().contains(s[0]), forall|p: Ptr| s.contains(p) <==> p == s[0] || #[trigger] s.drop_first().contains(p),
{
    assert forall|p: Ptr| s.contains(p) implies p == s[0] || #[trigger] s.drop_first().contains(p) by {
        let i = ix(s, p);
        if i > 0 { assert(s.drop_first()[i - 1] == p); }
    }
    assert forall|p: Ptr| #[trigger] s.drop_first().contains(p) implies s.contains(p) by {
        let i = ix(s.drop_first(), p);
        assert(s[i + 1] == p);
    }
}
pub broadcast proof fn b_repr_chain<T>(m: M<T>, head: Ptr, s: Seq<Ptr>)
    requires #[trigger] repr(m, head, s),
    ensures
        chain(m, m[head].links[0].next, s.drop_first()), vals(m, s) == cvals(m, s.drop_first()),
        !s.drop_first().contains(head),
        only(m.remove(head), s.drop_first()),
        forall|p: Ptr| m.dom().contains(p) ==> p == head || #[trigger] s.drop_first().contains(p),
{
    reveal(repr); reveal(chain); reveal(only);
    let t = s.drop_first();
    lemma_drop_first(s);
    assert(vals(m, s) =~= cvals(m, t));
    assert(lvl(m, s, hts(m, s), 0));
    b_step(m, head, s, 0, 0);
    assert forall|i: int| 0 <= i < t.len() implies live(m, #[trigger] t[i]) && t[i] != null() && 1 <= m[t[i]].links.len() <= 33 && m[t[i]].links[0].next == tgt(t, i + 1) by {
        assert(t[i] == s[i + 1]); b_step(m, head, s, i + 1, 0);
    }
}
pub broadcast proof fn b_only_head<T>(m: M<T>, head: Ptr, n: NodeV<T>)
    requires
        head != null(), forall|p: Ptr| m.dom().contains(p) ==> p == head,
        n.links.len() == 33, forall|l: int| 0 <= l < 33 ==> #[trigger] n.links[l] == nolink(), n.value is None,
    ensures
        #![trigger m.insert(head, n)]
        repr(m.insert(head, n), head, seq![head]), vals(m.insert(head, n), seq![head]) == Seq::<T>::empty(),
{
    reveal(repr);
    let s = seq![head];
    let m2 = m.insert(head, n);
    assert(s.contains(head)) by { assert(s[0] == head); }
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { b_nxt(hts(m2, s), 0, l); }
    assert(vals(m2, s) =~= Seq::<T>::empty());
}
// nothing else is in the heap
#[verifier::opaque]
pub open spec fn only<T>(m: M<T>, s: Seq<Ptr>) -> bool { forall|p: Ptr| m.dom().contains(p) ==> #[trigger] s.contains(p) }
pub broadcast proof fn b_only_rm<T>(m: M<T>, p: Ptr, s: Seq<Ptr>, n: NodeV<T>)
    requires chain(m, p, s), p != null(), only(m, s),
    ensures
        #![trigger chain(m, p, s), m.insert(p, n).remove(p)]
        only(m.insert(p, n).remove(p), s.drop_first()),
{ reveal(only); b_chain_step(m, p, s);
    assert forall|q: Ptr| m.insert(p, n).remove(p).dom().contains(q) implies #[trigger] s.drop_first().contains(q) by { assert(m.dom().contains(q)); assert(s.contains(q)); }
}
// from m to m2 only the entries of s change, and they stay in place
#[verifier::opaque]
pub open spec fn keeps0<T>(m: M<T>, m2: M<T>, s: Seq<Ptr>) -> bool {
    &&& same_links(m, m2)
    &&& forall|p: Ptr| #[trigger] s.contains(p) ==> live(m2, p)
    &&& forall|p: Ptr| m.dom().contains(p) && !(#[trigger] s.contains(p)) ==> m2[p] == m[p]
}
pub broadcast proof fn b_keeps_step<T>(m: M<T>, m2: M<T>, p: Ptr, s: Seq<Ptr>, e: T)
    requires chain(m, p, s), p != null(), keeps0(clr_ent(m, p), m2, s.drop_first()),
    ensures
        #![trigger chain(m, p, s), set_ent(m2, p, e)]
        keeps0(m, set_ent(m2, p, e), s),
{
    reveal(keeps0);
    b_chain_step(m, p, s);
    b_chain(m, p, s);
    b_same_set(m, m2, p, e);
    let b = set_ent(m2, p, e);
    assert forall|q: Ptr| #[trigger] s.contains(q) implies live(b, q) by { if q != p { assert(s.drop_first().contains(q)); } }
    assert forall|q: Ptr| m.dom().contains(q) && !(#[trigger] s.contains(q)) implies b[q] == m[q] by { assert(!s.drop_first().contains(q)); assert(clr_ent(m, p).dom().contains(q)); assert(q != p); }
}
pub broadcast proof fn b_keeps_repr<T>(m: M<T>, head: Ptr, s: Seq<Ptr>, m2: M<T>)
    requires #[trigger] repr(m, head, s), #[trigger] keeps0(m, m2, s.drop_first()),
    ensures repr(m2, head, s), vals(m2, s) == cvals(m2, s.drop_first()), cvals(m2, s.drop_first()).len() == vals(m, s).len(),
{
    reveal(keeps0);
    b_repr_chain(m, head, s);
    b_repr(m, head, s);
    assert(m.dom().contains(head)) by { assert(s[0] == head); }
    assert(!s.drop_first().contains(head));
    b_same_repr(m, head, s, m2);
}
pub broadcast proof fn b_same_set<T>(m: M<T>, m2: M<T>, p: Ptr, e: T)
    requires same_links(clr_ent(m, p), m2), m.dom().contains(p),
    ensures
        #![trigger same_links(clr_ent(m, p), m2), set_ent(m2, p, e)]
        same_links(m, set_ent(m2, p, e)),
{
    reveal(same_links);
    let a = clr_ent(m, p);
    let b = set_ent(m2, p, e);
    assert(a.dom().contains(p));
    assert forall|q: Ptr| (m.dom().contains(q) <==> #[trigger] b.dom().contains(q)) && (m.dom().contains(q) ==> m[q].links == b[q].links) by {
        assert(a.dom().contains(q) <==> m2.dom().contains(q));
        if a.dom().contains(q) { assert(a[q].links == m2[q].links); }
    }
}
pub broadcast proof fn b_same_repr<T>(m: M<T>, head: Ptr, s: Seq<Ptr>, m2: M<T>)
    requires
        #[trigger] repr(m, head, s), #[trigger] same_links(m, m2), m2[head] == m[head],
        forall|p: Ptr| s.drop_first().contains(p) ==> live(m2, p),
    ensures repr(m2, head, s), vals(m2, s) == cvals(m2, s.drop_first()),
{
    reveal(same_links); reveal(repr);
    let t = s.drop_first();
    assert forall|i: int| 0 <= i < s.len() implies m2.dom().contains(#[trigger] s[i]) && m2[s[i]].links == m[s[i]].links by {
        assert(m.dom().contains(s[i]));
        if i > 0 { assert(t[i - 1] == s[i]); assert(t.contains(s[i])); }
    }
    assert forall|i: int| 1 <= i < s.len() implies live(m2, #[trigger] s[i]) by { assert(t[i - 1] == s[i]); assert(t.contains(s[i])); }
    assert(hts(m2, s) =~= hts(m, s));
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { assert(lvl(m, s, hts(m, s), l)); }
    assert forall|p: Ptr| m2.dom().contains(p) implies #[trigger] s.contains(p) by { assert(m.dom().contains(p)); }
    assert(vals(m2, s) =~= cvals(m2, t));
}
// ---- releasing a list: what is left are the nodes from p on, and h
#[verifier::opaque]
pub open spec fn rest<T>(m: M<T>, h: Ptr, p: Ptr) -> bool {
    &&& ok_chain(m, p) && !cs(m, p).contains(h) && !m.dom().contains(null())
    &&& forall|y: Ptr| m.dom().contains(y) ==> y == h || #[trigger] cs(m, p).contains(y)
}
pub proof fn lemma_rest<T>(m: M<T>, h: Ptr, p: Ptr)
    requires rest(m, h, p),
    ensures
        p == null() ==> forall|y: Ptr| m.dom().contains(y) ==> y == h,
        p != null() ==> {
            &&& live(m, p) && 1 <= m[p].links.len() <= 33 && p != h
            &&& rest(m.remove(p), h, m[p].links[0].next)
            &&& cs(m.remove(p), m[p].links[0].next).len() < cs(m, p).len()
        },
{
    reveal(rest);
    let s = cs(m, p);
    b_chain(m, p, s);
    if p == null() {
        assert forall|y: Ptr| m.dom().contains(y) implies y == h by { assert(!s.contains(y)); }
    } else {
        assert(s.contains(p));
        b_chain_step(m, p, s);
        b_chain_rm(m, m[p].links[0].next, s.drop_first(), p);
        let m2 = m.remove(p);
        b_cs(m2, m[p].links[0].next, s.drop_first());
        assert forall|y: Ptr| m2.dom().contains(y) implies y == h || #[trigger] s.drop_first().contains(y) by { assert(m.dom().contains(y)); assert(y == h || s.contains(y)); }
        assert(!s.drop_first().contains(h)) by { if s.drop_first().contains(h) { assert(s.contains(h)); } }
    }
}
pub proof fn lemma_rest_null<T>(m: M<T>, p: Ptr)
    requires rest(m, null(), p), p == null(),
    ensures forall|y: Ptr| !m.dom().contains(y),
{ lemma_rest(m, null(), p); reveal(rest); }
pub proof fn lemma_rest_start<T>(m: M<T>, h: Ptr, s: Seq<Ptr>)
    requires repr(m, h, s),
    ensures rest(m, h, m[h].links[0].next), rest(m.remove(h), null(), m[h].links[0].next), m.dom().contains(h), h != null(), m[h].value is None, m[h].links.len() == 33,
{
    reveal(rest);
    b_repr(m, h, s);
    b_repr_chain(m, h, s);
    lemma_no_null(m, h, s);
    let t = s.drop_first();
    b_cs(m, m[h].links[0].next, t);
    b_chain_rm(m, m[h].links[0].next, t, h);
    b_cs(m.remove(h), m[h].links[0].next, t);
    b_chain(m, m[h].links[0].next, t);
    if t.contains(null()) { let i = ix(t, null()); assert(m.dom().contains(t[i])); }
    assert forall|y: Ptr| m.remove(h).dom().contains(y) implies y == null() || #[trigger] t.contains(y) by { assert(m.dom().contains(y)); }
}
pub proof fn lemma_rest_iter<T>(m: M<T>, p: Ptr)
    requires ok_chain(m, p), only(m, cs(m, p)),
    ensures rest(m, null(), p),
{
    reveal(rest); reveal(only);
    let t = cs(m, p);
    b_chain(m, p, t);
    if m.dom().contains(null()) { assert(t.contains(null())); }
    if t.contains(null()) { let i = ix(t, null()); lemma_chain_null(m, p, t, i); }
}
pub proof fn lemma_no_null<T>(m: M<T>, hd: Ptr, s: Seq<Ptr>)
    requires repr(m, hd, s),
    ensures !m.dom().contains(null()), m.dom().contains(hd), hd != null(),
{
    reveal(repr);
    if m.dom().contains(null()) { let i = ix(s, null()); assert(s.contains(null())); assert(s[i] != null()); }
    assert(s[0] == hd);
}
proof fn lemma_chain_null<T>(m: M<T>, p: Ptr, t: Seq<Ptr>, i: int)
    requires chain(m, p, t), 0 <= i < t.len(),
    ensures t[i] != null(),
{ reveal(chain); }
pub broadcast group group_sk { b_ix, b_ix2, b_repr, b_step, b_ss, b_set_ent, b_cs, b_chain, b_nxt }
pub broadcast group group_chain { b_chain_step, b_chain_frame, b_chain_rm, b_repr_chain, b_only_head }
// what dropping a list may assume: a head and the nodes behind it, nothing else
pub open spec fn droppable<T>(m: M<T>, h: Ptr) -> bool {
    m.dom().contains(h) && h != null() && m[h].value is None && m[h].links.len() >= 1 && rest(m.remove(h), null(), m[h].links[0].next)
}
pub proof fn lemma_bare<T>(m: M<T>, h: Ptr, n: NodeV<T>)
    requires m == Map::<Ptr, NodeV<T>>::empty().insert(h, n), h != null(), n.value is None, n.links.len() >= 1, n.links[0].next == null(),
    ensures droppable(m, h),
{
    reveal(rest); reveal(chain);
    let e = m.remove(h);
    assert(chain(e, null(), Seq::empty()));
    b_cs(e, null(), Seq::empty());
}
}
// ---- changing a list: s the nodes before the change, q the node after which it happens
pub mod ske {
use vstd::prelude::*;
use crate::rp::*;
use crate::sk::*;
// the last node up to q that is higher than l
pub open spec fn prv(hs: Seq<int>, q: int, l: int) -> int
    decreases q
{
    if q <= 0 { 0 } else if hs[q] > l { q } else { prv(hs, q - 1, l) }
}
pub proof fn lemma_prv(hs: Seq<int>, q: int, l: int)
    requires 0 <= q < hs.len(), hs[0] > l,
    ensures 0 <= prv(hs, q, l) <= q, hs[prv(hs, q, l)] > l, forall|k: int| prv(hs, q, l) < k <= q ==> #[trigger] hs[k] <= l,
    decreases q,
{
    if q > 0 && hs[q] <= l {
        lemma_prv(hs, q - 1, l);
        assert forall|k: int| prv(hs, q, l) < k <= q implies #[trigger] hs[k] <= l by { if k < q {} }
    }
}
pub proof fn lemma_prv_is(hs: Seq<int>, q: int, l: int, c: int)
    requires 0 <= c <= q < hs.len(), hs[0] > l, hs[c] > l, nxt(hs, c, l) > q,
    ensures prv(hs, q, l) == c,
{
    lemma_prv(hs, q, l);
    b_nxt(hs, c, l);
    let d = prv(hs, q, l);
    if d < c { assert(hs[c] <= l); }
    if d > c { assert(hs[d] <= l); }
}
// nodes of higher levels come first; past the top there is only the head
pub proof fn lemma_prv_mono(hs: Seq<int>, q: int, l: int)
    requires 0 <= q < hs.len(), hs[0] > l, forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] <= 33,
    ensures 0 <= prv(hs, q, l + 1) <= prv(hs, q, l), l == 32 ==> prv(hs, q, l + 1) == 0, hs[prv(hs, q, l + 1)] > l,
    decreases q,
{
    if q > 0 { lemma_prv_mono(hs, q - 1, l); assert(hs[q] <= 33); lemma_prv(hs, q - 1, l); lemma_prv(hs, q, l); }
}
// the link at level l that is affected
pub open spec fn d0<T>(m0: M<T>, s: Seq<Ptr>, q: int, l: int) -> Link { m0[s[prv(hts(m0, s), q, l)]].links[l] }
// m is m0 but for node x, and for the affected links, which are in sl; the links of x are in xl
#[verifier::opaque]
pub open spec fn st<T>(m0: M<T>, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>) -> bool {
    let hs = hts(m0, s);
    &&& sl.len() == 33 && xl.len() == 33 && 0 <= n <= 33
    &&& forall|p: Ptr| #[trigger] m.dom().contains(p) <==> m0.dom().contains(p) || p == x
    &&& m[x].value == v && m[x].links.len() == n && forall|l: int| 0 <= l < n ==> #[trigger] m[x].links[l] == xl[l]
    &&& forall|p: Ptr| m0.dom().contains(p) && p != x ==> (#[trigger] m[p]).value == m0[p].value && m[p].links.len() == m0[p].links.len()
    &&& forall|p: Ptr, l: int| m0.dom().contains(p) && p != x && 0 <= l < m0[p].links.len() ==> #[trigger] m[p].links[l] == (if p == s[prv(hs, q, l)] { sl[l] } else { m0[p].links[l] })
}
// the change happens in list s of m0 after node q and concerns node x
pub open spec fn ctx<T>(m0: M<T>, hd: Ptr, s: Seq<Ptr>, q: int, x: Ptr) -> bool {
    &&& repr(m0, hd, s) && 0 <= q < s.len() && x != null()
    &&& forall|i: int| 0 <= i <= q ==> #[trigger] s[i] != x
}
proof fn lemma_hs<T>(m0: M<T>, hd: Ptr, s: Seq<Ptr>)
    requires repr(m0, hd, s),
    ensures hts(m0, s).len() == s.len(), hts(m0, s)[0] == 33, forall|i: int| 0 <= i < s.len() ==> 1 <= #[trigger] hts(m0, s)[i] <= 33,
{
    b_repr(m0, hd, s);
    assert forall|i: int| 0 <= i < s.len() implies 1 <= #[trigger] hts(m0, s)[i] <= 33 by { assert(m0.dom().contains(s[i])); }
}
pub proof fn lemma_c<T>(m0: M<T>, hd: Ptr, s: Seq<Ptr>, q: int, x: Ptr, l: int)
    requires ctx(m0, hd, s, q, x), 0 <= l < 33,
    ensures
        ({ let c = prv(hts(m0, s), q, l);
           0 <= c <= q && hts(m0, s)[c] > l && s[c] != x && m0.dom().contains(s[c]) && l < m0[s[c]].links.len() && 0 <= prv(hts(m0, s), q, l + 1) <= c
           && (l == 0 ==> c == q) && (l == 32 ==> prv(hts(m0, s), q, l + 1) == 0) && hts(m0, s)[prv(hts(m0, s), q, l + 1)] > l
           && nxt(hts(m0, s), c, l) > q && is_nxt(hts(m0, s), c, l, nxt(hts(m0, s), c, l))
           && d0(m0, s, q, l).next == tgt(s, nxt(hts(m0, s), c, l)) && d0(m0, s, q, l).distance == lst(nxt(hts(m0, s), c, l), s.len() - 1) - c }),
{
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    let hs = hts(m0, s);
    lemma_prv(hs, q, l);
    lemma_prv_mono(hs, q, l);
    let c = prv(hs, q, l);
    assert(m0.dom().contains(s[c]));
    b_step(m0, hd, s, c, l);
    let j = nxt(hs, c, l);
    if j <= q { assert(hs[j] <= l); }
    if l == 0 && c < q { assert(hs[q] <= 0); }
}
// writing the affected link of level l
pub proof fn lemma_st_s<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, l: int, lv: Link)
    requires ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), 0 <= l < 33,
    ensures
        st(m0, set_link(m, s[prv(hts(m0, s), q, l)], l, lv), s, q, x, n, v, sl.update(l, lv), xl),
{
    reveal(st);
    lemma_c(m0, hd, s, q, x, l);
    let c = prv(hts(m0, s), q, l);
    let m2 = set_link(m, s[c], l, lv);
    let hs = hts(m0, s);
    assert(m.dom().contains(s[c]));
    assert forall|p: Ptr, j: int| m0.dom().contains(p) && p != x && 0 <= j < m0[p].links.len() implies #[trigger] m2[p].links[j] == (if p == s[prv(hs, q, j)] { sl.update(l, lv)[j] } else { m0[p].links[j] }) by {
        assert(m[p].links[j] == (if p == s[prv(hs, q, j)] { sl[j] } else { m0[p].links[j] }));
        assert(m[s[c]].links.len() == m0[s[c]].links.len());
    }
    assert forall|p: Ptr| #[trigger] m2.dom().contains(p) <==> m0.dom().contains(p) || p == x by { assert(m.dom().contains(p) <==> m0.dom().contains(p) || p == x); }
    assert forall|p: Ptr| m0.dom().contains(p) && p != x implies (#[trigger] m2[p]).value == m0[p].value && m2[p].links.len() == m0[p].links.len() by { assert(m[p].value == m0[p].value); }
    assert(m2[x] == m[x]);
}
pub proof fn lemma_st_x<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, l: int, lv: Link)
    requires ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), 0 <= l < n,
    ensures
        st(m0, set_link(m, x, l, lv), s, q, x, n, v, sl, xl.update(l, lv)),
{
    reveal(st);
    let m2 = set_link(m, x, l, lv);
    assert(m.dom().contains(x));
    assert forall|p: Ptr| m0.dom().contains(p) && p != x implies (#[trigger] m2[p]).value == m0[p].value && m2[p].links.len() == m0[p].links.len() by { assert(m[p].value == m0[p].value); }
    assert forall|p: Ptr, j: int| m0.dom().contains(p) && p != x && 0 <= j < m0[p].links.len() implies #[trigger] m2[p].links[j] == (if p == s[prv(hts(m0, s), q, j)] { sl[j] } else { m0[p].links[j] }) by {
        assert(m2[p].links[j] == m[p].links[j]);
    }
}
// what the state says about the link of node c at level h
pub open spec fn seen<T>(m0: M<T>, m: M<T>, s: Seq<Ptr>, q: int, c: int, h: int) -> bool {
    let hs = hts(m0, s);
    let j = nxt(hs, c, h);
    let k = m[s[c]].links[h];
    &&& m.dom().contains(s[c]) && s[c] != null() && h < m[s[c]].links.len()
    &&& is_nxt(hs, c, h, j)
    &&& k == m0[s[c]].links[h] && k.next == tgt(s, j) && k.distance == lst(j, s.len() - 1) - c
    &&& j > q ==> prv(hs, q, h) == c && k == d0(m0, s, q, h)
    &&& h == 0 ==> j == c + 1
    &&& j < s.len() ==> s[j] != null() && m.dom().contains(s[j]) && h < m[s[j]].links.len() && hs[j] > h
}
pub proof fn lemma_seen<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, c: int, h: int)
    requires
        ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), 0 <= h < 33, 0 <= c <= q, hts(m0, s)[c] > h, sl[h] == d0(m0, s, q, h),
        m0.dom().contains(x) ==> n == m0[x].links.len(),
    ensures seen(m0, m, s, q, c, h),
{
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    let hs = hts(m0, s);
    let j = nxt(hs, c, h);
    assert(m0.dom().contains(s[c]));
    b_step(m0, hd, s, c, h);
    if j > q { lemma_prv_is(hs, q, h, c); }
    lemma_prv(hs, q, h);
    reveal(st);
    assert(m.dom().contains(s[c]) && m[s[c]].links.len() == m0[s[c]].links.len());
    assert(m[s[c]].links[h] == m0[s[c]].links[h]);
    if j < s.len() { assert(m0.dom().contains(s[j])); assert(m.dom().contains(s[j])); if s[j] != x { assert(m[s[j]].links.len() == m0[s[j]].links.len()); } }
}
// the slot is the next pointer of an earlier node (or a copy of the head) and leads to node c
pub open spec fn sl_ok(hs: Seq<int>, s: Seq<Ptr>, q: int, h: int, slot: Slot, c: int) -> bool {
    &&& 0 <= c <= q && hs[c] > h
    &&& match slot {
        Slot::Loc(p) => c == 0 && p == s[0],
        Slot::Link(o, l) => {
            let i = ix(s, o);
            0 <= i <= q && s[i] == o && h <= l < hs[i] && nxt(hs, i, l as int) == c
        },
    }
}
pub proof fn lemma_slot<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, h: int, slot: Slot, c: int)
    requires ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), 0 <= h < 33, sl_ok(hts(m0, s), s, q, h, slot, c),
    ensures slot.ok(m), slot.val(m) == s[c],
{
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    let hs = hts(m0, s);
    match slot {
        Slot::Loc(p) => {},
        Slot::Link(o, l) => {
            let i = ix(s, o);
            assert(m0.dom().contains(s[i]));
            b_step(m0, hd, s, i, l as int);
            lemma_prv(hs, q, l as int);
            let d = prv(hs, q, l as int);
            if s[d] == o { assert(d == i); assert(hs[c] <= l); }
            reveal(st);
            assert(m.dom().contains(o) && m[o].links.len() == m0[o].links.len());
            assert(m[o].links[l as int] == m0[o].links[l as int]);
        },
    }
}
// ---- nxt after inserting node q + 1 of height n
proof fn lemma_nxt_ins(hs: Seq<int>, q: int, n: int, l: int, i: int)
    requires 0 <= q < hs.len(), hs[0] > l, 0 <= i <= hs.len(), hs.insert(q + 1, n)[i] > l,
    ensures
        i == q + 1 ==> nxt(hs.insert(q + 1, n), i, l) == nxt(hs, prv(hs, q, l), l) + 1,
        i > q + 1 ==> nxt(hs.insert(q + 1, n), i, l) == nxt(hs, i - 1, l) + 1,
        i == prv(hs, q, l) ==> nxt(hs.insert(q + 1, n), i, l) == (if n > l { q + 1 } else { nxt(hs, i, l) + 1 }),
        i <= q && i != prv(hs, q, l) ==> nxt(hs.insert(q + 1, n), i, l) == nxt(hs, i, l) && nxt(hs, i, l) <= q,
{
    let hs2 = hs.insert(q + 1, n);
    let c = prv(hs, q, l);
    lemma_prv(hs, q, l);
    b_nxt(hs, c, l);
    assert(nxt(hs, c, l) > q) by { if nxt(hs, c, l) <= q { assert(hs[nxt(hs, c, l)] <= l); } }
    let o = if i == q + 1 { c } else if i > q + 1 { i - 1 } else { i };
    b_nxt(hs, o, l);
    let j = nxt(hs, o, l);
    if i != q + 1 { assert(hs2[i] == hs[o]); }
    if o < c { if j > c { assert(hs[c] <= l); } }
    if o > c && o <= q { assert(hs[o] <= l); }
    let j2 = if i == c && n > l { q + 1 } else if j > q { j + 1 } else { j };
    assert forall|y: int| i < y < j2 implies #[trigger] hs2[y] <= l by {
        let z = if y > q + 1 { y - 1 } else { y };
        if y != q + 1 { assert(hs2[y] == hs[z]); }
    }
    lemma_nxt(hs2, i, l, j2);
}
// ---- nxt after removing node q + 1
proof fn lemma_nxt_rem(hs: Seq<int>, q: int, l: int, i: int)
    requires 0 <= q < hs.len() - 1, hs[0] > l, 0 <= i < hs.len() - 1, hs.remove(q + 1)[i] > l,
    ensures
        i > q ==> nxt(hs.remove(q + 1), i, l) == nxt(hs, i + 1, l) - 1,
        i == prv(hs, q, l) ==> nxt(hs.remove(q + 1), i, l) == (if hs[q + 1] > l { nxt(hs, q + 1, l) } else { nxt(hs, i, l) }) - 1,
        i == prv(hs, q, l) && hs[q + 1] > l ==> nxt(hs, i, l) == q + 1,
        i == prv(hs, q, l) && hs[q + 1] <= l ==> nxt(hs, i, l) > q + 1,
        i <= q && i != prv(hs, q, l) ==> nxt(hs.remove(q + 1), i, l) == nxt(hs, i, l) && nxt(hs, i, l) <= q,
{
    let hs2 = hs.remove(q + 1);
    let c = prv(hs, q, l);
    lemma_prv(hs, q, l);
    b_nxt(hs, c, l);
    b_nxt(hs, q + 1, l);
    assert(nxt(hs, c, l) > q) by { if nxt(hs, c, l) <= q { assert(hs[nxt(hs, c, l)] <= l); } }
    if hs[q + 1] > l { lemma_nxt(hs, c, l, q + 1); }
    let o = if i > q { i + 1 } else { i };
    b_nxt(hs, o, l);
    assert(hs2[i] == hs[o]);
    let j = if o == c && hs[q + 1] > l { nxt(hs, q + 1, l) } else { nxt(hs, o, l) };
    if o < c { if j > c { assert(hs[c] <= l); } }
    if o > c && o <= q { assert(hs[o] <= l); }
    let j2 = if j > q { j - 1 } else { j };
    assert forall|y: int| i < y < j2 implies #[trigger] hs2[y] <= l by {
        let z = if y > q { y + 1 } else { y };
        assert(hs2[y] == hs[z]);
    }
    lemma_nxt(hs2, i, l, j2);
}
// the affected links after an insertion
pub open spec fn fin_ins<T>(m0: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, sl: Seq<Link>, xl: Seq<Link>, l: int) -> bool {
    let d = d0(m0, s, q, l);
    let c = prv(hts(m0, s), q, l);
    if l < n {
        sl[l] == (Link { next: x, distance: (q + 1 - c) as usize }) && xl[l] == (Link { next: d.next, distance: (d.distance - (q - c)) as usize })
    } else {
        sl[l] == (Link { next: d.next, distance: (d.distance + 1) as usize })
    }
}
pub open spec fn fin_rem<T>(m0: M<T>, s: Seq<Ptr>, q: int, x: Ptr, sl: Seq<Link>, l: int) -> bool {
    let d = d0(m0, s, q, l);
    if hts(m0, s)[q + 1] > l {
        sl[l] == (Link { next: m0[x].links[l].next, distance: (m0[x].links[l].distance + d.distance - 1) as usize })
    } else {
        sl[l] == (Link { next: d.next, distance: (d.distance - 1) as usize })
    }
}
proof fn lemma_ins_lvl<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, l: int)
    requires
        ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), !m0.dom().contains(x), s.len() <= usize::MAX,
        0 <= l < 33, fin_ins(m0, s, q, x, n, sl, xl, l),
    ensures lvl(m, s.insert(q + 1, x), hts(m0, s).insert(q + 1, n), l),
{
    let hs = hts(m0, s);
    let s2 = s.insert(q + 1, x);
    let hs2 = hs.insert(q + 1, n);
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    lemma_c(m0, hd, s, q, x, l);
    let c = prv(hs, q, l);
    assert forall|i: int| 0 <= i < s2.len() && hs2[i] > l implies (#[trigger] m[s2[i]]).links[l] == lk(s2, nxt(hs2, i, l), i) by {
        lemma_nxt_ins(hs, q, n, l, i);
        reveal(st);
        if i == q + 1 {
            assert(m[x].links[l] == xl[l]);
            let j = nxt(hs, c, l);
            assert(tgt(s2, j + 1) == tgt(s, j));
        } else {
            let o = if i > q + 1 { i - 1 } else { i };
            assert(s2[i] == s[o] && hs2[i] == hs[o]);
            assert(m0.dom().contains(s[o]));
            b_step(m0, hd, s, o, l);
            let j = nxt(hs, o, l);
            if j <= q { assert(tgt(s2, j) == tgt(s, j)); } else { assert(tgt(s2, j + 1) == tgt(s, j)); }
            assert(tgt(s2, q + 1) == x);
            assert(m[s[o]].links[l] == (if s[o] == s[c] { sl[l] } else { m0[s[o]].links[l] }));
        }
    }
}
pub proof fn lemma_ins_end<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: T, sl: Seq<Link>, xl: Seq<Link>)
    requires
        ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, Some(v), sl, xl), !m0.dom().contains(x), s.len() <= usize::MAX, n >= 1,
        forall|l: int| 0 <= l < 33 ==> #[trigger] fin_ins(m0, s, q, x, n, sl, xl, l),
    ensures repr(m, hd, s.insert(q + 1, x)), vals(m, s.insert(q + 1, x)) == vals(m0, s).insert(q, v),
{
    let hs = hts(m0, s);
    let s2 = s.insert(q + 1, x);
    let hs2 = hs.insert(q + 1, n);
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m, s2, hs2, l) by { assert(fin_ins(m0, s, q, x, n, sl, xl, l)); lemma_ins_lvl(m0, hd, m, s, q, x, n, Some(v), sl, xl, l); }
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    reveal(st);
    assert(!s.contains(x)) by { if s.contains(x) { let i = ix(s, x); assert(m0.dom().contains(s[i])); } }
    assert forall|i: int| 0 <= i < s2.len() implies m.dom().contains(#[trigger] s2[i]) && s2[i] != null() && m[s2[i]].links.len() == hs2[i] && 1 <= hs2[i] <= 33 && (i > 0 ==> m[s2[i]].value is Some)
        && (i == q + 1 ==> s2[i] == x) && (i != q + 1 ==> m[s2[i]].value == m0[s2[i]].value) by {
        if i == q + 1 { assert(m.dom().contains(x)); } else {
            let o = if i > q + 1 { i - 1 } else { i };
            assert(s2[i] == s[o] && hs2[i] == hs[o]);
            assert(m0.dom().contains(s[o]));
            assert(m.dom().contains(s[o]));
            assert(m[s[o]].value == m0[s[o]].value);
            if o > 0 { assert(live(m0, s[o])); }
        }
    }
    assert(s2[0] == hd);
    assert(hts(m, s2) =~= hs2);
    lemma_ins_nodup(s, q, x);
    assert(base(m, hd, s2));
    assert forall|p: Ptr| m.dom().contains(p) implies #[trigger] s2.contains(p) by { if p != x { assert(s.contains(p)) by { reveal(repr); } } }
    assert(repr(m, hd, s2)) by { reveal(repr); }
    let a = vals(m, s2);
    let b = vals(m0, s).insert(q, v);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(m.dom().contains(s2[i + 1]));
        if i == q {} else {
            let o = if i > q { i } else { i + 1 };
            assert(s2[i + 1] == s[o]);
            assert(m0.dom().contains(s[o]));
            assert(b[i] == vals(m0, s)[o - 1]);
        }
    }
    assert(a =~= b);
}
proof fn lemma_ins_nodup(s: Seq<Ptr>, q: int, x: Ptr)
    requires s.no_duplicates(), 0 <= q < s.len(), !s.contains(x),
    ensures s.insert(q + 1, x).no_duplicates(), forall|p: Ptr| p == x || s.contains(p) ==> #[trigger] s.insert(q + 1, x).contains(p),
{
    let s2 = s.insert(q + 1, x);
    assert forall|p: Ptr| p == x || s.contains(p) implies #[trigger] s2.contains(p) by {
        if p == x { assert(s2[q + 1] == p); } else { let i = ix(s, p); assert(s2[if i > q { i + 1 } else { i }] == p); }
    }
}
proof fn lemma_rem_nodup(s: Seq<Ptr>, k: int)
    requires s.no_duplicates(), 0 <= k < s.len(),
    ensures s.remove(k).no_duplicates(), forall|p: Ptr| p != s[k] && s.contains(p) ==> #[trigger] s.remove(k).contains(p), !s.remove(k).contains(s[k]),
{
    let s2 = s.remove(k);
    assert forall|p: Ptr| p != s[k] && s.contains(p) implies #[trigger] s2.contains(p) by {
        let i = ix(s, p); assert(s2[if i > k { i - 1 } else { i }] == p);
    }
    if s2.contains(s[k]) { let i = ix(s2, s[k]); assert(s2[i] == s[if i >= k { i + 1 } else { i }]); }
}
proof fn lemma_rem_lvl<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, l: int)
    requires
        ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), q + 1 < s.len(), x == s[q + 1],
        0 <= l < 33, fin_rem(m0, s, q, x, sl, l),
    ensures lvl(m.remove(x), s.remove(q + 1), hts(m0, s).remove(q + 1), l),
{
    let hs = hts(m0, s);
    let s2 = s.remove(q + 1);
    let hs2 = hs.remove(q + 1);
    let mr = m.remove(x);
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    lemma_c(m0, hd, s, q, x, l);
    lemma_rem_nodup(s, q + 1);
    let c = prv(hs, q, l);
    assert forall|i: int| 0 <= i < s2.len() && hs2[i] > l implies (#[trigger] mr[s2[i]]).links[l] == lk(s2, nxt(hs2, i, l), i) by {
        lemma_nxt_rem(hs, q, l, i);
        reveal(st);
        let o = if i > q { i + 1 } else { i };
        assert(s2[i] == s[o] && hs2[i] == hs[o]);
        assert(m0.dom().contains(s[o]));
        b_step(m0, hd, s, o, l);
        let j = nxt(hs, o, l);
        if o == c && hs[q + 1] > l {
            assert(m0.dom().contains(s[q + 1]));
            b_step(m0, hd, s, q + 1, l);
            let jk = nxt(hs, q + 1, l);
            assert(tgt(s2, jk - 1) == tgt(s, jk));
        }
        if j <= q { assert(tgt(s2, j) == tgt(s, j)); } else if j > q + 1 { assert(tgt(s2, j - 1) == tgt(s, j)); }
        assert(s2.contains(s2[i]));
        assert(m[s[o]].links[l] == (if s[o] == s[c] { sl[l] } else { m0[s[o]].links[l] }));
        assert(mr[s[o]] == m[s[o]]);
    }
}
pub proof fn lemma_rem_end<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>)
    requires
        ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), q + 1 < s.len(), x == s[q + 1],
        forall|l: int| 0 <= l < 33 ==> #[trigger] fin_rem(m0, s, q, x, sl, l),
    ensures repr(m.remove(x), hd, s.remove(q + 1)), vals(m.remove(x), s.remove(q + 1)) == vals(m0, s).remove(q),
{
    let hs = hts(m0, s);
    let s2 = s.remove(q + 1);
    let hs2 = hs.remove(q + 1);
    let mr = m.remove(x);
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(mr, s2, hs2, l) by { assert(fin_rem(m0, s, q, x, sl, l)); lemma_rem_lvl(m0, hd, m, s, q, x, n, v, sl, xl, l); }
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    lemma_rem_nodup(s, q + 1);
    reveal(st);
    assert forall|i: int| 0 <= i < s2.len() implies mr.dom().contains(#[trigger] s2[i]) && s2[i] != null() && mr[s2[i]].links.len() == hs2[i] && 1 <= hs2[i] <= 33 && (i > 0 ==> mr[s2[i]].value is Some)
        && mr[s2[i]].value == m0[s2[i]].value by {
        let o = if i > q { i + 1 } else { i };
        assert(s2[i] == s[o] && hs2[i] == hs[o]);
        assert(s2.contains(s2[i]));
        assert(m0.dom().contains(s[o]));
        assert(m.dom().contains(s[o]));
        assert(m[s[o]].value == m0[s[o]].value);
        if o > 0 { assert(live(m0, s[o])); }
    }
    assert(s2[0] == hd);
    assert(hts(mr, s2) =~= hs2);
    assert(base(mr, hd, s2));
    assert forall|p: Ptr| mr.dom().contains(p) implies #[trigger] s2.contains(p) by { assert(m.dom().contains(p)); assert(s.contains(p)) by { reveal(repr); } }
    assert(repr(mr, hd, s2)) by { reveal(repr); }
    let a = vals(mr, s2);
    let b = vals(m0, s).remove(q);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(mr.dom().contains(s2[i + 1]));
        let o = if i >= q { i + 2 } else { i + 1 };
        assert(s2[i + 1] == s[o]);
        assert(b[i] == vals(m0, s)[o - 1]);
    }
    assert(a =~= b);
}
pub proof fn lemma_ins_start<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: T, sl: Seq<Link>, xl: Seq<Link>)
    requires
        repr(m0, hd, s), 0 <= q < s.len(), !m0.dom().contains(x), x != null(), 0 <= n <= 33,
        m == m0.insert(x, NodeV { value: Some(v), links: Seq::new(n as nat, |i: int| nolink()) }),
        sl == Seq::new(33, |l: int| d0(m0, s, q, l)), xl == Seq::new(33, |l: int| nolink()),
    ensures ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, Some(v), sl, xl), hts(m0, s)[0] == 33, s[0] == hd,
{
    reveal(st);
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    assert forall|p: Ptr, l: int| m0.dom().contains(p) && p != x && 0 <= l < m0[p].links.len() implies #[trigger] m[p].links[l] == (if p == s[prv(hts(m0, s), q, l)] { sl[l] } else { m0[p].links[l] }) by {
        assert(s.contains(p)) by { reveal(repr); }
        b_ix2(s, p);
        assert(m0.dom().contains(s[ix(s, p)]));
        assert(sl[l] == d0(m0, s, q, l));
    }
}
pub proof fn lemma_rem_start<T>(m0: M<T>, hd: Ptr, s: Seq<Ptr>, q: int, sl: Seq<Link>, xl: Seq<Link>)
    requires
        repr(m0, hd, s), 0 <= q, q + 1 < s.len(),
        sl == Seq::new(33, |l: int| d0(m0, s, q, l)), xl == Seq::new(33, |l: int| m0[s[q + 1]].links[l]),
    ensures
        ctx(m0, hd, s, q, s[q + 1]), st(m0, m0, s, q, s[q + 1], hts(m0, s)[q + 1], Some(vals(m0, s)[q]), sl, xl), hts(m0, s)[0] == 33, s[0] == hd,
        m0.dom().contains(s[q + 1]), m0[s[q + 1]].links.len() == hts(m0, s)[q + 1], hts(m0, s)[q + 1] >= 1, m0[s[q + 1]].value == Some(vals(m0, s)[q]),
{
    reveal(st);
    b_repr(m0, hd, s);
    lemma_hs(m0, hd, s);
    assert(m0.dom().contains(s[q + 1]));
    assert(live(m0, s[q + 1]));
    assert forall|p: Ptr, l: int| m0.dom().contains(p) && p != s[q + 1] && 0 <= l < m0[p].links.len() implies #[trigger] m0[p].links[l] == (if p == s[prv(hts(m0, s), q, l)] { sl[l] } else { m0[p].links[l] }) by {
        assert(s.contains(p)) by { reveal(repr); }
        b_ix2(s, p);
        assert(m0.dom().contains(s[ix(s, p)]));
        assert(sl[l] == d0(m0, s, q, l));
    }
}
// the affected link of level l and, below its height, node x's
pub proof fn lemma_st_at<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, l: int)
    requires ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), 0 <= l < 33,
    ensures
        ({ let p = s[prv(hts(m0, s), q, l)]; m.dom().contains(p) && l < m[p].links.len() && m[p].links[l] == sl[l] && p != x }),
        m.dom().contains(x), m[x].links.len() == n, l < n ==> m[x].links[l] == xl[l],
{
    reveal(st);
    lemma_c(m0, hd, s, q, x, l);
    let p = s[prv(hts(m0, s), q, l)];
    assert(m.dom().contains(p));
    assert(m.dom().contains(x));
    assert(m[p].links.len() == m0[p].links.len());
}
pub proof fn lemma_st_v<T>(m0: M<T>, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>)
    requires st(m0, m, s, q, x, n, v, sl, xl),
    ensures m.dom().contains(x), m[x].value == v,
{ reveal(st); assert(m.dom().contains(x)); }
// insertion, first pass: the levels above h are linked
pub open spec fn ins1<T>(m0: M<T>, s: Seq<Ptr>, q: int, n: int, x: Ptr, sl: Seq<Link>, xl: Seq<Link>, ln: Seq<(Ptr, usize)>, h: int) -> bool {
    let hs = hts(m0, s);
    &&& sl.len() == 33 && xl.len() == 33 && ln.len() == 33
    &&& forall|l: int| 0 <= l < 33 ==> #[trigger] sl[l] == (if l > h && l < n { Link { next: x, distance: 1 } } else { d0(m0, s, q, l) })
    &&& forall|l: int| h < l < n ==> #[trigger] xl[l] == d0(m0, s, q, l)
    &&& forall|l: int| h < l < 33 ==> (#[trigger] ln[l]).0 == s[prv(hs, q, l)] && ln[l].1 == prv(hs, q, l) - prv(hs, q, l + 1)
}
// insertion, second pass: the levels below i have their distances
pub open spec fn ins2<T>(m0: M<T>, s: Seq<Ptr>, q: int, n: int, x: Ptr, sl: Seq<Link>, xl: Seq<Link>, ln: Seq<(Ptr, usize)>, i: int) -> bool {
    let hs = hts(m0, s);
    &&& sl.len() == 33 && xl.len() == 33 && ln.len() == 33 && i >= 1
    &&& forall|l: int| i <= l < 33 ==> #[trigger] sl[l] == (if l < n { Link { next: x, distance: 1 } } else { d0(m0, s, q, l) })
    &&& forall|l: int| i <= l < n ==> #[trigger] xl[l] == d0(m0, s, q, l)
    &&& forall|l: int| i <= l < 33 ==> (#[trigger] ln[l]).0 == s[prv(hs, q, l)] && ln[l].1 == prv(hs, q, l) - prv(hs, q, l + 1)
    &&& ln[i - 1].1 == q - prv(hs, q, i)
    &&& forall|l: int| 0 <= l < i ==> #[trigger] fin_ins(m0, s, q, x, n, sl, xl, l)
}
pub open spec fn rem1<T>(m0: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, sl: Seq<Link>, xl: Seq<Link>, h: int) -> bool {
    &&& sl.len() == 33 && xl.len() == 33
    &&& forall|l: int| 0 <= l <= h ==> #[trigger] sl[l] == d0(m0, s, q, l)
    &&& forall|l: int| 0 <= l <= h && l < n ==> #[trigger] xl[l] == m0[x].links[l]
    &&& forall|l: int| h < l < 33 ==> #[trigger] fin_rem(m0, s, q, x, sl, l)
}
pub proof fn lemma_rem1<T>(m0: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, sl: Seq<Link>, xl: Seq<Link>, h: int, sl2: Seq<Link>, xl2: Seq<Link>)
    requires
        rem1(m0, s, q, x, n, sl, xl, h), 0 <= h < 33, sl2 == sl.update(h, sl2[h]), xl2 == xl || xl2 == xl.update(h, xl2[h]), fin_rem(m0, s, q, x, sl2, h),
    ensures rem1(m0, s, q, x, n, sl2, xl2, h - 1),
{
    assert forall|l: int| h - 1 < l < 33 implies #[trigger] fin_rem(m0, s, q, x, sl2, l) by { if l > h { assert(fin_rem(m0, s, q, x, sl, l)); } }
    assert forall|l: int| 0 <= l < h implies #[trigger] sl2[l] == d0(m0, s, q, l) by { assert(sl[l] == d0(m0, s, q, l)); }
    assert forall|l: int| 0 <= l < h && l < n implies #[trigger] xl2[l] == m0[x].links[l] by { assert(xl[l] == m0[x].links[l]); }
}
// the affected link leads to the removed node where that is high enough
pub proof fn lemma_rem_at<T>(m0: M<T>, hd: Ptr, m: M<T>, s: Seq<Ptr>, q: int, x: Ptr, n: int, v: Option<T>, sl: Seq<Link>, xl: Seq<Link>, h: int)
    requires ctx(m0, hd, s, q, x), st(m0, m, s, q, x, n, v, sl, xl), 0 <= h < 33, q + 1 < s.len(), x == s[q + 1], n == hts(m0, s)[q + 1], rem1(m0, s, q, x, n, sl, xl, h),
    ensures ({
        let hs = hts(m0, s);
        let c = prv(hs, q, h);
        let j = nxt(hs, c, h);
        &&& j == q + 1 <==> n > h
        &&& m.dom().contains(x) && m[x].links.len() == n
        &&& n > h ==> m[x].links[h] == m0[x].links[h] && m0[x].links[h].distance + (q + 1) <= s.len() - 1
        &&& s[c] != x
    }),
{
    let hs = hts(m0, s);
    lemma_c(m0, hd, s, q, x, h);
    lemma_st_at(m0, hd, m, s, q, x, n, v, sl, xl, h);
    b_repr(m0, hd, s);
    let c = prv(hs, q, h);
    if n > h { 
        if nxt(hs, c, h) > q + 1 { assert(hs[q + 1] <= h); }
        assert(m0.dom().contains(s[q + 1]));
        b_step(m0, hd, s, q + 1, h);
    }
}

// ---- appending list s2 of m2 to list s1 of m1
pub open spec fn cat(s1: Seq<Ptr>, s2: Seq<Ptr>) -> Seq<Ptr> { s1 + s2.drop_first() }
pub open spec fn jctx<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>) -> bool {
    &&& repr(m1, h1, s1) && repr(m2, h2, s2) && s1.len() - 1 + s2.len() - 1 <= usize::MAX
    &&& forall|p: Ptr| m1.dom().contains(p) ==> !m2.dom().contains(p)
}
// the last node of the first list that is higher than l
pub open spec fn lastn<T>(m1: M<T>, s1: Seq<Ptr>, l: int) -> int { prv(hts(m1, s1), s1.len() - 1, l) }
pub open spec fn jlink<T>(m1: M<T>, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, l: int) -> Link {
    Link { next: m2[h2].links[l].next, distance: (m2[h2].links[l].distance + (s1.len() - 1 - lastn(m1, s1, l))) as usize }
}
// levels below i are joined
#[verifier::opaque]
pub open spec fn jst<T>(m1: M<T>, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, m: M<T>, i: int) -> bool {
    &&& forall|p: Ptr| #[trigger] m.dom().contains(p) <==> m1.dom().contains(p) || m2.dom().contains(p)
    &&& forall|p: Ptr| m1.dom().contains(p) ==> (#[trigger] m[p]).value == m1[p].value && m[p].links.len() == m1[p].links.len()
    &&& forall|p: Ptr, l: int| m1.dom().contains(p) && 0 <= l < m1[p].links.len() ==> #[trigger] m[p].links[l] == (if l < i && p == s1[lastn(m1, s1, l)] { jlink(m1, s1, m2, h2, l) } else { m1[p].links[l] })
    &&& forall|p: Ptr| m2.dom().contains(p) && p != h2 ==> #[trigger] m[p] == m2[p]
    &&& m[h2].value is None && m[h2].links.len() == 33
    &&& forall|l: int| 0 <= l < 33 ==> #[trigger] m[h2].links[l] == (if l < i { Link { next: null(), distance: (s1.len() - 1 - lastn(m1, s1, l)) as usize } } else { m2[h2].links[l] })
}
pub proof fn lemma_join_c<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, l: int)
    requires jctx(m1, h1, s1, m2, h2, s2), 0 <= l < 33,
    ensures ({
        let c = lastn(m1, s1, l);
        &&& 0 <= c < s1.len() && hts(m1, s1)[c] > l && m1.dom().contains(s1[c]) && s1[c] != h2 && l < m1[s1[c]].links.len()
        &&& m1[s1[c]].links[l] == (Link { next: null(), distance: (s1.len() - 1 - c) as usize })
        &&& nxt(hts(m1, s1), c, l) == s1.len()
        &&& m2.dom().contains(h2) && m2[h2].links.len() == 33 && m2[h2].links[l].distance + (s1.len() - 1) <= usize::MAX
        &&& m2[h2].links[l] == lk(s2, nxt(hts(m2, s2), 0, l), 0)
    }),
{
    b_repr(m1, h1, s1); b_repr(m2, h2, s2);
    lemma_hs(m1, h1, s1); lemma_hs(m2, h2, s2);
    let q = s1.len() - 1;
    let hs = hts(m1, s1);
    lemma_prv(hs, q, l);
    let c = prv(hs, q, l);
    assert(m1.dom().contains(s1[c]));
    b_step(m1, h1, s1, c, l);
    let j = nxt(hs, c, l);
    if j <= q { assert(hs[j] <= l); }
    assert(s2[0] == h2);
    assert(m2.dom().contains(s2[0]));
    b_step(m2, h2, s2, 0, l);
}
// the link of node c at level h leads nowhere exactly if c is the last one
pub proof fn lemma_join_walk<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>, c: int, h: int)
    requires jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, m, 0), 0 <= h < 33, 0 <= c < s1.len(), hts(m1, s1)[c] > h,
    ensures ({
        let j = nxt(hts(m1, s1), c, h);
        let k = m[s1[c]].links[h];
        &&& m.dom().contains(s1[c]) && s1[c] != null() && h < m[s1[c]].links.len()
        &&& k.next == tgt(s1, j) && c < j <= s1.len()
        &&& j == s1.len() <==> k.next == null()
        &&& j == s1.len() ==> lastn(m1, s1, h) == c
        &&& j < s1.len() ==> hts(m1, s1)[j] > h
    }),
{
    reveal(jst);
    b_repr(m1, h1, s1);
    lemma_hs(m1, h1, s1);
    let hs = hts(m1, s1);
    assert(m1.dom().contains(s1[c]));
    b_step(m1, h1, s1, c, h);
    let j = nxt(hs, c, h);
    assert(m[s1[c]].links[h] == m1[s1[c]].links[h]);
    assert(m.dom().contains(s1[c]));
    if j == s1.len() { lemma_prv_is(hs, s1.len() - 1, h, c); } else { assert(s1[j] != null()); }
}
pub proof fn lemma_join_start<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>)
    requires jctx(m1, h1, s1, m2, h2, s2), m == m1.union_prefer_right(m2),
    ensures jst(m1, s1, m2, h2, m, 0),
{
    reveal(jst);
    b_repr(m2, h2, s2);
    assert(m2.dom().contains(s2[0]));
}
pub proof fn lemma_join_at<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>, i: int)
    requires jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, m, i), 0 <= i < 33,
    ensures ({
        let p = s1[lastn(m1, s1, i)];
        &&& m.dom().contains(p) && i < m[p].links.len() && m[p].links[i] == m1[p].links[i] && p != h2
        &&& m.dom().contains(h2) && m[h2].links.len() == 33 && m[h2].links[i] == m2[h2].links[i]
    }),
{
    reveal(jst);
    lemma_join_c(m1, h1, s1, m2, h2, s2, i);
    let p = s1[lastn(m1, s1, i)];
    assert(m.dom().contains(p) && m.dom().contains(h2));
    assert(m[p].links[i] == m1[p].links[i]);
}
pub proof fn lemma_join_step<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>, i: int)
    requires jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, m, i), 0 <= i < 33,
    ensures ({
        let p = s1[lastn(m1, s1, i)];
        jst(m1, s1, m2, h2, set_link(set_link(m, h2, i, m1[p].links[i]), p, i, jlink(m1, s1, m2, h2, i)), i + 1)
    }),
{
    reveal(jst);
    lemma_join_c(m1, h1, s1, m2, h2, s2, i);
    lemma_join_at(m1, h1, s1, m2, h2, s2, m, i);
    b_repr(m1, h1, s1);
    let p = s1[lastn(m1, s1, i)];
    let ma = set_link(m, h2, i, m1[p].links[i]);
    let mb = set_link(ma, p, i, jlink(m1, s1, m2, h2, i));
    assert forall|y: Ptr| #[trigger] mb.dom().contains(y) <==> m1.dom().contains(y) || m2.dom().contains(y) by { assert(m.dom().contains(y) <==> m1.dom().contains(y) || m2.dom().contains(y)); }
    assert forall|y: Ptr| m1.dom().contains(y) implies (#[trigger] mb[y]).value == m1[y].value && mb[y].links.len() == m1[y].links.len() by { assert(m[y].value == m1[y].value); }
    assert forall|y: Ptr, l: int| m1.dom().contains(y) && 0 <= l < m1[y].links.len() implies #[trigger] mb[y].links[l] == (if l < i + 1 && y == s1[lastn(m1, s1, l)] { jlink(m1, s1, m2, h2, l) } else { m1[y].links[l] }) by {
        assert(m[y].links[l] == (if l < i && y == s1[lastn(m1, s1, l)] { jlink(m1, s1, m2, h2, l) } else { m1[y].links[l] }));
        assert(m[y].links.len() == m1[y].links.len());
        assert(y != h2);
        if y == p { } else { assert(mb[y] == m[y]); }
    }
    assert forall|y: Ptr| m2.dom().contains(y) && y != h2 implies #[trigger] mb[y] == m2[y] by { assert(m[y] == m2[y]); assert(y != p); }
    assert(mb[h2] == ma[h2]);
    assert forall|l: int| 0 <= l < 33 implies #[trigger] mb[h2].links[l] == (if l < i + 1 { Link { next: null(), distance: (s1.len() - 1 - lastn(m1, s1, l)) as usize } } else { m2[h2].links[l] }) by {
        assert(m[h2].links[l] == (if l < i { Link { next: null(), distance: (s1.len() - 1 - lastn(m1, s1, l)) as usize } } else { m2[h2].links[l] }));
    }
}
proof fn lemma_nxt_cat(a: Seq<int>, b: Seq<int>, l: int, i: int)
    requires
        a.len() >= 1, b.len() >= 1, a[0] > l, b[0] > l, 0 <= i < a.len() + b.len() - 1, (a + b.drop_first())[i] > l,
    ensures ({
        let h = a + b.drop_first();
        let n = a.len() - 1;
        let c = prv(a, n, l);
        &&& i > n ==> nxt(h, i, l) == n + nxt(b, i - n, l)
        &&& i == c ==> nxt(h, i, l) == n + nxt(b, 0, l)
        &&& i <= n && i != c ==> nxt(h, i, l) == nxt(a, i, l) && nxt(a, i, l) <= n
    }),
{
    let h = a + b.drop_first();
    let n = a.len() - 1;
    let c = prv(a, n, l);
    lemma_prv(a, n, l);
    if i > n {
        let k = nxt(b, i - n, l);
        b_nxt(b, i - n, l);
        assert forall|y: int| i < y < n + k implies #[trigger] h[y] <= l by { assert(h[y] == b[y - n]); }
        lemma_nxt(h, i, l, n + k);
    } else if i == c {
        let k = nxt(b, 0, l);
        b_nxt(b, 0, l);
        assert forall|y: int| i < y < n + k implies #[trigger] h[y] <= l by { if y > n { assert(h[y] == b[y - n]); } else { assert(h[y] == a[y]); } }
        lemma_nxt(h, i, l, n + k);
    } else {
        let k = nxt(a, i, l);
        b_nxt(a, i, l);
        assert(h[i] == a[i]);
        if i > c { assert(a[i] <= l); }
        if k > c { assert(a[c] <= l); }
        assert forall|y: int| i < y < k implies #[trigger] h[y] <= l by { assert(h[y] == a[y]); }
        lemma_nxt(h, i, l, k);
    }
}
proof fn lemma_join_lvl<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>, l: int)
    requires jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, m, 33), 0 <= l < 33,
    ensures lvl(m.remove(h2), cat(s1, s2), hts(m1, s1) + hts(m2, s2).drop_first(), l),
{
    let a = hts(m1, s1);
    let b = hts(m2, s2);
    let h = a + b.drop_first();
    let s = cat(s1, s2);
    let n = s1.len() - 1;
    let r = m.remove(h2);
    b_repr(m1, h1, s1); b_repr(m2, h2, s2);
    lemma_hs(m1, h1, s1); lemma_hs(m2, h2, s2);
    lemma_join_c(m1, h1, s1, m2, h2, s2, l);
    assert forall|i: int| 0 <= i < s.len() && h[i] > l implies (#[trigger] r[s[i]]).links[l] == lk(s, nxt(h, i, l), i) by {
        lemma_nxt_cat(a, b, l, i);
        reveal(jst);
        let c = lastn(m1, s1, l);
        if i > n {
            assert(s[i] == s2[i - n]);
            assert(m2.dom().contains(s2[i - n]));
            assert(s2[0] != s2[i - n]);
            assert(m[s[i]] == m2[s2[i - n]]);
            assert(h[i] == b[i - n]);
            b_step(m2, h2, s2, i - n, l);
            let j = nxt(b, i - n, l);
            assert(tgt(s, n + j) == tgt(s2, j));
        } else {
            assert(s[i] == s1[i] && h[i] == a[i]);
            assert(m1.dom().contains(s1[i]));
            assert(m1[s1[i]].links.len() > l);
            assert(s1[i] != h2);
            assert(r[s[i]] == m[s1[i]]);
            assert(m[s1[i]].links[l] == (if s1[i] == s1[c] { jlink(m1, s1, m2, h2, l) } else { m1[s1[i]].links[l] }));
            if i == c {
                let j = nxt(b, 0, l);
                b_nxt(b, 0, l);
                assert(tgt(s, n + j) == tgt(s2, j));
            } else {
                b_step(m1, h1, s1, i, l);
                let j = nxt(a, i, l);
                assert(tgt(s, j) == tgt(s1, j));
            }
        }
    }
}
proof fn lemma_join_base<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>)
    requires jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, m, 33),
    ensures
        base(m.remove(h2), h1, cat(s1, s2)),
        hts(m.remove(h2), cat(s1, s2)) =~= hts(m1, s1) + hts(m2, s2).drop_first(),
        vals(m.remove(h2), cat(s1, s2)) =~= vals(m1, s1) + vals(m2, s2),
{
    let s = cat(s1, s2);
    let n = s1.len() - 1;
    let r = m.remove(h2);
    b_repr(m1, h1, s1); b_repr(m2, h2, s2);
    reveal(jst);
    assert forall|i: int| 0 <= i < s.len() implies r.dom().contains(#[trigger] s[i]) && s[i] != null() && 1 <= r[s[i]].links.len() <= 33
        && (i <= n ==> s[i] == s1[i] && m1.dom().contains(s1[i]) && r[s[i]].links.len() == m1[s1[i]].links.len() && r[s[i]].value == m1[s1[i]].value)
        && (i > n ==> s[i] == s2[i - n] && m2.dom().contains(s2[i - n]) && r[s[i]] == m2[s2[i - n]]) by {
        if i <= n {
            assert(m1.dom().contains(s1[i])); assert(m.dom().contains(s1[i])); assert(m2.dom().contains(s2[0])); assert(s1[i] != h2);
            assert(m[s1[i]].value == m1[s1[i]].value);
        } else {
            assert(m2.dom().contains(s2[i - n])); assert(m.dom().contains(s2[i - n])); assert(s2[0] != s2[i - n]);
            assert(m[s2[i - n]] == m2[s2[i - n]]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        assert(r.dom().contains(s[i]) && r.dom().contains(s[j]));
    }
    assert forall|i: int| 1 <= i < s.len() implies live(r, #[trigger] s[i]) by {
        if i <= n { assert(live(m1, s1[i])); } else { assert(live(m2, s2[i - n])); }
    }
    assert(s[0] == h1);
    assert forall|i: int| 0 <= i < s.len() - 1 implies ent(r, #[trigger] s[i + 1]) == (vals(m1, s1) + vals(m2, s2))[i] by {
        if i + 1 <= n { } else { }
    }
}
pub proof fn lemma_join_end<T>(m1: M<T>, h1: Ptr, s1: Seq<Ptr>, m2: M<T>, h2: Ptr, s2: Seq<Ptr>, m: M<T>)
    requires jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, m, 33),
    ensures
        repr(m.remove(h2), h1, cat(s1, s2)), vals(m.remove(h2), cat(s1, s2)) == vals(m1, s1) + vals(m2, s2),
        m.dom().contains(h2), droppable(Map::<Ptr, NodeV<T>>::empty().insert(h2, m[h2]), h2),
{
    let s = cat(s1, s2);
    let r = m.remove(h2);
    lemma_join_base(m1, h1, s1, m2, h2, s2, m);
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(r, s, hts(r, s), l) by { lemma_join_lvl(m1, h1, s1, m2, h2, s2, m, l); }
    b_repr(m1, h1, s1); b_repr(m2, h2, s2);
    assert forall|p: Ptr| r.dom().contains(p) implies #[trigger] s.contains(p) by {
        reveal(jst);
        assert(m.dom().contains(p));
        if m1.dom().contains(p) {
            assert(s1.contains(p)) by { reveal(repr); }
            b_ix2(s1, p); assert(s[ix(s1, p)] == p);
        } else {
            assert(s2.contains(p)) by { reveal(repr); }
            b_ix2(s2, p); let i = ix(s2, p); assert(i > 0); assert(s[s1.len() - 1 + i] == p);
        }
    }
    reveal(repr);
    assert(m.dom().contains(h2) && m[h2].links[0].next == null() && m[h2].value is None && m[h2].links.len() == 33) by { reveal(jst); assert(m2.dom().contains(s2[0])); assert(m[h2].links[0].next == null()); }
    lemma_bare(Map::<Ptr, NodeV<T>>::empty().insert(h2, m[h2]), h2, m[h2]);
}
}
//@ spec skiplist::list
use crate::rp::*;
use crate::sk::*;
use crate::ske::*;
use crate::rp::Link;
broadcast use { crate::sk::group_sk };
impl<T> Node<T> {
    pub fn allocate(n: usize, Tracked(h): Tracked<&mut Heap<T>>) -> (r: Ptr)
        ensures
            r != null(), !old(h)@.dom().contains(r),
            final(h)@ == old(h)@.insert(r, NodeV { value: None, links: Seq::new(n as nat, |i: int| nolink()) }),
    { alloc::<T>(n, Tracked(h)) }
    pub fn deallocate(p: Ptr, Tracked(h): Tracked<&mut Heap<T>>)
        requires old(h)@.dom().contains(p), old(h)@[p].value is None,
        ensures final(h)@ == old(h)@.remove(p),
    { dealloc::<T>(p, Tracked(h)) }
}
impl<T> SkipList<T> {
    pub open spec fn m(&self) -> M<T> { self.heap@@ }
    pub open spec fn ss(&self) -> Seq<Ptr> { ss(self.m(), self.head) }
    pub open spec fn wf(&self) -> bool { repr(self.m(), self.head, self.ss()) }
    pub open spec fn inv(&self) -> bool { self.wf() && self.len == self@.len() }
}
impl<T> View for SkipList<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { vals(self.m(), self.ss()) }
}
impl<T> SkipListIntoIter<T> {
    pub open spec fn m(&self) -> M<T> { self.heap@@ }
    pub open spec fn cs(&self) -> Seq<Ptr> { cs(self.m(), self.current) }
    pub open spec fn inv(&self) -> bool { ok_chain(self.m(), self.current) && only(self.m(), self.cs()) }
}
impl<T> View for SkipListIntoIter<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { cvals(self.m(), self.cs()) }
}
impl<'a, T> SkipListIter<'a, T> {
    pub open spec fn m(&self) -> M<T> { self.heap@@ }
    pub open spec fn p(&self) -> Ptr { self.current.val(self.m()) }
    pub open spec fn inv(&self) -> bool { self.current.ok(self.m()) && ok_chain(self.m(), self.p()) }
}
impl<'a, T> View for SkipListIter<'a, T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { cvals(self.m(), cs(self.m(), self.p())) }
}
impl<'a, T> SkipListIterMut<'a, T> {
    pub open spec fn m(&self) -> M<T> { (*self.heap@)@ }
    // the heap as it will be when the borrow ends
    #[verifier::prophetic]
    pub open spec fn fm(&self) -> M<T> { final(self.heap@)@ }
    pub open spec fn p(&self) -> Ptr { self.current.val(self.m()) }
    pub open spec fn cs(&self) -> Seq<Ptr> { cs(self.m(), self.p()) }
    pub open spec fn inv(&self) -> bool { self.current.ok(self.m()) && ok_chain(self.m(), self.p()) }
    pub open spec fn cur(&self) -> Seq<T> { cvals(self.m(), self.cs()) }
    #[verifier::prophetic]
    pub open spec fn fut(&self) -> Seq<T> { cvals(self.fm(), self.cs()) }
    // nothing but the values still to come changes until the borrow ends
    #[verifier::prophetic]
    pub open spec fn keeps(&self) -> bool { keeps0(self.m(), self.fm(), self.cs()) }
}
// when the iterator is dropped
proof fn lemma_iter_mut_dropped<T>(it: SkipListIterMut<'_, T>)
    requires it.inv(), final(it.heap@)@ == (*it.heap@)@,
    ensures it.keeps(), it.fut() == it.cur(),
{
    reveal(same_links); reveal(keeps0);
    assert forall|p: Ptr| #[trigger] it.cs().contains(p) implies live(it.fm(), p) by { let i = ix(it.cs(), p); assert(it.cs()[i] == p); }
}
//@ fn skiplist::list::Node::new
    ensures
        ret != null(), !old(h)@.dom().contains(ret),
        final(h)@ == old(h)@.insert(ret, NodeV { value: Some(value), links: Seq::new(links_len as nat, |i: int| nolink()) }),
//@ fn skiplist::list::Node::free
    requires live(old(h)@, ptr),
    ensures final(h)@ == old(h)@.remove(ptr),
//@ fn skiplist::list::SkipList::new
    ensures ret@ == Seq::<T>::empty(), ret.inv(),
//@ entry
    let tracked mut hp = Heap::<T>::empty();
    broadcast use { b_only_head };
//@ fn skiplist::list::SkipList::gen_random_height
    ensures ret <= 32, final(self).heap == old(self).heap, final(self).head == old(self).head, final(self).len == old(self).len,
//@ fn skiplist::list::SkipList::insert
    requires old(self).inv(), index <= old(self)@.len(), old(self)@.len() < usize::MAX,
    ensures final(self).inv(), final(self)@ == old(self)@.insert(index as int, value),
//@ entry
    let ghost m0 = self.heap@@;
    let ghost hd = self.head;
    let ghost s = self.ss();
    let ghost q = index as int;
    let ghost vs = self@;
    let ghost hs = hts(m0, s);
    let ghost mut sl: Seq<Link> = Seq::new(33, |l: int| d0(m0, s, q, l));
    let ghost mut xl: Seq<Link> = Seq::new(33, |l: int| nolink());
    let ghost mut c: int = 0;
//@ before 0 `let mut curr_height = MAX_HEIGHT ;`
    let ghost n: int = new_height + 1;
    proof { lemma_ins_start(m0, hd, self.heap@@, s, q, new_node, n, value, sl, xl); lemma_c(m0, hd, s, q, new_node, 32); }
//@ loop 0
    invariant_except_break
        ins1(m0, s, q, n, new_node, sl, xl, last_nodes@, curr_height as int),
        sl_ok(hs, s, q, curr_height as int, curr_node, c), c == prv(hs, q, curr_height + 1), index == q - c,
        forall|l: int| 0 <= l <= curr_height ==> (#[trigger] last_nodes@[l]).1 == 0,
    invariant
        curr_height <= 32, self.head == hd, self.len == s.len(), s.len() <= usize::MAX, hs == hts(m0, s),
        ctx(m0, hd, s, q, new_node), st(m0, self.heap@@, s, q, new_node, n, Some(value), sl, xl), !m0.dom().contains(new_node),
        n == new_height + 1, new_height <= 32,
    ensures ins1(m0, s, q, n, new_node, sl, xl, last_nodes@, -1),
    decreases curr_height,
//@ body 0
    let ghost m1 = self.heap@@;
    proof {
        lemma_slot(m0, hd, m1, s, q, new_node, n, Some(value), sl, xl, curr_height as int, curr_node, c);
        assert(sl[curr_height as int] == d0(m0, s, q, curr_height as int));
        lemma_seen(m0, hd, m1, s, q, new_node, n, Some(value), sl, xl, c, curr_height as int);
    }
    let ghost c1 = c;
//@ loop 1
    invariant
        curr_height <= 32, self.head == hd, self.heap@@ == m1, hs == hts(m0, s), s.len() <= usize::MAX,
        ctx(m0, hd, s, q, new_node), st(m0, m1, s, q, new_node, n, Some(value), sl, xl), !m0.dom().contains(new_node),
        ins1(m0, s, q, n, new_node, sl, xl, last_nodes@, curr_height as int),
        sl_ok(hs, s, q, curr_height as int, curr_node, c), 0 <= c1 <= c <= q, index == q - c,
        forall|l: int| 0 <= l < curr_height ==> (#[trigger] last_nodes@[l]).1 == 0,
        last_nodes@[curr_height as int].1 == c - c1,
        curr_node.ok(m1), curr_node.val(m1) == s[c],
        seen(m0, m1, s, q, c, curr_height as int),
        next_link == (LSlot { p: s[c], l: curr_height }),
    decreases s.len() - c,
//@ body 1
    proof {
        let j = nxt(hs, c, curr_height as int);
        b_ix(s, c);
        assert(sl_ok(hs, s, q, curr_height as int, Slot::Link(s[c], curr_height), j));
        lemma_slot(m0, hd, m1, s, q, new_node, n, Some(value), sl, xl, curr_height as int, Slot::Link(s[c], curr_height), j);
        assert(sl[curr_height as int] == d0(m0, s, q, curr_height as int));
        lemma_seen(m0, hd, m1, s, q, new_node, n, Some(value), sl, xl, j, curr_height as int);
        c = j;
    }
//@ before 0 `if curr_height <= new_height`
    proof { lemma_st_at(m0, hd, m1, s, q, new_node, n, Some(value), sl, xl, curr_height as int); lemma_c(m0, hd, s, q, new_node, curr_height as int); }
//@ before 0 `if curr_height == 0 { break ; }`
    proof {
        let h = curr_height as int;
        if h < n {
            let d = d0(m0, s, q, h);
            let lv = Link { next: new_node, distance: 1 };
            assert(self.heap@@ =~= set_link(set_link(m1, s[c], h, lv), new_node, h, d));
            lemma_st_s(m0, hd, m1, s, q, new_node, n, Some(value), sl, xl, h, lv);
            sl = sl.update(h, lv);
            lemma_st_x(m0, hd, set_link(m1, s[c], h, lv), s, q, new_node, n, Some(value), sl, xl, h, d);
            xl = xl.update(h, d);
        }
    }
//@ loop 2
    invariant
        self.head == hd, self.len == s.len(), s.len() <= usize::MAX, hs == hts(m0, s),
        ctx(m0, hd, s, q, new_node), st(m0, self.heap@@, s, q, new_node, n, Some(value), sl, xl), !m0.dom().contains(new_node),
        n == new_height + 1, new_height <= 32,
        ins2(m0, s, q, n, new_node, sl, xl, last_nodes@, i as int),
//@ body 2
    let ghost m2 = self.heap@@;
    let ghost sl2 = sl;
    let ghost xl2 = xl;
    proof { lemma_c(m0, hd, s, q, new_node, i as int); lemma_st_at(m0, hd, m2, s, q, new_node, n, Some(value), sl, xl, i as int);
        assert(last_nodes@[i as int].0 == s[prv(hs, q, i as int)]); assert(last_nodes@[i - 1].1 == q - prv(hs, q, i as int));
        assert(sl[i as int] == (if i < n { Link { next: new_node, distance: 1 } } else { d0(m0, s, q, i as int) })); }
//@ bodyend 2
    proof {
        let h = i as int;
        let d = d0(m0, s, q, h);
        let cc = prv(hs, q, h);
        if h < n {
            let lv = Link { next: new_node, distance: (q - cc + 1) as usize };
            let lx = Link { next: d.next, distance: (d.distance - (q - cc)) as usize };
            assert(self.heap@@ =~= set_link(set_link(m2, s[cc], h, lv), new_node, h, lx));
            lemma_st_s(m0, hd, m2, s, q, new_node, n, Some(value), sl, xl, h, lv);
            sl = sl.update(h, lv);
            lemma_st_x(m0, hd, set_link(m2, s[cc], h, lv), s, q, new_node, n, Some(value), sl, xl, h, lx);
            xl = xl.update(h, lx);
        } else {
            let lv = Link { next: d.next, distance: (d.distance + 1) as usize };
            assert(self.heap@@ =~= set_link(m2, s[cc], h, lv));
            lemma_st_s(m0, hd, m2, s, q, new_node, n, Some(value), sl, xl, h, lv);
            sl = sl.update(h, lv);
        }
        assert(last_nodes@[h].1 == q - prv(hs, q, h + 1));
        assert(fin_ins(m0, s, q, new_node, n, sl, xl, h));
        assert forall|l: int| 0 <= l < h + 1 implies #[trigger] fin_ins(m0, s, q, new_node, n, sl, xl, l) by { if l < h { assert(fin_ins(m0, s, q, new_node, n, sl2, xl2, l)); } }
    }
//@ after 0 `for i in`
    proof {
        assert forall|l: int| 0 <= l < 33 implies #[trigger] fin_ins(m0, s, q, new_node, n, sl, xl, l) by {}
        lemma_ins_end(m0, hd, self.heap@@, s, q, new_node, n, value, sl, xl);
    }
//@ fn skiplist::list::SkipList::remove
    requires old(self).inv(), index < old(self)@.len(),
    ensures final(self).inv(), final(self)@ == old(self)@.remove(index as int), ret == old(self)@[index as int],
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ attr #[verifier::rlimit(100)]
//@ entry
    let ghost m0 = self.heap@@;
    let ghost hd = self.head;
    let ghost s = self.ss();
    let ghost q = index as int;
    let ghost hs = hts(m0, s);
    let ghost x = s[q + 1];
    let ghost n = hs[q + 1];
    let ghost v = Some(self@[q]);
    let ghost mut sl: Seq<Link> = Seq::new(33, |l: int| d0(m0, s, q, l));
    let ghost mut xl: Seq<Link> = Seq::new(33, |l: int| m0[s[q + 1]].links[l]);
    let ghost mut c: int = 0;
    proof { lemma_rem_start(m0, hd, s, q, sl, xl); lemma_c(m0, hd, s, q, x, 32); }
//@ loop 0
    invariant
        curr_height <= 32, self.head == hd, self.len == s.len() - 1, hs == hts(m0, s), q + 1 < s.len(), x == s[q + 1], n == hs[q + 1], 1 <= n, n == m0[x].links.len(),
        ctx(m0, hd, s, q, x), st(m0, self.heap@@, s, q, x, n, v, sl, xl), m0.dom().contains(x),
        rem1(m0, s, q, x, n, sl, xl, curr_height as int),
        sl_ok(hs, s, q, curr_height as int, curr_node, c), c == prv(hs, q, curr_height + 1), index == q - c,
        old(self)@ == vals(m0, s), v == Some(old(self)@[q]), old(self)@.len() == s.len() - 1,
    decreases curr_height,
//@ body 0
    let ghost m1 = self.heap@@;
    let ghost sl1 = sl;
    let ghost xl1 = xl;
    proof {
        lemma_slot(m0, hd, m1, s, q, x, n, v, sl, xl, curr_height as int, curr_node, c);
        assert(sl[curr_height as int] == d0(m0, s, q, curr_height as int));
        lemma_seen(m0, hd, m1, s, q, x, n, v, sl, xl, c, curr_height as int);
    }
//@ loop 1
    invariant
        curr_height <= 32, self.head == hd, self.heap@@ == m1, hs == hts(m0, s), q + 1 < s.len(), x == s[q + 1], n == hs[q + 1], 1 <= n, n == m0[x].links.len(),
        ctx(m0, hd, s, q, x), st(m0, m1, s, q, x, n, v, sl, xl), m0.dom().contains(x),
        rem1(m0, s, q, x, n, sl, xl, curr_height as int), sl1 == sl, xl1 == xl,
        sl_ok(hs, s, q, curr_height as int, curr_node, c), 0 <= c <= q, index == q - c,
        curr_node.ok(m1), curr_node.val(m1) == s[c],
        seen(m0, m1, s, q, c, curr_height as int),
        next_link == (LSlot { p: s[c], l: curr_height }),
    decreases s.len() - c,
//@ body 1
    proof {
        let j = nxt(hs, c, curr_height as int);
        b_ix(s, c);
        assert(sl_ok(hs, s, q, curr_height as int, Slot::Link(s[c], curr_height), j));
        lemma_slot(m0, hd, m1, s, q, x, n, v, sl, xl, curr_height as int, Slot::Link(s[c], curr_height), j);
        assert(sl[curr_height as int] == d0(m0, s, q, curr_height as int));
        lemma_seen(m0, hd, m1, s, q, x, n, v, sl, xl, j, curr_height as int);
        c = j;
    }
//@ after 0 `while`
    proof {
        lemma_c(m0, hd, s, q, x, curr_height as int);
        lemma_rem_at(m0, hd, m1, s, q, x, n, v, sl, xl, curr_height as int);
    }
//@ before 0 `if curr_height == 0`
    proof {
        let h = curr_height as int;
        let d = d0(m0, s, q, h);
        let y = m0[x].links[h];
        let lv = Link { next: y.next, distance: (y.distance + d.distance - 1) as usize };
        assert(m1[s[c]].links.update(h, y).update(h, lv) =~= m1[s[c]].links.update(h, lv));
        assert(self.heap@@ =~= set_link(set_link(m1, s[c], h, lv), x, h, d));
        lemma_st_s(m0, hd, m1, s, q, x, n, v, sl, xl, h, lv);
        sl = sl.update(h, lv);
        lemma_st_x(m0, hd, set_link(m1, s[c], h, lv), s, q, x, n, v, sl, xl, h, d);
        xl = xl.update(h, d);
        lemma_st_v(m0, self.heap@@, s, q, x, n, v, sl, xl);
        lemma_rem1(m0, s, q, x, n, sl1, xl1, h, sl, xl);
    }
    let ghost m2 = self.heap@@;
//@ before 0 `return ret`
    proof {
        assert forall|l: int| 0 <= l < 33 implies #[trigger] fin_rem(m0, s, q, x, sl, l) by {}
        lemma_rem_end(m0, hd, m2, s, q, x, n, v, sl, xl);
        assert(self.heap@@ =~= m2.remove(x));
    }
//@ before 0 `curr_height -= 1`
    proof {
        let h = curr_height as int;
        if n <= h {
            let d = d0(m0, s, q, h);
            let lv = Link { next: d.next, distance: (d.distance - 1) as usize };
            assert(self.heap@@ =~= set_link(m1, s[c], h, lv));
            lemma_st_s(m0, hd, m1, s, q, x, n, v, sl, xl, h, lv);
            sl = sl.update(h, lv);
            lemma_rem1(m0, s, q, x, n, sl1, xl1, h, sl, xl);
        }
    }
//@ fn skiplist::list::SkipList::push_front
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures final(self).inv(), final(self)@ == old(self)@.insert(0, value),
//@ fn skiplist::list::SkipList::push_back
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures final(self).inv(), final(self)@ =~= old(self)@.push(value),
//@ fn skiplist::list::SkipList::pop_front
    requires old(self).inv(), old(self)@.len() > 0,
    ensures final(self).inv(), final(self)@ == old(self)@.remove(0), ret == old(self)@[0],
//@ fn skiplist::list::SkipList::pop_back
    requires old(self).inv(), old(self)@.len() > 0,
    ensures final(self).inv(), final(self)@ =~= old(self)@.drop_last(), ret == old(self)@.last(),
//@ fn skiplist::list::SkipList::get
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
    requires self.inv(),
    ensures
        match ret {
            Some(r) => index < self@.len() && *r == self@[index as int],
            None => index >= self@.len(),
        },
//@ entry
    let ghost q = index as int;
    let ghost m0 = self.m();
    let ghost s = self.ss();
    let ghost mut c: int = 0;
//@ loop 0
    invariant
        self.inv(), curr_height <= 32, m0 == self.m(), s == self.ss(), 0 <= c < s.len(), index == q - c,
        curr_node.ok(m0), curr_node.val(m0) == s[c], hts(m0, s)[c] > curr_height,
    ensures q >= self@.len(),
    decreases curr_height,
//@ body 0
    proof { b_step(m0, self.head, s, c, curr_height as int); }
//@ loop 1
    invariant
        self.inv(), curr_height <= 32, m0 == self.m(), s == self.ss(), 0 <= c < s.len(), index == q - c,
        curr_node.ok(m0), curr_node.val(m0) == s[c], hts(m0, s)[c] > curr_height,
        next_link == (LSlot { p: s[c], l: curr_height }),
    decreases s.len() - c,
//@ body 1
    proof { b_step(m0, self.head, s, c, curr_height as int); let j = nxt(hts(m0, s), c, curr_height as int); assert(m0.dom().contains(s[j])); c = j; }
//@ after 0 `while`
    proof { b_step(m0, self.head, s, c, curr_height as int); }
//@ fn skiplist::list::SkipList::get_mut
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(r) => index < old(self)@.len() && *r == old(self)@[index as int] && final(self)@ == old(self)@.update(index as int, *final(r)),
            None => index >= old(self)@.len() && final(self)@ == old(self)@,
        },
//@ entry
    let ghost q = index as int;
    let ghost m0 = self.m();
    let ghost s = self.ss();
    let ghost mut c: int = 0;
//@ loop 0
    invariant
        *self == *old(self),
        self.inv(), curr_height <= 32, m0 == self.m(), s == self.ss(), 0 <= c < s.len(), index == q - c,
        curr_node.ok(m0), curr_node.val(m0) == s[c], hts(m0, s)[c] > curr_height,
    ensures q >= self@.len(),
    decreases curr_height,
//@ body 0
    proof { b_step(m0, self.head, s, c, curr_height as int); }
//@ loop 1
    invariant
        *self == *old(self),
        self.inv(), curr_height <= 32, m0 == self.m(), s == self.ss(), 0 <= c < s.len(), index == q - c,
        curr_node.ok(m0), curr_node.val(m0) == s[c], hts(m0, s)[c] > curr_height,
        next_link == (LSlot { p: s[c], l: curr_height }),
    decreases s.len() - c,
//@ body 1
    proof { b_step(m0, self.head, s, c, curr_height as int); let j = nxt(hts(m0, s), c, curr_height as int); assert(m0.dom().contains(s[j])); c = j; }
//@ after 0 `while`
    proof { b_step(m0, self.head, s, c, curr_height as int); }
//@ fn skiplist::list::SkipList::len
    requires self.inv(),
    ensures ret == self@.len(),
//@ fn skiplist::list::SkipList::is_empty
    requires self.inv(),
    ensures ret == (self@.len() == 0),
//@ fn skiplist::list::SkipList::clear
    requires old(self).inv(),
    ensures final(self).inv(), final(self)@ == Seq::<T>::empty(),
//@ entry
    let ghost hd = self.head;
    proof { lemma_rest_start(self.heap@@, hd, self.ss()); }
    broadcast use { b_only_head };
//@ loop 0
    invariant
        self.head == hd, self.len == 0, rest(self.heap@@, hd, curr_node), hd != null(),
        self.heap@@.dom().contains(hd), self.heap@@[hd].value is None, self.heap@@[hd].links.len() == 33,
    ensures curr_node == null(),
    decreases cs(self.heap@@, curr_node).len(),
//@ body 0
    proof { lemma_rest(self.heap@@, hd, curr_node); }
//@ after 0 `while`
    proof { lemma_rest(self.heap@@, hd, curr_node); }
//@ fn skiplist::list::SkipList::iter
    requires self.wf(),
    ensures ret.inv(), ret@ == self@,
//@ entry
    broadcast use { b_repr_chain };
//@ fn skiplist::list::SkipList::iter_mut
    requires old(self).inv(),
    ensures
        ret.inv(), ret.cur() == old(self)@,
        ret.keeps() ==> final(self).inv() && ret.fut() == final(self)@,
//@ entry
    broadcast use { b_repr_chain, b_keeps_repr };
//@ fn skiplist::list::SkipList::Drop::drop
    requires droppable(old(self).heap@@, old(self).head),
    ensures forall|p: Ptr| !final(self).heap@@.dom().contains(p),
//@ loop 0
    invariant rest(self.heap@@, null(), self.head),
    ensures self.head == null(),
    decreases cs(self.heap@@, self.head).len(),
//@ body 0
    proof { lemma_rest(self.heap@@, null(), self.head); }
//@ after 0 `while`
    proof { lemma_rest(self.heap@@, null(), self.head); lemma_rest_null(self.heap@@, self.head); }
//@ fn skiplist::list::SkipList::IntoIterator::into_iter
    requires self.wf(),
    ensures ret.inv(), ret@ == self@,
//@ entry
    let ghost m0 = self.heap@@;
    let tracked mut hp = self.heap.get();
    proof { assert(m0.dom().contains(self.head)); }
    broadcast use { b_repr_chain, b_chain_rm };
//@ before 0 `ret`
    // what is left is an empty head: dropping the rest of the list releases it and nothing else
    proof { assert(hp@ =~= Map::<Ptr, NodeV<T>>::empty().insert(self.head, hp@[self.head])); lemma_bare(hp@, self.head, hp@[self.head]); }
    assert(droppable(hp@, self.head));
//@ fn skiplist::list::SkipListIntoIter::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(v) => old(self)@ =~= seq![v] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ entry
    broadcast use { b_chain_step, b_chain_frame, b_chain_rm, b_only_rm };
//@ fn skiplist::list::SkipListIntoIter::Drop::drop
    requires old(self).inv(),
    ensures forall|p: Ptr| !final(self).heap@@.dom().contains(p),
//@ entry
    proof { lemma_rest_iter(self.heap@@, self.current); }
//@ loop 0
    invariant rest(self.heap@@, null(), self.current),
    ensures self.current == null(),
    decreases cs(self.heap@@, self.current).len(),
//@ body 0
    proof { lemma_rest(self.heap@@, null(), self.current); }
//@ after 0 `while`
    proof { lemma_rest(self.heap@@, null(), self.current); lemma_rest_null(self.heap@@, self.current); }
//@ fn skiplist::list::SkipListIter::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(v) => old(self)@ =~= seq![*v] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ entry
    broadcast use { b_chain_step };
//@ fn skiplist::list::SkipListIterMut::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self).keeps() ==> old(self).keeps(),
        match ret {
            Some(v) => {
                &&& old(self).cur() =~= seq![*v] + final(self).cur()
                &&& old(self).fut() =~= seq![*final(v)] + final(self).fut()
            },
            None => old(self).cur().len() == 0 && final(self).cur().len() == 0 && old(self).fut().len() == 0,
        },
//@ entry
    broadcast use { b_chain_step, b_chain_frame, b_keeps_step };
//@ fn skiplist::list::SkipList::Default::default
    ensures ret@ == Seq::<T>::empty(), ret.inv(),
//@ fn skiplist::list::SkipList::Index::index
    requires self.inv(), index < self@.len(),
    ensures *ret == self@[index as int],
//@ fn skiplist::list::SkipList::IndexMut::index_mut
    requires old(self).inv(), index < old(self)@.len(),
    ensures final(self).inv(), *ret == old(self)@[index as int], final(self)@ == old(self)@.update(index as int, *final(ret)),
//@ fn skiplist::list::SkipList::Add::add
    requires self.inv(), other.inv(), self@.len() + other@.len() <= usize::MAX,
    ensures ret.inv(), ret@ == self@ + other@,
//@ entry
    let ghost m1 = self.m();
    let ghost m2 = other.m();
    let ghost s1 = self.ss();
    let ghost s2 = other.ss();
    let ghost h1 = self.head;
    let ghost h2 = other.head;
    let ghost mut c: int = 0;
//@ before 0 `let mut curr_nodes`
    let tracked mut hp = vx_self.heap.borrow_mut().take();
    let tracked oh = other.heap.get();
    proof { hp.join(oh); assert(jctx(m1, h1, s1, m2, h2, s2)); lemma_join_start(m1, h1, s1, m2, h2, s2, hp@); }
//@ loop 0
    invariant
        jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, hp@, 0), curr_height <= 32, 0 <= c <= s1.len(), curr_node == tgt(s1, c),
        c < s1.len() ==> hts(m1, s1)[c] > curr_height && curr_node != null(),
        forall|l: int| curr_height < l < 33 || (c == s1.len() && 0 <= l < 33) ==> #[trigger] curr_nodes@[l] == s1[lastn(m1, s1, l)],
    ensures forall|l: int| 0 <= l < 33 ==> #[trigger] curr_nodes@[l] == s1[lastn(m1, s1, l)],
    decreases s1.len() - c,
//@ body 0
    proof { lemma_join_walk(m1, h1, s1, m2, h2, s2, hp@, c, curr_height as int); }
//@ loop 1
    invariant
        jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, hp@, 0), curr_height <= 32, 0 <= c < s1.len(), curr_node == s1[c],
        hts(m1, s1)[c] > curr_height, hp@.dom().contains(s1[c]), curr_height < hp@[s1[c]].links.len(),
        forall|l: int| curr_height < l < 33 ==> #[trigger] curr_nodes@[l] == s1[lastn(m1, s1, l)],
    ensures
        hp@[s1[c]].links[curr_height as int].next != null() || (curr_height == 0 && curr_nodes@[0] == s1[lastn(m1, s1, 0)]),
    decreases curr_height,
//@ body 1
    proof { lemma_join_walk(m1, h1, s1, m2, h2, s2, hp@, c, curr_height as int); if curr_height > 0 { lemma_join_walk(m1, h1, s1, m2, h2, s2, hp@, c, curr_height - 1); } }
//@ bodyend 0
    proof { lemma_join_walk(m1, h1, s1, m2, h2, s2, hp@, c, curr_height as int); c = nxt(hts(m1, s1), c, curr_height as int); b_repr(m1, h1, s1); }
//@ loop 2
    invariant
        jctx(m1, h1, s1, m2, h2, s2), jst(m1, s1, m2, h2, hp@, i as int), h2 == other.head,
        forall|l: int| 0 <= l < 33 ==> #[trigger] curr_nodes@[l] == s1[lastn(m1, s1, l)],
//@ body 2
    let ghost mm = hp@;
    proof { lemma_join_at(m1, h1, s1, m2, h2, s2, mm, i as int); lemma_join_c(m1, h1, s1, m2, h2, s2, i as int); }
//@ bodyend 2
    proof {
        lemma_join_step(m1, h1, s1, m2, h2, s2, mm, i as int);
        let p = s1[lastn(m1, s1, i as int)];
        assert(mm[p].links.update(i as int, mm[h2].links[i as int]).update(i as int, jlink(m1, s1, m2, h2, i as int)) =~= mm[p].links.update(i as int, jlink(m1, s1, m2, h2, i as int)));
        assert(hp@ =~= set_link(set_link(mm, h2, i as int, m1[p].links[i as int]), p, i as int, jlink(m1, s1, m2, h2, i as int)));
    }
//@ after 0 `for i in`
    proof { lemma_join_end(m1, h1, s1, m2, h2, s2, hp@); }
    let tracked mut hq = hp.take_rest(h2);
    // only the head of the other list is left to be dropped with it
    assert(droppable(hp@, h2));
    proof { *vx_self.heap.borrow_mut() = hq; }
