//@ prelude
// ---------------------------------------------------------------------------
// Memory reached through raw pointers: the nodes of a skip list live in an explicit heap.
// TRUSTED: the contracts below say what the dereferences, `ptr::read`, `ptr::write`,
// `ptr::drop_in_place`, `ptr::write_bytes` and the allocator do to that heap. A heap is owned
// (tracked), so two heaps never share a node.
// ---------------------------------------------------------------------------
pub mod rp {
use vstd::prelude::*;
use crate::entry::Entry;

#[derive(Clone, Copy)]
pub struct Ptr { pub a: usize }
pub open spec fn null() -> Ptr { Ptr { a: 0 } }
// a place that holds a link: a local or field (by value), or link number l of a node
#[derive(Clone, Copy)]
pub enum Slot { Loc(Ptr), Link(Ptr, usize) }

// key, value: None while the memory holds no initialised key or value
pub ghost struct NodeV<T, U> { pub key: Option<T>, pub value: Option<U>, pub links: Seq<Ptr> }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(U)]
pub tracked struct Heap<T, U> { x: core::marker::PhantomData<(T, U)> }
impl<T, U> View for Heap<T, U> {
    type V = Map<Ptr, NodeV<T, U>>;
    uninterp spec fn view(&self) -> Map<Ptr, NodeV<T, U>>;
}
impl<T, U> Heap<T, U> {
    pub axiom fn empty() -> (tracked r: Self)
        ensures r@ == Map::<Ptr, NodeV<T, U>>::empty();
    // the heap loses all its nodes to the result
    pub axiom fn take(tracked &mut self) -> (tracked r: Self)
        ensures r@ == old(self)@, final(self)@ == Map::<Ptr, NodeV<T, U>>::empty();
    // the heap keeps p only
    pub axiom fn take_rest(tracked &mut self, p: Ptr) -> (tracked r: Self)
        requires old(self)@.dom().contains(p),
        ensures r@ == old(self)@.remove(p), final(self)@ == Map::<Ptr, NodeV<T, U>>::empty().insert(p, old(self)@[p]);
    // one heap from two; no node is in both
    pub axiom fn join(tracked &mut self, tracked o: Self)
        ensures
            forall|p: Ptr| old(self)@.dom().contains(p) ==> !o@.dom().contains(p),
            final(self)@ == old(self)@.union_prefer_right(o@);
}
pub open spec fn set_link<T, U>(m: Map<Ptr, NodeV<T, U>>, p: Ptr, l: int, v: Ptr) -> Map<Ptr, NodeV<T, U>> {
    m.insert(p, NodeV { links: m[p].links.update(l, v), ..m[p] })
}
pub open spec fn live<T, U>(m: Map<Ptr, NodeV<T, U>>, p: Ptr) -> bool {
    m.dom().contains(p) && m[p].key is Some && m[p].value is Some
}
pub open spec fn ent<T, U>(m: Map<Ptr, NodeV<T, U>>, p: Ptr) -> Entry<T, U> {
    Entry { key: m[p].key->0, value: m[p].value->0 }
}
pub open spec fn set_ent<T, U>(m: Map<Ptr, NodeV<T, U>>, p: Ptr, e: Entry<T, U>) -> Map<Ptr, NodeV<T, U>> {
    m.insert(p, NodeV { key: Some(e.key), value: Some(e.value), ..m[p] })
}
pub open spec fn clr_ent<T, U>(m: Map<Ptr, NodeV<T, U>>, p: Ptr) -> Map<Ptr, NodeV<T, U>> {
    m.insert(p, NodeV { key: None, value: None, ..m[p] })
}
impl Slot {
    pub open spec fn val<T, U>(self, m: Map<Ptr, NodeV<T, U>>) -> Ptr {
        match self { Slot::Loc(p) => p, Slot::Link(p, l) => m[p].links[l as int] }
    }
    pub open spec fn ok<T, U>(self, m: Map<Ptr, NodeV<T, U>>) -> bool {
        match self { Slot::Loc(p) => true, Slot::Link(p, l) => m.dom().contains(p) && l < m[p].links.len() }
    }
    #[verifier::external_body]
    pub fn rd<T, U>(self, Tracked(h): Tracked<&Heap<T, U>>) -> (r: Ptr)
        requires self.ok(h@),
        ensures r == self.val(h@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null<T, U>(self, Tracked(h): Tracked<&Heap<T, U>>) -> (r: bool)
        requires self.ok(h@),
        ensures r == (self.val(h@) == null()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wr<T, U>(self, v: Ptr, Tracked(h): Tracked<&mut Heap<T, U>>)
        requires self.ok(old(h)@), self is Link,
        ensures final(h)@ == set_link(old(h)@, self->Link_0, self->Link_1 as int, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace<T, U>(self, v: Ptr, Tracked(h): Tracked<&mut Heap<T, U>>) -> (r: Ptr)
        requires self.ok(old(h)@), self is Link,
        ensures
            r == self.val(old(h)@),
            final(h)@ == set_link(old(h)@, self->Link_0, self->Link_1 as int, v),
    { unimplemented!() }
    // null pointers into the first n links of the node whose first link this is
    #[verifier::external_body]
    pub fn zero<T, U>(self, n: usize, Tracked(h): Tracked<&mut Heap<T, U>>)
        requires
            self is Link, self->Link_1 == 0, old(h)@.dom().contains(self->Link_0),
            n <= old(h)@[self->Link_0].links.len(),
        ensures
            final(h)@ == old(h)@.insert(self->Link_0, NodeV {
                links: Seq::new(old(h)@[self->Link_0].links.len(), |i: int| if i < n { null() } else { old(h)@[self->Link_0].links[i] }),
                ..old(h)@[self->Link_0]
            }),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn same<T, U>(a: Slot, b: Slot, Tracked(h): Tracked<&Heap<T, U>>) -> (r: bool)
    requires a.ok(h@), b.ok(h@),
    ensures r == (a.val(h@) == b.val(h@)),
{ unimplemented!() }
pub fn least(a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { a } else { b }),
{ if a < b { a } else { b } }
impl Ptr {
    #[verifier::external_body]
    pub fn is_null<T, U>(self, Tracked(h): Tracked<&Heap<T, U>>) -> (r: bool)
        ensures r == (self == null()),
    { unimplemented!() }
    // the address of link l; l may be 0 on a node without links (where nothing may be read)
    #[verifier::external_body]
    pub fn slot<T, U>(self, l: usize, Tracked(h): Tracked<&Heap<T, U>>) -> (r: Slot)
        requires h@.dom().contains(self), l < h@[self].links.len() || l == 0,
        ensures r == Slot::Link(self, l),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn links_len<T, U>(self, Tracked(h): Tracked<&Heap<T, U>>) -> (r: usize)
        requires h@.dom().contains(self),
        ensures r == h@[self].links.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a, T, U>(self, Tracked(h): Tracked<&'a Heap<T, U>>) -> (r: &'a Entry<T, U>)
        requires live(h@, self),
        ensures *r == ent(h@, self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_mut<'a, T, U>(self, Tracked(h): Tracked<&'a mut Heap<T, U>>) -> (r: &'a mut Entry<T, U>)
        requires live(old(h)@, self),
        ensures *r == ent(old(h)@, self), final(h)@ == set_ent(old(h)@, self, *final(r)),
    { unimplemented!() }
    // a reference to the entry that outlives the loan of the heap: the entry leaves the heap,
    // and is back in it, as its last user left it, when the heap is returned to its owner
    #[verifier::external_body]
    pub fn entry_lend<'a, T, U>(self, Tracked(h): Tracked<&mut &'a mut Heap<T, U>>) -> (r: &'a mut Entry<T, U>)
        requires live((*old(h))@, self),
        ensures
            *r == ent((*old(h))@, self),
            (*final(h))@ == clr_ent((*old(h))@, self),
            final(*old(h))@ == set_ent(final(*final(h))@, self, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_entry<T, U>(self, e: Entry<T, U>, Tracked(h): Tracked<&mut Heap<T, U>>)
        requires old(h)@.dom().contains(self), old(h)@[self].key is None, old(h)@[self].value is None,
        ensures final(h)@ == set_ent(old(h)@, self, e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drop_entry<T, U>(self, Tracked(h): Tracked<&mut Heap<T, U>>)
        requires live(old(h)@, self),
        ensures final(h)@ == clr_ent(old(h)@, self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_entry<T, U>(self, Tracked(h): Tracked<&mut Heap<T, U>>) -> (r: Entry<T, U>)
        requires live(old(h)@, self),
        ensures r == ent(old(h)@, self), final(h)@ == clr_ent(old(h)@, self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_entry_key<T, U>(self, Tracked(h): Tracked<&mut Heap<T, U>>) -> (r: T)
        requires old(h)@.dom().contains(self), old(h)@[self].key is Some,
        ensures Some(r) == old(h)@[self].key, final(h)@ == old(h)@.insert(self, NodeV { key: None, ..old(h)@[self] }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_entry_value<T, U>(self, Tracked(h): Tracked<&mut Heap<T, U>>) -> (r: U)
        requires old(h)@.dom().contains(self), old(h)@[self].value is Some,
        ensures Some(r) == old(h)@[self].value, final(h)@ == old(h)@.insert(self, NodeV { value: None, ..old(h)@[self] }),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn alloc<T, U>(n: usize, Tracked(h): Tracked<&mut Heap<T, U>>) -> (r: Ptr)
    ensures
        r != null(), !old(h)@.dom().contains(r),
        final(h)@ == old(h)@.insert(r, NodeV { key: None, value: None, links: Seq::new(n as nat, |i: int| null()) }),
{ unimplemented!() }
// the entry must have been moved out or dropped before
#[verifier::external_body]
pub fn dealloc<T, U>(p: Ptr, Tracked(h): Tracked<&mut Heap<T, U>>)
    requires old(h)@.dom().contains(p), old(h)@[p].key is None, old(h)@[p].value is None,
    ensures final(h)@ == old(h)@.remove(p),
{ unimplemented!() }
}
