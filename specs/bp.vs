//@ # BpMap: nodes of the B+ tree
//@ use std::cmp::Ordering => std::cmp::Ordering
//@ use std::cmp => crate::mem::cmp
//@ include vp.vs
//@ include omap.vs
//@ feature allocator_api
//@ macro src/bp_tree/mod.rs init_array
//@ file src/bp_tree/node.rs as bp_tree::node
//@ file src/bp_tree/pager.rs as bp_tree::pager
//@ use std::io => crate::disk::io
//@ use std::fs => crate::disk
//@ use std::path::Path => crate::disk::Path
//@ use serde::de::DeserializeOwned => crate::disk::DeserializeOwned
//@ use serde::ser::Serialize => crate::disk::Serialize
//@ use bincode => crate::disk::bincode
//@ use std::error => -
//@ use std::fmt => -
//@ keep bp_tree::pager::Error::From
//@ try bp_tree::pager
//@ subst bp_tree::pager::Pager::validate_key `T: Borrow<V>,` => ``
//@ subst bp_tree::pager::Pager::validate_value `U: Borrow<V>,` => ``
//@ use std::marker::PhantomData => std::marker::PhantomData
//@ keep entry::Entry::Ord
//@ inherent entry::Entry::PartialOrd
//@ inherent entry::Entry::PartialEq
//@ cmpvals entry::Entry::PartialEq::eq key
//@ fn entry::Entry::Ord::cmp
//@ attr open spec fn rank(&self) -> real { self.key.rank() }
//@ fn entry::Entry::PartialOrd::partial_cmp
    ensures
        ret matches Some(o) && (o == Ordering::Less <==> self.rank() < other.rank()) && (o == Ordering::Greater <==> self.rank() > other.rank()),
//@ fn entry::Entry::PartialEq::eq
    ensures ret == (self.rank() == other.rank()),
//@ prelude
pub mod mem {
use vstd::prelude::*;
pub use std::mem::{swap, replace, size_of};

pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;

// TRUSTED: mem::size_of of an Option is at least that of its payload and at most that and the greatest alignment (2^29), and no size exceeds isize::MAX
pub broadcast axiom fn ax_size_of<T>()
    ensures #![trigger vstd::layout::size_of::<T>()] vstd::layout::size_of::<T>() <= 0x7fff_ffff_ffff_ffff;
pub broadcast axiom fn ax_size_of_opt<T>()
    ensures #![trigger vstd::layout::size_of::<Option<T>>()] vstd::layout::size_of::<T>() <= vstd::layout::size_of::<Option<T>>() <= vstd::layout::size_of::<T>() + 0x2000_0000;
// TRUSTED: Option<u64> takes 16 bytes, PhantomData none
pub broadcast axiom fn ax_size_of_o64()
    ensures #[trigger] vstd::layout::size_of::<Option<u64>>() == 16;
pub broadcast axiom fn ax_size_of_phantom<T>()
    ensures #[trigger] vstd::layout::size_of::<std::marker::PhantomData<T>>() == 0;
// std::cmp::max on integers, verified against its contract
pub mod cmp {
use vstd::prelude::*;
pub trait Num: Sized {
    spec fn num(self) -> int;
    fn max2(a: Self, b: Self) -> (r: Self) ensures r == (if a.num() > b.num() { a } else { b });
}
impl Num for u64 { open spec fn num(self) -> int { self as int } fn max2(a: Self, b: Self) -> (r: Self) { if a > b { a } else { b } } }
impl Num for usize { open spec fn num(self) -> int { self as int } fn max2(a: Self, b: Self) -> (r: Self) { if a > b { a } else { b } } }
pub fn max<A: Num>(a: A, b: A) -> (r: A) ensures r == (if a.num() > b.num() { a } else { b }) { A::max2(a, b) }
}
pub proof fn lemma_shr()
    ensures
        forall|x: isize| x >= 0 ==> 0 <= #[trigger] (x >> 1isize) <= x,
        forall|x: isize| x > 0 ==> #[trigger] (x >> 1isize) < x,
{
    assert(forall|x: isize| x >= 0 ==> 0 <= #[trigger] (x >> 1isize) && (x >> 1isize) <= x) by (bit_vector);
    assert(forall|x: isize| x > 0 ==> #[trigger] (x >> 1isize) < x) by (bit_vector);
}
}
// `Clone` of a key gives an equal key
pub mod cl {
use vstd::prelude::*;
// TRUSTED: std::clone::Clone of a user's key type returns an equal value
pub trait Clone: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
}
impl<T: Clone> Clone for Option<T> {
    fn clone(&self) -> (r: Self) { match self { Some(x) => Some(x.clone()), None => None } }
}
}
//@ use std::mem => crate::mem
//@ spec bp_tree::node
use crate::omap::*;
use crate::cl::Clone;
use crate::entry::Entry as Ent;
broadcast use {crate::mem::ax_size_of, crate::mem::ax_size_of_opt, crate::mem::ax_size_of_o64, crate::mem::ax_size_of_phantom, vstd::layout::layout_of_primitives, vstd::layout::layout_of_unit_tuple};

// ---- what a node holds ----
pub open spec fn iks<T, U>(n: InternalNode<T, U>) -> Seq<T> { Seq::new(n.len as nat, |i: int| n.keys@[i]->Some_0) }
pub open spec fn ips<T, U>(n: InternalNode<T, U>) -> Seq<usize> { n.pointers@.subrange(0, n.len + 1) }
pub open spec fn iwf<T, U>(n: InternalNode<T, U>) -> bool {
    &&& n.len <= n.keys@.len() <= 0x7fff_ffff
    &&& n.pointers@.len() == n.keys@.len() + 1
    &&& forall|i: int| 0 <= i < n.keys@.len() ==> ((#[trigger] n.keys@[i]) is Some <==> i < n.len)
}
pub open spec fn les<T, U>(n: LeafNode<T, U>) -> Seq<Entry<T, U>> { Seq::new(n.len as nat, |i: int| n.entries@[i]->Some_0) }
pub open spec fn lwf<T, U>(n: LeafNode<T, U>) -> bool {
    &&& n.len <= n.entries@.len() <= 0x7fff_ffff
    &&& forall|i: int| 0 <= i < n.entries@.len() ==> ((#[trigger] n.entries@[i]) is Some <==> i < n.len)
}
pub open spec fn ksorted<T: Ord>(ks: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).rank() < (#[trigger] ks[j]).rank() }
// j keys are <= r
pub open spec fn is_kpos<T: Ord>(ks: Seq<T>, r: real, j: int) -> bool {
    &&& 0 <= j <= ks.len()
    &&& forall|i: int| 0 <= i < j ==> (#[trigger] ks[i]).rank() <= r
    &&& forall|i: int| j <= i < ks.len() ==> (#[trigger] ks[i]).rank() > r
}
pub proof fn lemma_kpos<T: Ord>(ks: Seq<T>, r: real) -> (j: int)
    requires ksorted(ks),
    ensures is_kpos(ks, r, j),
    decreases ks.len(),
{
    if ks.len() == 0 { 0 }
    else if ks.last().rank() <= r {
        ks.len() as int
    } else {
        let t = ks.drop_last();
        assert(ksorted(t));
        let j = lemma_kpos(t, r);
        assert forall|i: int| 0 <= i < j implies (#[trigger] ks[i]).rank() <= r by { assert(t[i] == ks[i]); }
        assert forall|i: int| j <= i < ks.len() implies (#[trigger] ks[i]).rank() > r by { if i < t.len() { assert(t[i] == ks[i]); } }
        j
    }
}
// the separators and pointers of a node to which (k, p) was added at position j
pub open spec fn kin<T>(ks: Seq<T>, j: int, k: T) -> Seq<T> { ks.insert(j, k) }
pub open spec fn pin(ps: Seq<usize>, j: int, p: usize, right: bool) -> Seq<usize> { ps.insert(if right { j + 1 } else { j }, p) }

// sizes of nodes
pub open spec fn osz<T>() -> int { vstd::layout::size_of::<Option<T>>() - vstd::layout::size_of::<T>() }
pub open spec fn ipay<T>(k: int) -> int { 8 + k + osz::<T>() }
pub open spec fn lpay<T, U>(k: int, v: int) -> int { k + v + osz::<Entry<T, U>>() }
pub open spec fn imax<T>(d: int, k: int) -> int { 32 + d * ipay::<T>(k) }
pub open spec fn lmax<T, U>(d: int, k: int, v: int) -> int { 32 + d * lpay::<T, U>(k, v) }
pub open spec fn mx(a: int, b: int) -> int { if a > b { a } else { b } }
// the bytes of an encoded leaf and of an encoded internal node, at most
pub open spec fn lenc(d: int, k: int, v: int) -> int { 29 + d * (1 + k + v) }
pub open spec fn ienc(d: int, k: int) -> int { 36 + d * (9 + k) }
// the size of a page
pub open spec fn nsize<T, U>(k: int, v: int, ld: int, id: int) -> int { mx(mx(lenc(ld, k, v), ienc(id, k)), mx(lmax::<T, U>(ld, k, v), imax::<T>(id, k))) }
pub proof fn lemma_mul(a: int, b: int, am: int, bm: int)
    requires 0 <= a <= am, 0 <= b <= bm,
    ensures 0 <= a * b <= am * bm,
{
    assert(0 <= a * b <= am * bm) by (nonlinear_arith) requires 0 <= a <= am, 0 <= b <= bm;
}
pub proof fn lemma_div(c: int, p: int)
    requires c >= 0, p >= 1,
    ensures 0 <= c / p <= c, (c / p) * p <= c,
{
    assert(0 <= c / p <= c && (c / p) * p <= c) by (nonlinear_arith) requires c >= 0, p >= 1;
}

//@ fn bp_tree::node::U32_SIZE
    ensures U32_SIZE == 4
//@ fn bp_tree::node::U64_SIZE
    ensures U64_SIZE == 8
//@ fn bp_tree::node::OPT_U64_SIZE
    ensures OPT_U64_SIZE == 16
//@ fn bp_tree::node::BLOCK_SIZE
    ensures BLOCK_SIZE == 4096
//@ cmpvals bp_tree::node::InternalNode::insert new_key
//@ cmpops bp_tree::node::InternalNode::search search_key
//@ cmpvals bp_tree::node::LeafNode::insert new_entry
//@ cmpops bp_tree::node::LeafNode::remove key
//@ subst bp_tree::node::LeafNode::remove `V: Eq + ?Sized` => `V: Ord + ?Sized`

//@ fn bp_tree::node::InternalNode::get_constant_size
    ensures ret == 32,
//@ fn bp_tree::node::InternalNode::get_payload_size
    requires key_size <= 4096,
    ensures ret == ipay::<T>(key_size as int), 8 <= ret <= 0x3000_0000,
//@ fn bp_tree::node::InternalNode::get_degree
    requires key_size <= 4096,
    ensures ret == 4064int / ipay::<T>(key_size as int), ret <= 4096, imax::<T>(ret as int, key_size as int) <= 4096,
//@ entry
    proof { lemma_div(4064, ipay::<T>(key_size as int)); }
//@ fn bp_tree::node::InternalNode::get_max_size
    requires degree <= 4096, key_size <= 4096,
    ensures ret == imax::<T>(degree as int, key_size as int),
//@ entry
    proof { lemma_mul(degree as int, ipay::<T>(key_size as int), 4096, 0x3000_0000); }
//@ fn bp_tree::node::LeafNode::get_constant_size
    ensures ret == 32,
//@ fn bp_tree::node::LeafNode::get_payload_size
    requires key_size <= 4096, value_size <= 4096,
    ensures ret == lpay::<T, U>(key_size as int, value_size as int), ret <= 0x3000_0000,
//@ fn bp_tree::node::LeafNode::get_degree
    requires key_size <= 4096, value_size <= 4096, lpay::<T, U>(key_size as int, value_size as int) >= 1,
    ensures ret == 4064int / lpay::<T, U>(key_size as int, value_size as int), ret <= 4096, lmax::<T, U>(ret as int, key_size as int, value_size as int) <= 4096,
//@ entry
    proof { lemma_div(4064, lpay::<T, U>(key_size as int, value_size as int)); }
//@ fn bp_tree::node::LeafNode::get_max_size
    requires degree <= 4096, key_size <= 4096, value_size <= 4096,
    ensures ret == lmax::<T, U>(degree as int, key_size as int, value_size as int),
//@ entry
    proof { lemma_mul(degree as int, lpay::<T, U>(key_size as int, value_size as int), 4096, 0x3000_0000); }
//@ fn bp_tree::node::Node::get_max_size
    requires leaf_degree <= 4096, internal_degree <= 4096, key_size <= 4096, value_size <= 4096,
    ensures ret == nsize::<T, U>(key_size as int, value_size as int, leaf_degree as int, internal_degree as int),
//@ entry
    proof {
        lemma_mul(leaf_degree as int, 1 + key_size + value_size, 4096, 10000);
        lemma_mul(internal_degree as int, 9 + key_size, 4096, 10000);
        assert(leaf_degree as int * (1 + key_size + value_size) == leaf_degree * (1 + key_size + value_size));
    }

//@ fn bp_tree::node::InternalNode::new
    requires degree <= 0x7fff_ffff,
    ensures
        iwf(ret), ret.len == 0, ret.keys@.len() == degree, iks(ret) =~= Seq::empty(),
        forall|i: int| 0 <= i < degree ==> (#[trigger] ret.keys@[i]) is None,
//@ loop 0
    invariant v@.len() == vx_it.index@, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is None,
//@ loop 1
    invariant v@.len() == vx_it.index@,

//@ fn bp_tree::node::InternalNode::insert
//@ attr #[verifier::rlimit(80)]
    requires
        iwf(*old(self)), ksorted(iks(*old(self))),
        old(self).len == old(self).keys@.len() ==> is_right && old(self).len >= 2,
    ensures
        iwf(*final(self)), final(self).keys@.len() == old(self).keys@.len(),
        old(self).len < old(self).keys@.len() ==> ret is None && forall|j: int| #[trigger] is_kpos(iks(*old(self)), new_key.rank(), j) ==>
            iks(*final(self)) =~= kin(iks(*old(self)), j, new_key) && ips(*final(self)) =~= pin(ips(*old(self)), j, new_pointer, is_right),
        old(self).len == old(self).keys@.len() ==> (ret matches Some((sk, Node::Internal(n)))
            && iwf(n) && n.keys@.len() == old(self).keys@.len() && forall|j: int| #[trigger] is_kpos(iks(*old(self)), new_key.rank(), j) ==> {
                let k2 = kin(iks(*old(self)), j, new_key);
                let p2 = pin(ips(*old(self)), j, new_pointer, is_right);
                let m = (old(self).len + 1) / 2;
                &&& iks(*final(self)) =~= k2.subrange(0, m)
                &&& ips(*final(self)) =~= p2.subrange(0, m + 1)
                &&& sk == k2[m]
                &&& iks(n) =~= k2.subrange(m + 1, k2.len() as int)
                &&& ips(n) =~= p2.subrange(m + 1, p2.len() as int)
            }),
//@ entry
    let ghost k0 = iks(*old(self));
    let ghost p0 = ips(*old(self));
    let ghost nk = new_key;
    let ghost np = new_pointer;
    let ghost j = lemma_kpos(k0, new_key.rank());
    let ghost k2 = kin(k0, j, nk);
    let ghost p2 = pin(p0, j, np, is_right);
    let ghost o = if is_right { 1int } else { 0int };
    proof {
        assert forall|i: int| #[trigger] is_kpos(k0, nk.rank(), i) implies i == j by {
            if i < j { assert(k0[i].rank() <= nk.rank()); }
            if j < i { assert(k0[j].rank() > nk.rank()); }
        }
    }
//@ loop 0
    invariant
        old(self).len < old(self).keys@.len(), iwf(*old(self)), ksorted(k0), k0 == iks(*old(self)), p0 == ips(*old(self)),
        is_kpos(k0, nk.rank(), j), k2 == kin(k0, j, nk), p2 == pin(p0, j, np, is_right), offset == o, o == (if is_right { 1int } else { 0 }),
        index <= self.len, self.len == old(self).len, self.keys@.len() == old(self).keys@.len(), self.pointers@.len() == self.keys@.len() + 1,
        forall|i: int| 0 <= i < self.keys@.len() ==> ((#[trigger] self.keys@[i]) is Some <==> i < self.len),
        forall|i: int| index <= i < self.len ==> (#[trigger] self.keys@[i])->Some_0 == k0[i],
        forall|i: int| 0 <= i < index ==> (#[trigger] self.keys@[i])->Some_0 == k2[i],
        new_key == (if index <= j { nk } else { k0[index - 1] }),
        new_pointer == (if index <= j { np } else { p0[index - 1 + o] }),
        forall|i: int| index + o <= i <= self.len ==> (#[trigger] self.pointers@[i]) == p0[i],
        forall|i: int| 0 <= i < index + o ==> (#[trigger] self.pointers@[i]) == p2[i],
    ensures index == self.len,
    decreases self.len - index,
//@ body 0
    proof { assert(k0[index as int].rank() <= nk.rank() <==> index < j); if index > j { assert(k0[index - 1].rank() < k0[index as int].rank()); } }
//@ loop 1
    invariant
        old(self).len == old(self).keys@.len(), old(self).len >= 2, iwf(*old(self)), ksorted(k0), k0 == iks(*old(self)), p0 == ips(*old(self)),
        is_kpos(k0, nk.rank(), j), k2 == kin(k0, j, nk), p2 == pin(p0, j, np, true), offset == 1, internal_degree == old(self).len,
        index <= self.len, self.len == old(self).len, self.keys@.len() == old(self).keys@.len(), self.pointers@.len() == self.keys@.len() + 1,
        split_node.keys@.len() == internal_degree, split_node.pointers@.len() == internal_degree + 1, internal_degree <= 0x7fff_ffff,
        forall|i: int| index <= i < self.len ==> #[trigger] self.keys@[i] == Some(k0[i]),
        forall|i: int| 0 <= i < index && i <= (internal_degree + 1) / 2 ==> #[trigger] self.keys@[i] == Some(k2[i]),
        forall|i: int| (internal_degree + 1) / 2 < i < index ==> (#[trigger] self.keys@[i]) is None,
        forall|i: int| 0 <= i < internal_degree ==> #[trigger] split_node.keys@[i] == (if i < index - (internal_degree + 1) / 2 - 1 { Some(k2[i + (internal_degree + 1) / 2 + 1]) } else { None }),
        new_key == (if index <= j { nk } else { k0[index - 1] }),
        new_pointer == (if index <= j { np } else { p0[index as int] }),
        forall|i: int| index + 1 <= i <= self.len ==> (#[trigger] self.pointers@[i]) == p0[i],
        forall|i: int| 0 <= i < index + 1 && i <= (internal_degree + 1) / 2 + 1 ==> (#[trigger] self.pointers@[i]) == p2[i],
        forall|i: int| 1 <= i < index - (internal_degree + 1) / 2 ==> (#[trigger] split_node.pointers@[i]) == p2[i + (internal_degree + 1) / 2 + 1],
    decreases self.len - index,
//@ body 1
    proof { assert(k0[index as int].rank() <= nk.rank() <==> index < j); if index > j { assert(k0[index - 1].rank() < k0[index as int].rank()); } }

//@ fn bp_tree::node::InternalNode::remove_at
    requires iwf(*old(self)), remove_index < old(self).len,
    ensures
        iwf(*final(self)), final(self).keys@.len() == old(self).keys@.len(), final(self).len == old(self).len - 1,
        iks(*final(self)) =~= iks(*old(self)).remove(remove_index as int),
        ips(*final(self)) =~= ips(*old(self)).remove(if is_right { remove_index + 1 } else { remove_index as int }),
        ret == (iks(*old(self))[remove_index as int], ips(*old(self))[if is_right { remove_index + 1 } else { remove_index as int }]),
//@ entry
    let ghost k0 = old(self).keys@;
    let ghost p0 = old(self).pointers@;
//@ loop 0
    invariant
        iwf(*old(self)), k0 == old(self).keys@, p0 == old(self).pointers@, self.len + 1 == old(self).len, remove_index <= index <= self.len,
        offset == (if is_right { 1int } else { 0 }),
        self.keys@.len() == k0.len(), self.pointers@.len() == p0.len(),
        forall|i: int| 0 <= i < k0.len() ==> #[trigger] self.keys@[i] == (if i < remove_index || i > index { k0[i] } else if i < index { k0[i + 1] } else { k0[remove_index as int] }),
        forall|i: int| 0 <= i < p0.len() ==> #[trigger] self.pointers@[i] == (if i < remove_index + offset || i > index + offset { p0[i] } else if i < index + offset { p0[i + 1] } else { p0[remove_index + offset] }),

//@ fn bp_tree::node::InternalNode::search
    requires iwf(*self), ksorted(iks(*self)), self.keys@.len() > 0,
    ensures is_kpos(iks(*self), search_key.rank(), ret as int),
//@ loop 0
    invariant
        iwf(*self), ksorted(iks(*self)), 0 <= lo <= hi + 1 <= self.keys@.len(), hi + 1 <= 0x7fff_ffff, lo <= self.len,
        forall|i: int| 0 <= i < lo ==> (#[trigger] iks(*self)[i]).rank() <= search_key.rank(),
        forall|i: int| hi < i < self.len ==> (#[trigger] iks(*self)[i]).rank() > search_key.rank(),
    decreases hi + 1 - lo,
//@ body 0
    proof { crate::mem::lemma_shr(); }
//@ before 0 `match self.keys`
    proof {
        let ks = iks(*self);
        let m = mid as int;
        assert forall|i: int| 0 <= i < self.len && m < self.len implies (i <= m ==> (#[trigger] ks[i]).rank() <= ks[m].rank()) && (i >= m ==> ks[i].rank() >= ks[m].rank()) by {}
    }
//@ fn bp_tree::node::InternalNode::merge
    requires iwf(*old(self)), iwf(*old(node)), old(self).len + old(node).len < old(self).keys@.len(),
    ensures
        iwf(*final(self)), final(self).keys@.len() == old(self).keys@.len(), final(node).len == 0,
        iks(*final(self)) =~= iks(*old(self)).push(split_key) + iks(*old(node)),
        ips(*final(self)) =~= ips(*old(self)) + ips(*old(node)),
//@ entry
    let ghost k0 = old(self).keys@;
    let ghost p0 = old(self).pointers@;
    let ghost l0 = old(self).len;
    let ghost k1 = old(node).keys@;
    let ghost p1 = old(node).pointers@;
//@ loop 0
    invariant
        iwf(*old(self)), iwf(*old(node)), k0 == old(self).keys@, p0 == old(self).pointers@, k1 == old(node).keys@, p1 == old(node).pointers@,
        self.len == old(self).len, node.len == old(node).len, self.len + node.len < self.keys@.len(), index <= node.len,
        self.keys@.len() == k0.len(), self.pointers@.len() == p0.len(), node.keys@.len() == k1.len(), node.pointers@.len() == p1.len(),
        forall|i: int| 0 <= i < k0.len() ==> #[trigger] self.keys@[i] == (if i == self.len { Some(split_key) } else if self.len < i <= self.len + index { k1[i - self.len - 1] } else { k0[i] }),
        forall|i: int| 0 <= i < p0.len() ==> #[trigger] self.pointers@[i] == (if self.len < i <= self.len + index { p1[i - self.len - 1] } else { p0[i] }),
        forall|i: int| index <= i < k1.len() ==> #[trigger] node.keys@[i] == k1[i],
        forall|i: int| index <= i < p1.len() ==> #[trigger] node.pointers@[i] == p1[i],

//@ fn bp_tree::node::LeafNode::new
    requires degree <= 0x7fff_ffff,
    ensures
        lwf(ret), ret.len == 0, ret.entries@.len() == degree, les(ret) =~= Seq::empty(), ret.next_leaf is None,
        forall|i: int| 0 <= i < degree ==> (#[trigger] ret.entries@[i]) is None,
//@ loop 0
    invariant v@.len() == vx_it.index@, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is None,

//@ fn bp_tree::node::LeafNode::insert
//@ attr #[verifier::rlimit(100)]
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
    requires lwf(*old(self)), sorted(les(*old(self))), old(self).entries@.len() >= 1,
    ensures
        lwf(*final(self)), final(self).entries@.len() == old(self).entries@.len(), final(self).next_leaf == old(self).next_leaf,
        hask(les(*old(self)), rk(new_entry)) ==> ret == Some(InsertCases::Entry(les(*old(self))[pos(les(*old(self)), rk(new_entry))])) && les(*final(self)) =~= ins(les(*old(self)), new_entry),
        !hask(les(*old(self)), rk(new_entry)) && old(self).len < old(self).entries@.len() ==> ret is None && les(*final(self)) =~= ins(les(*old(self)), new_entry),
        !hask(les(*old(self)), rk(new_entry)) && old(self).len == old(self).entries@.len() ==> {
            let s = ins(les(*old(self)), new_entry);
            let m = (old(self).len + 2) / 2;
            (ret matches Some(InsertCases::Split { split_key, split_node: Node::Leaf(n) })
            && lwf(n) && n.entries@.len() == old(self).entries@.len() && n.next_leaf == old(self).next_leaf && split_key == s[m].key
            && les(n) =~= s.subrange(m, s.len() as int) && les(*final(self)) =~= s.subrange(0, m))
        },
//@ entry
    let ghost e0 = les(*old(self));
    let ghost ne = new_entry;
    let ghost p = pos(e0, rk(new_entry));
    let ghost s = ins(e0, ne);
    let ghost d = old(self).entries@.len();
    proof { lemma_pos(e0, rk(new_entry)); }
//@ loop 0
    invariant
        index <= self.len, index > p ==> !hask(e0, rk(ne)),
        forall|i: int| 0 <= i < self.entries@.len() ==> ((#[trigger] self.entries@[i]) is Some <==> i < self.len),
        forall|i: int| index <= i < self.len ==> (#[trigger] self.entries@[i])->Some_0 == e0[i],
        forall|i: int| 0 <= i < index ==> (#[trigger] self.entries@[i])->Some_0 == s[i],
        new_entry == (if index <= p { ne } else { e0[index - 1] }),
        self.len == old(self).len, self.next_leaf == old(self).next_leaf, self.entries@.len() == d, lwf(*old(self)),
        e0 == les(*old(self)), 0 <= p <= e0.len(), is_pos(e0, rk(ne), p), p == pos(e0, rk(ne)), s == ins(e0, ne), old(self).len < d,
    ensures index == self.len,
    decreases self.len - index,
//@ body 0
    proof { assert(rk(e0[index as int]) < rk(ne) <==> index < p); if index > p { assert(rk(e0[index - 1]) < rk(e0[index as int])); } }
//@ loop 1
    invariant
        !hask(e0, rk(ne)), index <= d, d == leaf_degree, old(self).len == d, split_node.entries@.len() == d, split_node.len == 0,
        forall|i: int| index <= i < d ==> #[trigger] self.entries@[i] == Some(e0[i]),
        forall|i: int| 0 <= i < index && i <= d / 2 ==> #[trigger] self.entries@[i] == Some(s[i]),
        forall|i: int| d / 2 < i < index ==> (#[trigger] self.entries@[i]) is None,
        forall|i: int| 0 <= i < d ==> #[trigger] split_node.entries@[i] == (if i < index - d / 2 - 1 { Some(s[i + d / 2 + 1]) } else { None }),
        new_entry == (if index <= p { ne } else { e0[index - 1] }),
        self.len == old(self).len, self.next_leaf == old(self).next_leaf, self.entries@.len() == d, lwf(*old(self)),
        e0 == les(*old(self)), 0 <= p <= e0.len(), is_pos(e0, rk(ne), p), p == pos(e0, rk(ne)), s == ins(e0, ne),
//@ body 1
    proof { assert(rk(e0[index as int]) < rk(ne) <==> index < p); if index > p { assert(rk(e0[index - 1]) < rk(e0[index as int])); } }

//@ fn bp_tree::node::LeafNode::remove_at
    requires lwf(*old(self)), remove_index < old(self).len,
    ensures
        lwf(*final(self)), final(self).entries@.len() == old(self).entries@.len(), final(self).len == old(self).len - 1, final(self).next_leaf == old(self).next_leaf,
        les(*final(self)) =~= les(*old(self)).remove(remove_index as int), ret == les(*old(self))[remove_index as int],
//@ entry
    let ghost e0 = old(self).entries@;
//@ loop 0
    invariant
        lwf(*old(self)), e0 == old(self).entries@, self.len + 1 == old(self).len, remove_index <= index <= self.len, self.entries@.len() == e0.len(), self.next_leaf == old(self).next_leaf,
        forall|i: int| 0 <= i < e0.len() ==> #[trigger] self.entries@[i] == (if i < remove_index || i > index { e0[i] } else if i < index { e0[i + 1] } else { e0[remove_index as int] }),

//@ fn bp_tree::node::LeafNode::remove
    requires lwf(*old(self)), sorted(les(*old(self))),
    ensures
        lwf(*final(self)), final(self).entries@.len() == old(self).entries@.len(), final(self).next_leaf == old(self).next_leaf,
        les(*final(self)) =~= rem(les(*old(self)), key.rank()), ret == at(les(*old(self)), key.rank()),
//@ entry
    let ghost e0 = les(*old(self));
    let ghost p = pos(e0, key.rank());
    let ghost h = hask(e0, key.rank());
    proof { lemma_pos(e0, key.rank()); }
//@ loop 0
    invariant
        lwf(*old(self)), sorted(e0), e0 == les(*old(self)), p == pos(e0, key.rank()), h == hask(e0, key.rank()), is_pos(e0, key.rank(), p),
        self.len == old(self).len, index <= self.len, self.entries@.len() == old(self).entries@.len(), self.next_leaf == old(self).next_leaf,
        removed == (h && index > p),
        forall|i: int| 0 <= i < self.entries@.len() ==> ((#[trigger] self.entries@[i]) is Some <==> i < self.len),
        !removed ==> forall|i: int| 0 <= i < self.len ==> (#[trigger] self.entries@[i])->Some_0 == e0[i],
        removed ==> ({ let q = if index < self.len { index as int } else { self.len - 1 };
            forall|i: int| 0 <= i < self.len ==> (#[trigger] self.entries@[i])->Some_0 == (if i < p || i > q { e0[i] } else if i < q { e0[i + 1] } else { e0[p] }) }),
//@ body 0
    proof { assert(rk(e0[index as int]) < key.rank() <==> index < p); if h && index > p { assert(rk(e0[p]) < rk(e0[index as int])); } }

//@ fn bp_tree::node::LeafNode::search
    requires lwf(*self), sorted(les(*self)), self.entries@.len() > 0,
    ensures ret == (if hask(les(*self), search_key.rank()) { Some(pos(les(*self), search_key.rank()) as usize) } else { None }),
        ret matches Some(i) ==> i < self.len,
//@ entry
    proof { lemma_pos(les(*self), search_key.rank()); }
//@ loop 0
    invariant
        lwf(*self), sorted(les(*self)), 0 <= lo <= hi + 1 <= self.entries@.len(), hi + 1 <= 0x7fff_ffff, lo <= self.len,
        forall|i: int| 0 <= i < lo ==> rk(#[trigger] les(*self)[i]) < search_key.rank(),
        forall|i: int| hi < i < self.len ==> rk(#[trigger] les(*self)[i]) > search_key.rank(),
        is_pos(les(*self), search_key.rank(), pos(les(*self), search_key.rank())),
    decreases hi + 1 - lo,
//@ body 0
    proof { crate::mem::lemma_shr(); }
//@ before 0 `match self.entries`
    proof { if mid < self.len { lemma_at_mem(les(*self), mid as int); } }

//@ fn bp_tree::node::LeafNode::merge
    requires lwf(*old(self)), lwf(*old(node)), old(self).len + old(node).len <= old(self).entries@.len(),
    ensures
        lwf(*final(self)), final(self).entries@.len() == old(self).entries@.len(), final(node).len == 0,
        les(*final(self)) =~= les(*old(self)) + les(*old(node)), final(self).next_leaf == old(node).next_leaf,
//@ entry
    let ghost k0 = old(self).entries@;
    let ghost k1 = old(node).entries@;
//@ loop 0
    invariant
        lwf(*old(self)), lwf(*old(node)), k0 == old(self).entries@, k1 == old(node).entries@, self.next_leaf == old(node).next_leaf,
        self.len == old(self).len, node.len == old(node).len, self.len + node.len <= self.entries@.len(), index <= node.len,
        self.entries@.len() == k0.len(), node.entries@.len() == k1.len(),
        forall|i: int| 0 <= i < k0.len() ==> #[trigger] self.entries@[i] == (if self.len <= i < self.len + index { k1[i - self.len] } else { k0[i] }),
        forall|i: int| index <= i < k1.len() ==> #[trigger] node.entries@[i] == k1[i],

// ---------------------------------------------------------------------------
// files, and the encoding of values in them
// ---------------------------------------------------------------------------
//@ prelude
pub mod disk {
use vstd::prelude::*;
pub trait Serialize {}
pub trait DeserializeOwned {}
pub struct Path;
// the bytes bincode writes for a value
pub uninterp spec fn enc<A: ?Sized>(a: &A) -> Seq<u8>;
pub uninterp spec fn dec<A>(b: Seq<u8>) -> A;
// TRUSTED: bincode encodes &A as A
pub broadcast axiom fn ax_enc_ref<A>(a: &A)
    ensures #[trigger] enc::<&A>(&a) == enc::<A>(a);
// TRUSTED: what bincode has encoded, it decodes again, also with bytes after it (serde round trip of the key and value types)
pub broadcast axiom fn ax_dec<A>(a: &A, b: Seq<u8>)
    requires enc(a).is_prefix_of(b),
    ensures #![trigger enc(a).is_prefix_of(b)] dec::<A>(b) == *a;
pub uninterp spec fn io_fault(e: io::Error) -> bool;
pub uninterp spec fn ser_fault(e: bincode::Error) -> bool;
// writing beyond the end makes the file longer, bytes in between are 0
pub open spec fn overwrite(b: Seq<u8>, at: int, d: Seq<u8>) -> Seq<u8> {
    Seq::new((if at + d.len() <= b.len() { b.len() as int } else { at + d.len() }) as nat, |i: int| if at <= i < at + d.len() { d[i - at] } else if i < b.len() { b[i] } else { 0 })
}

#[verifier::external_body]
pub struct File { f: u8 }
impl File {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn cur(&self) -> int;
    // TRUSTED: std::fs::File is an array of fewer than 2^63 bytes with a position; a failing call reports an error of the device
    pub broadcast axiom fn ax_size(&self)
        ensures #[trigger] self.bytes().len() <= 0x7fff_ffff_ffff_ffff;
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: Result<(), io::Error>)
        ensures
            r is Ok ==> final(self).bytes().len() == n && forall|i: int| 0 <= i < n && i < old(self).bytes().len() ==> #[trigger] final(self).bytes()[i] == old(self).bytes()[i],
            r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: io::SeekFrom) -> (r: Result<u64, io::Error>)
        ensures
            r is Ok ==> final(self).bytes() == old(self).bytes() && (to matches io::SeekFrom::Start(n) ==> final(self).cur() == n),
            r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, d: &[u8]) -> (r: Result<(), io::Error>)
        ensures
            r is Ok ==> final(self).bytes() == overwrite(old(self).bytes(), old(self).cur(), d@),
            r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, d: &mut [u8]) -> (r: Result<(), io::Error>)
        ensures
            final(self).bytes() == old(self).bytes(), final(d)@.len() == old(d)@.len(),
            r is Ok ==> old(self).cur() + old(d)@.len() <= old(self).bytes().len() && final(d)@ == old(self).bytes().subrange(old(self).cur(), old(self).cur() + old(d)@.len()),
            r matches Err(e) ==> io_fault(e) || old(self).cur() + old(d)@.len() > old(self).bytes().len(),
    { unimplemented!() }
}
pub struct OpenOptions { o: u8 }
impl OpenOptions {
    pub fn new() -> Self { OpenOptions { o: 0 } }
    pub fn read(self, b: bool) -> Self { self }
    pub fn write(self, b: bool) -> Self { self }
    pub fn create(self, b: bool) -> Self { self }
    #[verifier::external_body]
    pub fn open<P>(self, p: P) -> (r: Result<File, io::Error>)
        ensures r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
}
pub mod io {
    pub struct Error { e: u8 }
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    pub trait Read {}
    pub trait Write {}
    pub trait Seek {}
}
pub mod bincode {
    use vstd::prelude::*;
    use super::*;
    pub struct Error { e: u8 }
    #[verifier::external_body]
    pub fn serialize<A: ?Sized>(a: &A) -> (r: Result<Vec<u8>, Error>)
        ensures r matches Ok(v) ==> v@ == enc(a), r matches Err(e) ==> ser_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialized_size<A: ?Sized>(a: &A) -> (r: Result<u64, Error>)
        ensures r matches Ok(n) ==> n == enc(a).len(), r matches Err(e) ==> ser_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<A>(b: &[u8]) -> (r: Result<A, Error>)
        ensures enc(&dec::<A>(b@)).is_prefix_of(b@) ==> r == Ok::<A, Error>(dec::<A>(b@)),
    { unimplemented!() }
}
}
//@ spec bp_tree::pager
use crate::disk::*;
use crate::bp_tree::node::*;
use crate::entry::Entry;
global size_of usize == 8;
global layout Metadata is size == 72, align == 8;
broadcast use {ax_enc_ref, ax_dec, File::ax_size, vstd::layout::layout_of_primitives};
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: io::Error) -> Error { Error::IOError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<bincode::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: bincode::Error) -> Error { Error::SerdeError(e) } }
// the device failed, or a key or value type refused to be serialized
pub open spec fn fault(e: Error) -> bool { match e { Error::IOError(x) => io_fault(x), Error::SerdeError(x) => ser_fault(x) } }

pub open spec fn md_ok(m: Metadata) -> bool {
    m.key_size <= 4096 && m.value_size <= 4096 && 1 <= m.leaf_degree <= 4096 && 2 <= m.internal_degree <= 4096 && m.pages >= 1
}
pub open spec fn mns<T, U>(m: Metadata) -> int { nsize::<T, U>(m.key_size as int, m.value_size as int, m.leaf_degree as int, m.internal_degree as int) }
pub open spec fn off(ns: int, i: int) -> int { 72 + ns * i }
pub open spec fn reg(b: Seq<u8>, ns: int, i: int) -> Seq<u8> { b.subrange(off(ns, i), off(ns, i) + ns) }
// the pages in the file hold these nodes
pub open spec fn laid<T, U>(b: Seq<u8>, ns: int, pgs: Seq<Node<T, U>>) -> bool {
    &&& b.len() == off(ns, pgs.len() as int)
    &&& forall|i: int| 0 <= i < pgs.len() ==> enc(&(#[trigger] pgs[i])).is_prefix_of(reg(b, ns, i))
}
pub open spec fn hdr(b: Seq<u8>, m: Metadata) -> bool { b.len() >= 72 && enc(&m).is_prefix_of(b.subrange(0, 72)) }
impl<T, U> Pager<T, U> {
    pub open spec fn ns(&self) -> int { mns::<T, U>(self.metadata) }
    // the nodes on disk
    pub open spec fn pg(&self) -> Seq<Node<T, U>> { Seq::new(self.metadata.pages as nat, |i: int| dec::<Node<T, U>>(reg(self.db_file.bytes(), self.ns(), i))) }
    #[verifier::opaque]
    pub open spec fn pinv(&self) -> bool {
        &&& md_ok(self.metadata)
        &&& hdr(self.db_file.bytes(), self.metadata)
        &&& laid(self.db_file.bytes(), self.ns(), self.pg())
    }
}

// ---- what the pager writes ----
// TRUSTED: the bincode encoding of nodes: a u32 tag per variant, 8 bytes per usize, u64 or length, a byte per Option
pub open spec fn olen<A>(o: Option<A>) -> nat { match o { Some(a) => 1 + enc(&a).len(), None => 1 } }
pub open spec fn slen<A>(s: Seq<Option<A>>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { slen(s.drop_last()) + olen(s.last()) } }
pub axiom fn ax_enc_leaf<T, U>(n: LeafNode<T, U>)
    ensures enc(&Node::Leaf(n)).len() == 4 + 8 + 8 + slen(n.entries@) + (if n.next_leaf is Some { 9int } else { 1 });
pub axiom fn ax_enc_internal<T, U>(n: InternalNode<T, U>)
    ensures enc(&Node::Internal(n)).len() == 4 + 8 + 8 + slen(n.keys@) + 8 + 8 * n.pointers@.len();
pub axiom fn ax_enc_free<T, U>(o: Option<usize>)
    ensures enc(&Node::<T, U>::Free(o)).len() == 4 + (if o is Some { 9int } else { 1 });
pub axiom fn ax_enc_entry<T, U>(e: Entry<T, U>)
    ensures enc(&e).len() == enc(&e.key).len() + enc(&e.value).len();
pub axiom fn ax_enc_meta(m: Metadata)
    ensures enc(&m).len() == 56 + (if m.free_page is Some { 9int } else { 1 });

pub proof fn lemma_slen<A>(s: Seq<Option<A>>, b: int)
    requires forall|i: int| 0 <= i < s.len() ==> olen(#[trigger] s[i]) <= b,
    ensures slen(s) <= s.len() * b,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies olen(#[trigger] s.drop_last()[i]) <= b by { assert(s[i] == s.drop_last()[i]); }
        lemma_slen(s.drop_last(), b);
        assert(olen(s[s.len() - 1]) <= b);
        assert((s.len() - 1) * b + b == s.len() * b) by (nonlinear_arith);
    } else { assert(0 * b == 0); }
}
// keys of at most k bytes, values of at most v bytes
pub open spec fn kfit<T>(x: T, k: int) -> bool { enc(&x).len() <= k }
pub open spec fn efit<T, U>(e: Entry<T, U>, k: int, v: int) -> bool { enc(&e.key).len() <= k && enc(&e.value).len() <= v }
pub open spec fn nfit<T, U>(n: Node<T, U>, m: Metadata) -> bool {
    match n {
        Node::Leaf(n) => n.entries@.len() == m.leaf_degree && forall|i: int| 0 <= i < n.entries@.len() ==> ((#[trigger] n.entries@[i]) matches Some(e) ==> efit(e, m.key_size as int, m.value_size as int)),
        Node::Internal(n) => n.keys@.len() == m.internal_degree && n.pointers@.len() == m.internal_degree + 1 && forall|i: int| 0 <= i < n.keys@.len() ==> ((#[trigger] n.keys@[i]) matches Some(e) ==> kfit(e, m.key_size as int)),
        Node::Free(_) => true,
    }
}
// every node fits its page
pub proof fn lemma_nfit<T, U>(n: Node<T, U>, m: Metadata)
    requires nfit(n, m), md_ok(m),
    ensures enc(&n).len() <= mns::<T, U>(m), mns::<T, U>(m) <= 0x400_0000_0000, mns::<T, U>(m) >= 38,
{
    let k = m.key_size as int;
    let v = m.value_size as int;
    lemma_ns::<T, U>(m);
    match n {
        Node::Leaf(n) => {
            ax_enc_leaf(n);
            assert forall|i: int| 0 <= i < n.entries@.len() implies olen(#[trigger] n.entries@[i]) <= 1 + k + v by { if n.entries@[i] is Some { ax_enc_entry(n.entries@[i]->Some_0); } }
            lemma_slen(n.entries@, 1 + k + v);
        }
        Node::Internal(n) => {
            ax_enc_internal(n);
            lemma_slen(n.keys@, 1 + k);
            assert(m.internal_degree * (1 + k) + 8 * m.internal_degree == m.internal_degree * (9 + k)) by (nonlinear_arith);
        }
        Node::Free(o) => { ax_enc_free::<T, U>(o); }
    }
}
pub proof fn lemma_ns<T, U>(m: Metadata)
    requires md_ok(m),
    ensures 38 <= mns::<T, U>(m) <= 0x400_0000_0000,
{
    broadcast use {crate::mem::ax_size_of, crate::mem::ax_size_of_opt};
    let k = m.key_size as int;
    let v = m.value_size as int;
    lemma_mul(m.leaf_degree as int, 1 + k + v, 4096, 10000);
    lemma_mul(m.internal_degree as int, 9 + k, 4096, 10000);
    lemma_mul(m.leaf_degree as int, lpay::<T, U>(k, v), 4096, 0x3000_0000);
    lemma_mul(m.internal_degree as int, ipay::<T>(k), 4096, 0x3000_0000);
    assert(m.internal_degree * (9 + k) >= 2) by (nonlinear_arith) requires m.internal_degree >= 2, k >= 0;
}
pub proof fn lemma_off(ns: int, i: int, n: int)
    requires 0 <= i < n, ns >= 1,
    ensures 72 <= off(ns, i) <= off(ns, i) + ns == off(ns, i + 1) <= off(ns, n), off(ns, n + 1) == off(ns, n) + ns, off(ns, 0) == 72, off(ns, 1) == 72 + ns, n <= off(ns, n),
{
    assert(ns * (i + 1) == ns * i + ns) by (nonlinear_arith);
    assert(ns * (n + 1) == ns * n + ns) by (nonlinear_arith);
    assert(ns * (i + 1) <= ns * n) by (nonlinear_arith) requires i < n, ns >= 1;
    assert(0 <= ns * i) by (nonlinear_arith) requires i >= 0, ns >= 1;
    assert(n <= ns * n) by (nonlinear_arith) requires n >= 1, ns >= 1;
    assert(ns * 0 == 0 && ns * 1 == ns);
}
pub proof fn lemma_disj(ns: int, i: int, j: int, n: int)
    requires 0 <= i < n, 0 <= j < n, ns >= 1, i != j,
    ensures off(ns, i) + ns <= off(ns, j) || off(ns, j) + ns <= off(ns, i),
{
    if i < j { lemma_off(ns, i, j); } else { lemma_off(ns, j, i); }
}
// a page is overwritten
pub proof fn lemma_write<T, U>(b: Seq<u8>, ns: int, pgs: Seq<Node<T, U>>, i: int, n: Node<T, U>)
    requires laid(b, ns, pgs), 0 <= i < pgs.len(), ns >= 1, enc(&n).len() <= ns,
    ensures ({
        let c = overwrite(b, off(ns, i), enc(&n));
        off(ns, i) + enc(&n).len() <= b.len() && laid(c, ns, pgs.update(i, n)) && (b.len() >= 72 ==> c.subrange(0, 72) == b.subrange(0, 72)) && c.len() == b.len()
    }),
{
    let c = overwrite(b, off(ns, i), enc(&n));
    lemma_off(ns, i, pgs.len() as int);
    assert(c.len() == b.len());
    if b.len() >= 72 { assert(c.subrange(0, 72) =~= b.subrange(0, 72)); }
    assert forall|j: int| 0 <= j < pgs.len() implies enc(&(#[trigger] pgs.update(i, n)[j])).is_prefix_of(reg(c, ns, j)) by {
        lemma_off(ns, j, pgs.len() as int);
        if j != i {
            lemma_disj(ns, i, j, pgs.len() as int);
            assert(reg(c, ns, j) =~= reg(b, ns, j));
            assert(enc(&pgs[j]).is_prefix_of(reg(b, ns, j)));
        } else {
            assert(enc(&n) =~= reg(c, ns, i).subrange(0, enc(&n).len() as int));
        }
    }
}
// the header is overwritten
pub broadcast proof fn lemma_header<T, U>(b: Seq<u8>, ns: int, pgs: Seq<Node<T, U>>, m: Metadata)
    requires #[trigger] laid(b, ns, pgs), ns >= 1, pgs.len() >= 1,
    ensures ({
        let c = #[trigger] overwrite(b, 0, enc(&m));
        enc(&m).len() <= b.len() && laid(c, ns, pgs) && hdr(c, m)
    }),
{
    let c = overwrite(b, 0, enc(&m));
    ax_enc_meta(m);
    lemma_off(ns, 0, pgs.len() as int);
    assert forall|j: int| 0 <= j < pgs.len() implies enc(&(#[trigger] pgs[j])).is_prefix_of(reg(c, ns, j)) by {
        lemma_off(ns, j, pgs.len() as int);
        assert(reg(c, ns, j) =~= reg(b, ns, j));
        assert(enc(&pgs[j]).is_prefix_of(reg(b, ns, j)));
    }
    assert(enc(&m) =~= c.subrange(0, 72).subrange(0, enc(&m).len() as int));
}
// a page is added at the end, and written
pub proof fn lemma_grow<T, U>(b: Seq<u8>, c: Seq<u8>, ns: int, pgs: Seq<Node<T, U>>, n: Node<T, U>, at: int)
    requires
        laid(b, ns, pgs), at == off(ns, pgs.len() as int), ns >= 1, enc(&n).len() <= ns, c.len() == off(ns, (pgs.len() + 1) as int), pgs.len() >= 1,
        forall|i: int| 0 <= i < c.len() && i < b.len() ==> #[trigger] c[i] == b[i],
    ensures ({
        let d = overwrite(c, at, enc(&n));
        off(ns, pgs.len() as int) + enc(&n).len() <= c.len() && laid(d, ns, pgs.push(n)) && off(ns, (pgs.len() + 1) as int) == off(ns, pgs.len() as int) + ns
    }),
{
    let k = pgs.len() as int;
    let d = overwrite(c, off(ns, k), enc(&n));
    lemma_off(ns, k, k + 1);
    assert(d.len() == c.len());
    assert forall|j: int| 0 <= j < k + 1 implies enc(&(#[trigger] pgs.push(n)[j])).is_prefix_of(reg(d, ns, j)) by {
        if j < k {
            lemma_off(ns, j, k);
            assert(reg(d, ns, j) =~= reg(b, ns, j));
            assert(enc(&pgs[j]).is_prefix_of(reg(b, ns, j)));
        } else {
            assert(enc(&n) =~= reg(d, ns, k).subrange(0, enc(&n).len() as int));
        }
    }
}
pub broadcast proof fn lemma_grown<T, U>(b: Seq<u8>, c: Seq<u8>, ns: int, pgs: Seq<Node<T, U>>, n: Node<T, U>, at: int, m: Metadata)
    requires
        #[trigger] laid(b, ns, pgs), at == off(ns, pgs.len() as int), ns >= 1, enc(&n).len() <= ns, c.len() == off(ns, (pgs.len() + 1) as int), pgs.len() >= 1,
        forall|i: int| 0 <= i < c.len() && i < b.len() ==> #[trigger] c[i] == b[i],
    ensures ({
        let d = overwrite(c, at, enc(&n));
        let f = #[trigger] overwrite(overwrite(c, at, enc(&n)), 0, enc(&m));
        at + enc(&n).len() <= c.len() && enc(&m).len() <= d.len() && laid(f, ns, pgs.push(n)) && hdr(f, m)
    }),
{
    lemma_grow(b, c, ns, pgs, n, at);
    lemma_header(overwrite(c, at, enc(&n)), ns, pgs.push(n), m);
}
// a file of one page
pub broadcast proof fn lemma_one<T, U>(b: Seq<u8>, m: Metadata, n: Node<T, U>)
    requires b.len() > 72, enc(&n).len() <= b.len() - 72,
    ensures ({
        let c = overwrite(b, 0, enc(&m));
        let d = #[trigger] overwrite(overwrite(b, 0, enc(&m)), 72, enc(&n));
        let ns = b.len() - 72;
        enc(&m).len() <= 72 && c.len() == b.len() && 72 + enc(&n).len() <= c.len() && laid(d, ns, seq![n]) && hdr(d, m)
    }),
{
    let c = overwrite(b, 0, enc(&m));
    let d = overwrite(c, 72, enc(&n));
    let ns = b.len() - 72;
    ax_enc_meta(m);
    lemma_off(ns, 0, 1);
    assert(d.len() == b.len());
    let pgs = seq![n];
    assert forall|j: int| 0 <= j < 1 implies enc(&(#[trigger] pgs[j])).is_prefix_of(reg(d, ns, j)) by {
        assert(enc(&n) =~= reg(d, ns, 0).subrange(0, enc(&n).len() as int));
    }
    assert(enc(&m) =~= d.subrange(0, 72).subrange(0, enc(&m).len() as int));
}
pub broadcast proof fn lemma_laid<T, U>(p: Pager<T, U>, b: Seq<u8>, ns: int, pgs: Seq<Node<T, U>>)
    requires md_ok(p.metadata), hdr(p.db_file.bytes(), p.metadata), #[trigger] laid(b, ns, pgs), b == p.db_file.bytes(), ns == p.ns(), pgs.len() == p.metadata.pages,
    ensures #[trigger] p.pinv(), p.pg() == pgs,
{
    reveal(Pager::pinv);
    assert forall|i: int| 0 <= i < pgs.len() implies #[trigger] p.pg()[i] == pgs[i] by {
        assert(enc(&pgs[i]).is_prefix_of(reg(p.db_file.bytes(), p.ns(), i)));
    }
    assert(p.pg() =~= pgs);
}
pub proof fn lemma_page<T, U>(p: Pager<T, U>, i: int)
    requires p.pinv(), 0 <= i < p.metadata.pages,
    ensures ({ let r = reg(p.db_file.bytes(), p.ns(), i); enc(&dec::<Node<T, U>>(r)).is_prefix_of(r) && dec::<Node<T, U>>(r) == p.pg()[i] && off(p.ns(), i) + p.ns() <= p.db_file.bytes().len() && r.len() == p.ns() }),
{
    reveal(Pager::pinv);
    lemma_ns::<T, U>(p.metadata);
    lemma_off(p.ns(), i, p.metadata.pages as int);
    let n = p.pg()[i];
}
// the facts of a pager that the functions below use
pub proof fn lemma_pager<T, U>(p: Pager<T, U>)
    requires p.pinv(),
    ensures
        md_ok(p.metadata), hdr(p.db_file.bytes(), p.metadata), laid(p.db_file.bytes(), p.ns(), p.pg()),
        p.pg().len() == p.metadata.pages, 38 <= p.ns() <= 0x400_0000_0000, p.db_file.bytes().len() == off(p.ns(), p.metadata.pages as int),
        off(p.ns(), p.metadata.pages as int) <= 0x7fff_ffff_ffff_ffff, p.metadata.pages <= 0x7fff_ffff_ffff_ffff,
        off(p.ns(), p.metadata.pages + 1) == off(p.ns(), p.metadata.pages as int) + p.ns(),
{
    reveal(Pager::pinv);
    lemma_ns::<T, U>(p.metadata);
    lemma_off(p.ns(), 0, p.metadata.pages as int);
    assert(p.db_file.bytes().len() <= 0x7fff_ffff_ffff_ffff);
}

//@ fn bp_tree::pager::Pager::get_metadata_size
    ensures ret == 72,
//@ fn bp_tree::pager::Pager::get_node_size
    requires md_ok(self.metadata),
    ensures ret == self.ns(),
//@ fn bp_tree::pager::Pager::calculate_page_offset
    requires md_ok(self.metadata), off(self.ns(), index as int) <= 0xffff_ffff_ffff_ffff,
    ensures ret == off(self.ns(), index as int),
//@ entry
    proof { lemma_ns::<T, U>(self.metadata); assert(self.ns() * index >= 0) by (nonlinear_arith) requires self.ns() >= 0, index >= 0; }
//@ fn bp_tree::pager::Pager::get_leaf_degree
    ensures ret == self.metadata.leaf_degree,
//@ fn bp_tree::pager::Pager::get_internal_degree
    ensures ret == self.metadata.internal_degree,
//@ fn bp_tree::pager::Pager::get_len
    ensures ret == self.metadata.len,
//@ fn bp_tree::pager::Pager::get_root_page
    ensures ret == self.metadata.root_page,
//@ fn bp_tree::pager::Pager::set_len
    requires old(self).pinv(),
    ensures
        ret is Ok ==> final(self).pinv() && final(self).pg() == old(self).pg() && final(self).metadata == (Metadata { len, ..old(self).metadata }),
        ret matches Err(e) ==> fault(e),
//@ entry
    broadcast use lemma_laid;
    proof { lemma_pager(*old(self)); lemma_header(old(self).db_file.bytes(), old(self).ns(), old(self).pg(), Metadata { len, ..old(self).metadata }); }
//@ fn bp_tree::pager::Pager::set_root_page
    requires old(self).pinv(),
    ensures
        ret is Ok ==> final(self).pinv() && final(self).pg() == old(self).pg() && final(self).metadata == (Metadata { root_page: new_root_page, ..old(self).metadata }),
        ret matches Err(e) ==> fault(e),
//@ entry
    broadcast use lemma_laid;
    proof { lemma_pager(*old(self)); lemma_header(old(self).db_file.bytes(), old(self).ns(), old(self).pg(), Metadata { root_page: new_root_page, ..old(self).metadata }); }
//@ fn bp_tree::pager::Pager::get_page
    requires old(self).pinv(), index < old(self).metadata.pages,
    ensures
        ret matches Ok(n) ==> final(self).pinv() && final(self).pg() == old(self).pg() && final(self).metadata == old(self).metadata
            && final(self).db_file.bytes() == old(self).db_file.bytes() && n == old(self).pg()[index as int],
        ret matches Err(e) ==> fault(e),
//@ entry
    broadcast use lemma_laid;
    proof { lemma_pager(*old(self)); lemma_off(old(self).ns(), index as int, old(self).metadata.pages as int); lemma_page(*old(self), index as int); }
//@ fn bp_tree::pager::Pager::allocate_node
    requires
        old(self).pinv(), enc(new_node).len() <= old(self).ns(),
        old(self).metadata.free_page matches Some(f) ==> f < old(self).metadata.pages && old(self).pg()[f as int] is Free,
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(i) ==> final(self).pinv() && match old(self).metadata.free_page {
            None => i == old(self).metadata.pages && final(self).pg() == old(self).pg().push(*new_node) && final(self).metadata == (Metadata { pages: (old(self).metadata.pages + 1) as usize, ..old(self).metadata }),
            Some(f) => i == f && final(self).pg() == old(self).pg().update(i as int, *new_node) && final(self).metadata == (Metadata { free_page: old(self).pg()[f as int]->Free_0, ..old(self).metadata }),
        },
//@ entry
    broadcast use {lemma_laid, lemma_header, lemma_grown};
    proof {
        lemma_pager(*old(self));
        let ns = old(self).ns();
        if let Some(f) = old(self).metadata.free_page {
            lemma_off(ns, f as int, old(self).metadata.pages as int);
            lemma_page(*old(self), f as int);
            lemma_write(old(self).db_file.bytes(), ns, old(self).pg(), f as int, *new_node);
            lemma_header(overwrite(old(self).db_file.bytes(), off(ns, f as int), enc(new_node)), ns, old(self).pg().update(f as int, *new_node), Metadata { free_page: old(self).pg()[f as int]->Free_0, ..old(self).metadata });
        } else {
            lemma_off(ns, old(self).metadata.pages as int, old(self).metadata.pages + 1);
        }
    }
//@ fn bp_tree::pager::Pager::deallocate_node
    requires old(self).pinv(), index < old(self).metadata.pages,
    ensures
        ret matches Err(e) ==> fault(e),
        ret is Ok ==> final(self).pinv() && final(self).metadata == (Metadata { free_page: Some(index), ..old(self).metadata })
            && final(self).pg() == old(self).pg().update(index as int, Node::Free(old(self).metadata.free_page)),
//@ entry
    broadcast use {lemma_laid, lemma_header};
    proof {
        lemma_pager(*old(self)); lemma_off(old(self).ns(), index as int, old(self).metadata.pages as int);
        lemma_nfit(Node::<T, U>::Free(old(self).metadata.free_page), old(self).metadata);
        let n = Node::<T, U>::Free(old(self).metadata.free_page);
        lemma_write(old(self).db_file.bytes(), old(self).ns(), old(self).pg(), index as int, n);
        lemma_header(overwrite(old(self).db_file.bytes(), off(old(self).ns(), index as int), enc(&n)), old(self).ns(), old(self).pg().update(index as int, n), Metadata { free_page: Some(index), ..old(self).metadata });
    }
//@ fn bp_tree::pager::Pager::write_node
    requires old(self).pinv(), index < old(self).metadata.pages, enc(node).len() <= old(self).ns(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret is Ok ==> final(self).pinv() && final(self).metadata == old(self).metadata && final(self).pg() == old(self).pg().update(index as int, *node),
//@ entry
    broadcast use {lemma_laid, lemma_header};
    proof {
        lemma_pager(*old(self)); lemma_off(old(self).ns(), index as int, old(self).metadata.pages as int);
        lemma_write(old(self).db_file.bytes(), old(self).ns(), old(self).pg(), index as int, *node);
    }
//@ fn bp_tree::pager::Pager::clear
    requires old(self).pinv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret is Ok ==> final(self).pinv() && final(self).metadata == (Metadata { pages: 1, len: 0, root_page: 0, free_page: None, ..old(self).metadata })
            && (final(self).pg()[0] matches Node::Leaf(n) && n.len == 0 && lwf(n) && n.entries@.len() == old(self).metadata.leaf_degree && n.next_leaf is None),
//@ entry
    broadcast use {lemma_laid, lemma_one};
    proof {
        lemma_pager(*old(self));
        let m = Metadata { pages: 1, len: 0, root_page: 0, free_page: None, ..old(self).metadata };
        assert(mns::<T, U>(m) == old(self).ns());
        assert forall|n: Node<T, U>| #![trigger enc(&n)] nfit(n, m) implies enc(&n).len() <= mns::<T, U>(m) by { lemma_nfit(n, m); }
    }
//@ fn bp_tree::pager::Pager::validate_key
    requires enc(key).len() <= self.metadata.key_size,
    ensures ret matches Err(e) ==> fault(e),
//@ fn bp_tree::pager::Pager::validate_value
    requires enc(value).len() <= self.metadata.value_size,
    ensures ret matches Err(e) ==> fault(e),
//@ fn bp_tree::pager::Pager::new
    requires key_size <= 4096, value_size <= 4096, 1 <= leaf_degree <= 4096, 2 <= internal_degree <= 4096,
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(p) ==> p.pinv() && p.metadata == (Metadata { pages: 1, len: 0, root_page: 0, key_size, value_size, leaf_degree, internal_degree, free_page: None })
            && (p.pg()[0] matches Node::Leaf(n) && n.len == 0 && lwf(n) && n.entries@.len() == leaf_degree && n.next_leaf is None),
//@ entry
    broadcast use {lemma_laid, lemma_one};
    proof {
        let m = Metadata { pages: 1, len: 0, root_page: 0, key_size, value_size, leaf_degree, internal_degree, free_page: None };
        lemma_ns::<T, U>(m);
        assert forall|n: Node<T, U>| #![trigger enc(&n)] nfit(n, m) implies enc(&n).len() <= mns::<T, U>(m) by { lemma_nfit(n, m); }
    }
// whatever pager wrote the file last, the opened one equals it
//@ fn bp_tree::pager::Pager::open
    ensures
        ret matches Ok(p) ==> forall|q: Pager<T, U>| q.pinv() && #[trigger] q.db_file.bytes() == p.db_file.bytes() ==> p.pinv() && p.metadata == q.metadata && p.pg() == q.pg(),
//@ entry
    broadcast use lemma_laid;
    proof { reveal(Pager::pinv); }
