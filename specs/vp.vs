//@ prelude
// ---------------------------------------------------------------------------
// Assumed contracts on the environment (standard library traits and functions).
// ---------------------------------------------------------------------------
pub mod vp {
use vstd::prelude::*;
use std::cmp::Ordering;

// TRUSTED: std::cmp::Ord of a user's key type is a total order consistent with PartialOrd and PartialEq
// `std::cmp::Ord` on a user's key type: a total preorder. Every total order on the
// (countably many) values of a Rust type embeds into the reals; `rank` is one such
// embedding, left uninterpreted.
pub trait Ord {
    spec fn rank(&self) -> real;
    fn cmp(&self, other: &Self) -> (r: Ordering)
        ensures
            r == Ordering::Less <==> self.rank() < other.rank(),
            r == Ordering::Greater <==> self.rank() > other.rank(),
            r == Ordering::Equal <==> self.rank() == other.rank();
}

// TRUSTED: std::borrow::Borrow keeps the order of the keys
// `std::borrow::Borrow`: the borrowed form has the same order (documented contract of Borrow).
pub trait Borrow<V: Ord + ?Sized> : Ord {
    fn borrow(&self) -> (r: &V)
        ensures r.rank() == self.rank();
}
impl<T: Ord> Borrow<T> for T {
    fn borrow(&self) -> (r: &T) { self }
}

pub assume_specification<T> [<T as core::convert::From<T>>::from] (t: T) -> (r: T)
    ensures r == t,
;
pub assume_specification<T> [std::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);

pub assume_specification [<Ordering as core::cmp::PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);

// `&mut **b` for b: &mut Box<T>. Verified against its contract; it exists only because the
// installed Verus types the expression `&mut **b` as `&mut Box<T>` in its encoding.
pub fn unbox_mut<'a, T>(b: &'a mut Box<T>) -> (r: &'a mut T)
    ensures *r == **old(b), *final(r) == **final(b),
{ &mut **b }

// comparison operators on user keys (PartialOrd/PartialEq consistent with Ord: the documented
// contract of std::cmp::Ord), and panics
pub fn lt<V: Ord + ?Sized>(a: &V, b: &V) -> (r: bool) ensures r == (a.rank() < b.rank()) { match a.cmp(b) { Ordering::Less => true, _ => false } }
pub fn le<V: Ord + ?Sized>(a: &V, b: &V) -> (r: bool) ensures r == (a.rank() <= b.rank()) { match a.cmp(b) { Ordering::Greater => false, _ => true } }
pub fn gt<V: Ord + ?Sized>(a: &V, b: &V) -> (r: bool) ensures r == (a.rank() > b.rank()) { match a.cmp(b) { Ordering::Greater => true, _ => false } }
pub fn ge<V: Ord + ?Sized>(a: &V, b: &V) -> (r: bool) ensures r == (a.rank() >= b.rank()) { match a.cmp(b) { Ordering::Less => false, _ => true } }
pub fn eq<V: Ord + ?Sized>(a: &V, b: &V) -> (r: bool) ensures r == (a.rank() == b.rank()) { match a.cmp(b) { Ordering::Equal => true, _ => false } }
pub fn ne<V: Ord + ?Sized>(a: &V, b: &V) -> (r: bool) ensures r == (a.rank() != b.rank()) { match a.cmp(b) { Ordering::Equal => false, _ => true } }
pub fn check(c: bool) requires c {}
pub fn never<A>() -> (r: A) requires false { loop invariant false decreases 0int {} }

pub open spec fn spec_max(a: int, b: int) -> int { if a >= b { a } else { b } }

pub mod cmp {
    pub use std::cmp::Ordering;
    use vstd::prelude::*;
    pub fn max(a: usize, b: usize) -> (r: usize)
        ensures r == super::spec_max(a as int, b as int)
    { if a >= b { a } else { b } }
}
}
//@ use std::borrow::Borrow => crate::vp::Borrow
//@ use std::cmp::Ordering => std::cmp::Ordering
//@ use std::cmp => crate::vp::cmp
