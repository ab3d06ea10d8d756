//@ # Merging SSTables
//@ include sst.vs
//@ file src/lsm_tree/compaction/size_tiered.rs as lsm_tree::compaction::size_tiered
//@ use crate::lsm_tree::compaction => -
//@ use std::cell => crate::coll
//@ use std::collections::HashSet => -
//@ use std::collections => crate::coll
//@ use std::iter => -
//@ use std::sync => -
//@ use std::thread => -
//@ use std::rc => crate::coll
//@ use std::mem => -
//@ use std::marker::Send => -
//@ only lsm_tree::compaction::size_tiered::SizeTieredIter
//@ only lsm_tree::compaction::size_tiered::SizeTieredIterEntry
//@ skip lsm_tree::compaction::size_tiered::SizeTieredIter::Drop
//@ prelude
pub mod coll {
use vstd::prelude::*;
use crate::vp::Ord;
use crate::fsm::Reverse;
// TRUSTED: std::collections::BinaryHeap is a multiset; with Reverse, pop takes a least element in the lexicographic order of the tuple (what comes after the second component is not used)
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct BinaryHeap<A> { a: Vec<A> }
pub open spec fn lexlt<K: Ord, V: Ord, I>(a: (K, V, I), b: (K, V, I)) -> bool { a.0.rank() < b.0.rank() || (a.0.rank() == b.0.rank() && a.1.rank() < b.1.rank()) }
impl<K: Ord, V: Ord, I> BinaryHeap<Reverse<(K, V, I)>> {
    // the elements in some order
    pub uninterp spec fn view(&self) -> Seq<(K, V, I)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V, I)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, e: Reverse<(K, V, I)>) ensures final(self)@ == old(self)@.push(e.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Reverse<(K, V, I)>>)
        ensures
            r is None <==> old(self)@.len() == 0,
            r is None ==> final(self)@ == old(self)@,
            r matches Some(e) ==> exists|i: int| 0 <= i < old(self)@.len() && #[trigger] old(self)@[i] == e.0 && final(self)@ == old(self)@.remove(i)
                && forall|j: int| 0 <= j < old(self)@.len() ==> !lexlt(#[trigger] old(self)@[j], e.0),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Rc<A> { a: A }
// TRUSTED: there are fewer than 2^64 - 1 iterators at a time
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Cell<A> { a: A }
impl Rc<Cell<u64>> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: u64) ensures r < 0xffff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, n: u64) { unimplemented!() }
}
}
// ---------------------------------------------------------------------------
// Merging sorted sources with a heap
// ---------------------------------------------------------------------------
pub mod merge {
use vstd::prelude::*;
use crate::vp::Ord;
use crate::omap::*;
use crate::entry::Entry;
use crate::lsm_tree::sstable::{Ent, SSTableValue, tm};
use crate::coll::lexlt;
// an entry that waits in the heap and the source it came from
pub type Head<T, U> = (T, SSTableValue<U>, int);
pub trait Merge<T: Ord, U> {
    spec fn heap(&self) -> Seq<Head<T, U>>;
    // what source i has not handed out yet
    spec fn left(&self, i: int) -> Seq<Ent<T, U>>;
    // rank of the last key that was yielded
    spec fn last(&self) -> Option<real>;
}
pub open spec fn inh<T, U>(h: Seq<Head<T, U>>, i: int) -> bool { exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).2 == i }
pub open spec fn hat<T, U>(h: Seq<Head<T, U>>, i: int) -> int { choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).2 == i }
// entries of source i that are still to come
pub open spec fn pe<T, U>(h: Seq<Head<T, U>>, l: Seq<Ent<T, U>>, i: int) -> Seq<Ent<T, U>> {
    if inh(h, i) {
        let e = h[hat(h, i)];
        seq![Entry { key: e.0, value: e.1 }] + l
    } else { l }
}
pub open spec fn pend<T: Ord, U, M: Merge<T, U>>(m: M, i: int) -> Seq<Ent<T, U>> { pe(m.heap(), m.left(i), i) }
pub open spec fn uniq<T, U>(h: Seq<Head<T, U>>) -> bool { forall|j: int, k: int| 0 <= j < k < h.len() ==> (#[trigger] h[j]).2 != (#[trigger] h[k]).2 }
pub open spec fn minv<T: Ord, U, M: Merge<T, U>>(m: M) -> bool {
    &&& uniq(m.heap())
    &&& forall|i: int| #![trigger pend(m, i)] sorted(pend(m, i))
    &&& forall|i: int| #![trigger pend(m, i)] !inh(m.heap(), i) ==> pend(m, i).len() == 0
    &&& m.last() matches Some(l) ==> forall|i: int, j: int| 0 <= j < pend(m, i).len() ==> rk(#[trigger] pend(m, i)[j]) >= l
}
// of a only entries with keys up to l are gone
pub open spec fn dropped<T: Ord, U>(a: Seq<Ent<T, U>>, b: Seq<Ent<T, U>>, l: Option<real>) -> bool {
    let d = a.len() - b.len();
    &&& d >= 0 && b == a.skip(d)
    &&& d > 0 ==> l is Some
    &&& forall|j: int| 0 <= j < d ==> rk(#[trigger] a[j]) <= l->Some_0
}
pub open spec fn passed<T: Ord, U, M: Merge<T, U>>(a: M, b: M, l: Option<real>) -> bool { forall|i: int| dropped(#[trigger] pend(a, i), pend(b, i), l) }
// (k, v) is the next entry of the merge: the least key above the last one, of the entries with this key the newest
pub open spec fn next_is<T: Ord, U, M: Merge<T, U>>(m: M, k: T, v: SSTableValue<U>) -> bool {
    &&& m.last() matches Some(l) ==> l < k.rank()
    &&& exists|i: int| (#[trigger] pend(m, i)).contains(Entry { key: k, value: v })
    &&& forall|i: int, j: int| 0 <= j < pend(m, i).len() && (m.last() matches Some(l) ==> rk(pend(m, i)[j]) > l) ==>
        k.rank() < rk(#[trigger] pend(m, i)[j]) || (k.rank() == rk(pend(m, i)[j]) && tm(pend(m, i)[j]) <= v.logical_time)
}
pub open spec fn exhausted<T: Ord, U, M: Merge<T, U>>(m: M) -> bool {
    forall|i: int, j: int| 0 <= j < pend(m, i).len() ==> m.last() is Some && rk(#[trigger] pend(m, i)[j]) <= m.last()->Some_0
}
pub proof fn lemma_hat<T, U>(h: Seq<Head<T, U>>, k: int)
    requires uniq(h), 0 <= k < h.len(),
    ensures inh(h, h[k].2), hat(h, h[k].2) == k,
{
    let j = hat(h, h[k].2);
    assert(0 <= j < h.len() && h[j].2 == h[k].2);
}
pub proof fn lemma_put<T, U>(h: Seq<Head<T, U>>, e: Head<T, U>)
    requires uniq(h), !inh(h, e.2),
    ensures
        uniq(h.push(e)), inh(h.push(e), e.2),
        forall|i: int| i != e.2 ==> (#[trigger] inh(h.push(e), i) <==> inh(h, i)),
        forall|l: Seq<Ent<T, U>>, i: int| i != e.2 ==> #[trigger] pe(h.push(e), l, i) == pe(h, l, i),
        forall|l: Seq<Ent<T, U>>| #[trigger] pe(h.push(e), l, e.2) == seq![Entry { key: e.0, value: e.1 }] + l,
{
    let g = h.push(e);
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).2 != (#[trigger] g[j]).2 by {
        if j < h.len() { assert(g[i] == h[i] && g[j] == h[j]); } else { assert(g[i] == h[i]); lemma_hat(h, i); }
    }
    assert(g[h.len() as int] == e);
    lemma_hat(g, h.len() as int);
    assert forall|i: int| i != e.2 implies (#[trigger] inh(g, i) <==> inh(h, i)) by { lemma_put_o(h, e, i); }
    assert forall|l: Seq<Ent<T, U>>, i: int| i != e.2 implies #[trigger] pe(g, l, i) == pe(h, l, i) by { lemma_put_o(h, e, i); }
}
proof fn lemma_put_o<T, U>(h: Seq<Head<T, U>>, e: Head<T, U>, i: int)
    requires uniq(h), uniq(h.push(e)), i != e.2,
    ensures inh(h.push(e), i) <==> inh(h, i), inh(h, i) ==> hat(h.push(e), i) == hat(h, i) && hat(h, i) < h.len() && h.push(e)[hat(h, i)] == h[hat(h, i)],
{
    let g = h.push(e);
    if inh(h, i) { let j = hat(h, i); assert(g[j] == h[j]); lemma_hat(g, j); }
    if inh(g, i) { let j = hat(g, i); assert(j < h.len()); assert(g[j] == h[j]); lemma_hat(h, j); }
}
// one entry taken from the heap, the next one of its source put in
pub open spec fn step<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: int) -> bool {
    let e = a.heap()[k];
    let s = a.left(e.2);
    &&& 0 <= k < a.heap().len()
    &&& forall|j: int| 0 <= j < a.heap().len() ==> !lexlt(#[trigger] a.heap()[j], e)
    &&& forall|i: int| i != e.2 ==> #[trigger] b.left(i) == a.left(i)
    &&& s.len() == 0 ==> b.heap() == a.heap().remove(k) && b.left(e.2) == s
    &&& s.len() > 0 ==> b.heap() == a.heap().remove(k).push((s[0].key, s[0].value, e.2)) && b.left(e.2) == s.skip(1)
    &&& b.last() == Some(e.0.rank())
}
proof fn lemma_other<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: int, i: int)
    requires minv(a), step(a, b, k), i != a.heap()[k].2, uniq(b.heap()),
    ensures inh(b.heap(), i) <==> inh(a.heap(), i), pend(b, i) == pend(a, i),
{
    let ha = a.heap();
    let hb = b.heap();
    let hr = ha.remove(k);
    assert(b.left(i) == a.left(i));
    if inh(ha, i) {
        let j = hat(ha, i);
        let j2 = if j < k { j } else { j - 1 };
        assert(hb[j2] == ha[j]);
        lemma_hat(hb, j2);
        lemma_hat(ha, j);
    }
    if inh(hb, i) {
        let j = hat(hb, i);
        assert(j < hr.len());
        let j2 = if j < k { j } else { j + 1 };
        assert(hb[j] == ha[j2]);
        lemma_hat(ha, j2);
    }
}
proof fn lemma_step_a<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: int)
    requires minv(a), step(a, b, k),
    ensures
        uniq(b.heap()),
        inh(a.heap(), a.heap()[k].2), hat(a.heap(), a.heap()[k].2) == k,
        forall|i: int| i != a.heap()[k].2 ==> #[trigger] pend(b, i) == pend(a, i),
        forall|i: int| i != a.heap()[k].2 ==> (#[trigger] inh(b.heap(), i) <==> inh(a.heap(), i)),
        pend(b, a.heap()[k].2) == pend(a, a.heap()[k].2).skip(1),
        pend(a, a.heap()[k].2).len() == 1 + a.left(a.heap()[k].2).len(),
        pend(a, a.heap()[k].2)[0] == (Entry { key: a.heap()[k].0, value: a.heap()[k].1 }),
        a.left(a.heap()[k].2).len() > 0 ==> inh(b.heap(), a.heap()[k].2),
{
    let ha = a.heap();
    let hb = b.heap();
    let e = ha[k];
    let s = e.2;
    let hr = ha.remove(k);
    lemma_hat(ha, k);
    assert(pend(a, s) =~= seq![Entry { key: e.0, value: e.1 }] + a.left(s));
    assert(pend(a, s)[0] == Entry { key: e.0, value: e.1 });
    assert(uniq(hr)) by {
        assert forall|i: int, j: int| 0 <= i < j < hr.len() implies (#[trigger] hr[i]).2 != (#[trigger] hr[j]).2 by {
            let i2 = if i < k { i } else { i + 1 };
            let j2 = if j < k { j } else { j + 1 };
            assert(hr[i] == ha[i2] && hr[j] == ha[j2]);
        }
    }
    assert forall|j: int| 0 <= j < hr.len() implies (#[trigger] hr[j]).2 != s by {
        assert(hr[j] == ha[if j < k { j } else { j + 1 }]);
    }
    assert(uniq(hb));
    // every source but s as before
    assert forall|i: int| i != s implies #[trigger] pend(b, i) == pend(a, i) by { lemma_other(a, b, k, i); }
    assert forall|i: int| i != s implies (#[trigger] inh(hb, i) <==> inh(ha, i)) by { lemma_other(a, b, k, i); }
    let p = pend(a, s);
    if a.left(s).len() > 0 {
        lemma_hat(hb, hr.len() as int);
        assert(hb[hr.len() as int].2 == s);
        assert(pend(b, s) =~= p.skip(1));
    } else {
        if inh(hb, s) { let j = hat(hb, s); assert(hb[j] == hr[j]); }
        assert(pend(b, s) =~= p.skip(1));
    }
}
proof fn lemma_step_b<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: int)
    requires minv(a), step(a, b, k),
    ensures minv(b),
{
    hide(inh); hide(hat); hide(pend); hide(uniq);
    lemma_step_a(a, b, k);
    lemma_least(a, b, k);
    let ha = a.heap();
    let e = ha[k];
    let s = e.2;
    let p = pend(a, s);
    assert forall|i: int| sorted(#[trigger] pend(b, i)) by {
        assert(sorted(pend(a, i)));
        if i == s {
            assert forall|x: int, y: int| 0 <= x < y < p.skip(1).len() implies rk(#[trigger] p.skip(1)[x]) < rk(#[trigger] p.skip(1)[y]) by {
                assert(p.skip(1)[x] == p[x + 1] && p.skip(1)[y] == p[y + 1]);
            }
        }
    }
    assert forall|i: int| #![trigger pend(b, i)] !inh(b.heap(), i) implies pend(b, i).len() == 0 by {
        assert(sorted(pend(a, i)));
        if i != s { assert(pend(b, i) == pend(a, i)); }
    }
    assert forall|i: int, j: int| 0 <= j < pend(b, i).len() implies rk(#[trigger] pend(b, i)[j]) >= e.0.rank() by {
        if i == s { assert(pend(b, i)[j] == pend(a, i)[j + 1]); } else { assert(pend(b, i) == pend(a, i)); assert(pend(b, i)[j] == pend(a, i)[j]); }
    }
    assert(b.last() == Some(e.0.rank()));
    assert(uniq(b.heap()));
    assert(forall|i: int| #![trigger pend(b, i)] sorted(pend(b, i)));
}
// the least in the heap is the least of all
proof fn lemma_least<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: int)
    requires minv(a), step(a, b, k),
    ensures
        forall|i: int, j: int| 0 <= j < pend(a, i).len() ==> ({
            let e = a.heap()[k];
            e.0.rank() < rk(#[trigger] pend(a, i)[j]) || (e.0.rank() == rk(pend(a, i)[j]) && tm(pend(a, i)[j]) <= e.1.logical_time)
        }),
{
    let ha = a.heap();
    let e = ha[k];
    assert forall|i: int, j: int| 0 <= j < pend(a, i).len() implies
        e.0.rank() < rk(#[trigger] pend(a, i)[j]) || (e.0.rank() == rk(pend(a, i)[j]) && tm(pend(a, i)[j]) <= e.1.logical_time) by {
        if inh(ha, i) {
            let q = hat(ha, i);
            assert(pend(a, i)[0] == Entry { key: ha[q].0, value: ha[q].1 });
            assert(!lexlt(ha[q], e));
            assert(sorted(pend(a, i)));
            if j > 0 { assert(rk(pend(a, i)[0]) < rk(pend(a, i)[j])); }
        }
    }
}
pub proof fn lemma_step<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: int)
    requires minv(a), step(a, b, k),
    ensures
        minv(b),
        passed(a, b, b.last()),
        forall|i: int, j: int| 0 <= j < pend(a, i).len() ==> ({
            let e = a.heap()[k];
            e.0.rank() < rk(#[trigger] pend(a, i)[j]) || (e.0.rank() == rk(pend(a, i)[j]) && tm(pend(a, i)[j]) <= e.1.logical_time)
        }),
        pend(b, a.heap()[k].2).len() < pend(a, a.heap()[k].2).len(),
        forall|i: int| i != a.heap()[k].2 ==> #[trigger] pend(b, i) == pend(a, i),
        pend(a, a.heap()[k].2).contains(Entry { key: a.heap()[k].0, value: a.heap()[k].1 }),
        a.last() matches Some(l) ==> l <= b.last()->Some_0,
{
    hide(inh); hide(hat); hide(pend); hide(uniq);
    lemma_step_a(a, b, k);
    lemma_step_b(a, b, k);
    lemma_least(a, b, k);
    let s = a.heap()[k].2;
    let p = pend(a, s);
    assert forall|i: int| dropped(#[trigger] pend(a, i), pend(b, i), b.last()) by {
        if i == s { assert(p.skip(1) =~= p.skip(p.len() - pend(b, s).len())); } else { assert(pend(b, i) =~= pend(a, i).skip(0)); }
    }
    if let Some(l) = a.last() { assert(rk(pend(a, s)[0]) >= l); }
}
// number of entries still to come
pub open spec fn total<T: Ord, U, M: Merge<T, U>>(m: M, lo: int, hi: int) -> nat
    decreases hi - lo,
{ if hi <= lo { 0 } else { pend(m, hi - 1).len() + total(m, lo, hi - 1) } }
pub proof fn lemma_total<T: Ord, U, M: Merge<T, U>>(a: M, b: M, s: int, lo: int, hi: int)
    requires
        pend(b, s).len() < pend(a, s).len(),
        forall|i: int| i != s ==> #[trigger] pend(b, i) == pend(a, i),
    ensures lo <= s < hi ==> total(b, lo, hi) < total(a, lo, hi), !(lo <= s < hi) ==> total(b, lo, hi) == total(a, lo, hi),
    decreases hi - lo,
{ if lo < hi { lemma_total(a, b, s, lo, hi - 1); } }
pub proof fn lemma_passed<T: Ord, U, M: Merge<T, U>>(a: M, b: M, c: M, l: Option<real>, r: real)
    requires passed(a, b, l), passed(b, c, Some(r)), l matches Some(x) ==> x <= r,
    ensures passed(a, c, Some(r)),
{
    assert forall|i: int| dropped(#[trigger] pend(a, i), pend(c, i), Some(r)) by {
        let (x, y, z) = (pend(a, i), pend(b, i), pend(c, i));
        assert(dropped(x, y, l) && dropped(y, z, Some(r)));
        let d = x.len() - y.len();
        assert(z =~= x.skip(x.len() - z.len()));
        assert forall|j: int| 0 <= j < x.len() - z.len() implies rk(#[trigger] x[j]) <= r by {
            if j >= d { assert(y[j - d] == x[j]); }
        }
    }
}
// entries above l are all still to come
pub proof fn lemma_next<T: Ord, U, M: Merge<T, U>>(a: M, b: M, k: T, v: SSTableValue<U>)
    requires
        passed(a, b, a.last()), b.last() == a.last(), next_is(b, k, v),
    ensures next_is(a, k, v),
{
    let i = choose|i: int| (#[trigger] pend(b, i)).contains(Entry { key: k, value: v });
    assert(dropped(pend(a, i), pend(b, i), a.last()));
    let j = choose|j: int| 0 <= j < pend(b, i).len() && pend(b, i)[j] == (Entry { key: k, value: v });
    assert(pend(a, i)[j + pend(a, i).len() - pend(b, i).len()] == pend(b, i)[j]);
    assert forall|i: int, j: int| 0 <= j < pend(a, i).len() && (a.last() matches Some(l) ==> rk(pend(a, i)[j]) > l) implies
        k.rank() < rk(#[trigger] pend(a, i)[j]) || (k.rank() == rk(pend(a, i)[j]) && tm(pend(a, i)[j]) <= v.logical_time) by {
        assert(dropped(pend(a, i), pend(b, i), a.last()));
        let d = pend(a, i).len() - pend(b, i).len();
        assert(pend(b, i)[j - d] == pend(a, i)[j]);
    }
}
pub proof fn lemma_self<T: Ord, U, M: Merge<T, U>>(a: M)
    ensures passed(a, a, a.last()),
{
    assert forall|i: int| dropped(#[trigger] pend(a, i), pend(a, i), a.last()) by { assert(pend(a, i) =~= pend(a, i).skip(0)); }
}
pub proof fn lemma_same<T: Ord, U, M: Merge<T, U>>(a: M, b: M)
    requires minv(a), a.heap() == b.heap(), a.last() == b.last(), forall|i: int| #[trigger] a.left(i) == b.left(i),
    ensures minv(b), forall|i: int| #[trigger] pend(b, i) == pend(a, i),
{
    assert forall|i: int| #[trigger] pend(b, i) == pend(a, i) by { assert(a.left(i) == b.left(i)); }
    assert forall|i: int| sorted(#[trigger] pend(b, i)) by { assert(sorted(pend(a, i))); }
}
pub proof fn lemma_passed2<T: Ord, U, M: Merge<T, U>>(a: M, b: M, c: M)
    requires passed(a, b, a.last()), forall|i: int| #[trigger] pend(c, i) == pend(b, i),
    ensures passed(a, c, a.last()),
{
    assert forall|i: int| dropped(#[trigger] pend(a, i), pend(c, i), a.last()) by { assert(pend(c, i) == pend(b, i)); assert(dropped(pend(a, i), pend(b, i), a.last())); }
}
pub proof fn lemma_done<T: Ord, U, M: Merge<T, U>>(a: M, b: M)
    requires passed(a, b, a.last()), minv(b), b.heap().len() == 0,
    ensures exhausted(a),
{
    assert forall|i: int, j: int| 0 <= j < pend(a, i).len() implies a.last() is Some && rk(#[trigger] pend(a, i)[j]) <= a.last()->Some_0 by {
        assert(dropped(pend(a, i), pend(b, i), a.last()));
        assert(sorted(pend(b, i)));
        assert(pend(b, i).len() == 0);
    }
}
}
//@ inherent Iterator
//@ cmpvals lsm_tree::compaction::size_tiered::SizeTieredIter::Iterator::next last_key
//@ spec lsm_tree::compaction::size_tiered
use crate::fsm::*;
use crate::omap::*;
use crate::merge::*;
use crate::lsm_tree::fault;
use crate::lsm_tree::sstable::Ent;
broadcast use vstd::seq_lib::group_seq_properties;
pub open spec fn hp<T, U>(h: Seq<(T, SSTableValue<U>, usize)>) -> Seq<Head<T, U>> { Seq::new(h.len(), |k: int| (h[k].0, h[k].1, h[k].2 as int)) }
impl<T: Ord, U> Merge<T, U> for SizeTieredIter<T, U> {
    open spec fn heap(&self) -> Seq<Head<T, U>> { hp(self.entries@) }
    open spec fn left(&self, i: int) -> Seq<Ent<T, U>> { if 0 <= i < self.sstable_data_iters@.len() { self.sstable_data_iters@[i].rest() } else { Seq::empty() } }
    open spec fn last(&self) -> Option<real> { match self.last_key_opt { Some(k) => Some(k.rank()), None => None } }
}
impl<T: Ord, U> SizeTieredIter<T, U> {
    pub open spec fn its(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.sstable_data_iters@.len() ==> (#[trigger] self.sstable_data_iters@[i]).dinv()
        &&& forall|k: int| 0 <= k < self.entries@.len() ==> (#[trigger] self.entries@[k]).2 < self.sstable_data_iters@.len()
    }
    pub open spec fn tinv(&self) -> bool { minv(*self) && self.its() }
}
//@ fn lsm_tree::compaction::size_tiered::SizeTieredIter::new
    requires forall|i: int| 0 <= i < sstable_data_iters@.len() ==> (#[trigger] sstable_data_iters@[i]).dinv() && sorted(sstable_data_iters@[i].rest()),
    ensures
        ret matches Ok(m) ==> m.tinv() && m.last() is None && m.sstable_data_iters@.len() == sstable_data_iters@.len()
            && forall|i: int| 0 <= i < sstable_data_iters@.len() ==> #[trigger] pend(m, i) == sstable_data_iters@[i].rest(),
        ret matches Err(e) ==> fault(e),
//@ entry
    let ghost o = sstable_data_iters@;
    let ghost n = sstable_data_iters@.len() as int;
//@ loop 0
    invariant
        n == o.len(), sstable_data_iters@.len() == n, vx_it.seq().len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).dinv() && sorted(o[i].rest()),
        forall|i: int| 0 <= i < n ==> (#[trigger] sstable_data_iters@[i]).dinv(),
        forall|i: int| index <= i < n ==> (#[trigger] sstable_data_iters@[i]) == o[i],
        uniq(hp(entries@)),
        forall|k: int| 0 <= k < entries@.len() ==> (#[trigger] entries@[k]).2 < index,
        forall|i: int| 0 <= i < index ==> (#[trigger] pe(hp(entries@), sstable_data_iters@[i].rest(), i)) == o[i].rest() && (!inh(hp(entries@), i) ==> o[i].rest().len() == 0),
//@ body 0
    let ghost e0 = entries@;
    let ghost v0 = sstable_data_iters@;
    proof {
        assert(sstable_data_iters@[index as int] == o[index as int]);
        if inh(hp(e0), index as int) { let k = hat(hp(e0), index as int); assert(e0[k].2 < index); }
    }
//@ bodyend 0
    proof {
        let h0 = hp(e0);
        assert(forall|i: int| 0 <= i < n && i != index ==> (#[trigger] sstable_data_iters@[i]) == v0[i]);
        if entries@.len() > e0.len() {
            let f = o[index as int].rest()[0];
            let e = (f.key, f.value, index as int);
            assert(hp(entries@) =~= h0.push(e));
            lemma_put(h0, e);
            assert(seq![f] + o[index as int].rest().skip(1) =~= o[index as int].rest());
        }
        assert forall|i: int| 0 <= i < index + 1 implies (#[trigger] pe(hp(entries@), sstable_data_iters@[i].rest(), i)) == o[i].rest() && (!inh(hp(entries@), i) ==> o[i].rest().len() == 0) by {
            if i < index { assert(pe(hp(e0), v0[i].rest(), i) == o[i].rest()); }
        }
    }
//@ before 0 `Ok`
    proof {
        assert forall|i: int| !(0 <= i < n) implies !#[trigger] inh(hp(entries@), i) by {
            if inh(hp(entries@), i) { let k = hat(hp(entries@), i); assert(entries@[k].2 < n); }
        }
    }
//@ fn lsm_tree::compaction::size_tiered::SizeTieredIter::Iterator::next
    requires old(self).tinv(),
    ensures
        ret matches Some(Err(e)) ==> fault(e),
        ret matches Some(Ok(e)) ==> final(self).tinv() && next_is(*old(self), e.0, e.1) && final(self).last() == Some(e.0.rank())
            && passed(*old(self), *final(self), final(self).last()),
        ret is None ==> final(self).tinv() && final(self).last() == old(self).last() && exhausted(*old(self)) && passed(*old(self), *final(self), final(self).last()),
//@ entry
    let ghost a = *self;
    let ghost n = self.sstable_data_iters@.len() as int;
    let ghost mut s0 = *self;
    proof { lemma_self(a); }
//@ loop 0
    invariant_except_break
        s0 == *self,
    invariant
        s0.tinv(), n == s0.sstable_data_iters@.len(), s0.last() == a.last(), passed(a, s0, a.last()), a == *old(self),
    ensures
        self.entries@.len() == 0, self.entries@ == s0.entries@, self.sstable_data_iters == s0.sstable_data_iters, self.last_key_opt == s0.last_key_opt,
    decreases total(s0, 0, n),
//@ body 0
    let ghost h0 = s0.entries@;
    let ghost k = choose|i: int| 0 <= i < h0.len() && #[trigger] h0[i] == (key, value, index) && self.entries@ == h0.remove(i)
        && forall|j: int| 0 <= j < h0.len() ==> !crate::coll::lexlt(#[trigger] h0[j], (key, value, index));
    proof {
        assert(h0[k] == (key, value, index));
        assert(s0.heap()[k] == (key, value, index as int));
    }
//@ before 0 `if should_return`
    proof {
        let s = index as int;
        assert forall|i: int| i != s implies #[trigger] self.left(i) == s0.left(i) by { }
        assert(s0.heap().remove(k) =~= hp(h0.remove(k)));
        if s0.left(s).len() > 0 {
            let f = s0.left(s)[0];
            assert(self.heap() =~= s0.heap().remove(k).push((f.key, f.value, s)));
        }
        assert(step(s0, *self, k));
        lemma_step(s0, *self, k);
        lemma_total(s0, *self, s, 0, n);
        assert forall|j: int| 0 <= j < self.entries@.len() implies (#[trigger] self.entries@[j]).2 < n by {
            if j < h0.len() - 1 { assert(self.entries@[j] == h0[if j < k { j } else { j + 1 }]); }
        }
        assert(self.tinv());
        lemma_passed(a, s0, *self, a.last(), key.rank());
        if should_return {
            assert(next_is(s0, key, value));
            lemma_next(a, s0, key, value);
        } else {
            s0 = *self;
        }
    }
//@ before 0 `None`
    proof {
        lemma_same(s0, *self);
        lemma_passed2(a, s0, *self);
        lemma_done(a, *self);
    }
