//@ include vp.vs
//@ file src/entry.rs as entry
//@ use serde_derive => -
//@ prelude
// ---------------------------------------------------------------------------
// The abstract ordered map: a sequence of entries, strictly increasing by key.
// ---------------------------------------------------------------------------
pub mod omap {
use vstd::prelude::*;
use crate::vp::*;
use crate::entry::Entry;

pub open spec fn rk<T: Ord, U>(e: Entry<T, U>) -> real { e.key.rank() }

pub open spec fn sorted<T: Ord, U>(s: Seq<Entry<T, U>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> rk(#[trigger] s[i]) < rk(#[trigger] s[j])
}

pub open spec fn is_pos<T: Ord, U>(s: Seq<Entry<T, U>>, r: real, p: int) -> bool {
    &&& 0 <= p <= s.len()
    &&& forall|i: int| 0 <= i < p ==> rk(#[trigger] s[i]) < r
    &&& forall|i: int| p <= i < s.len() ==> rk(#[trigger] s[i]) >= r
}

// the number of keys below r
#[verifier::opaque]
pub open spec fn pos<T: Ord, U>(s: Seq<Entry<T, U>>, r: real) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if rk(s.last()) < r { s.len() as int }
    else { pos(s.drop_last(), r) }
}

pub open spec fn hask<T: Ord, U>(s: Seq<Entry<T, U>>, r: real) -> bool {
    pos(s, r) < s.len() && rk(s[pos(s, r)]) == r
}

// the effect and the results of the operations
pub open spec fn ins<T: Ord, U>(s: Seq<Entry<T, U>>, e: Entry<T, U>) -> Seq<Entry<T, U>> {
    if hask(s, rk(e)) { s.update(pos(s, rk(e)), e) } else { s.insert(pos(s, rk(e)), e) }
}
pub open spec fn rem<T: Ord, U>(s: Seq<Entry<T, U>>, r: real) -> Seq<Entry<T, U>> {
    if hask(s, r) { s.remove(pos(s, r)) } else { s }
}
pub open spec fn at<T: Ord, U>(s: Seq<Entry<T, U>>, r: real) -> Option<Entry<T, U>> {
    if hask(s, r) { Some(s[pos(s, r)]) } else { None }
}
// greatest entry <= r
pub open spec fn flr<T: Ord, U>(s: Seq<Entry<T, U>>, r: real) -> Option<Entry<T, U>> {
    if hask(s, r) { Some(s[pos(s, r)]) }
    else if pos(s, r) > 0 { Some(s[pos(s, r) - 1]) }
    else { None }
}
// least entry >= r
pub open spec fn cil<T: Ord, U>(s: Seq<Entry<T, U>>, r: real) -> Option<Entry<T, U>> {
    if pos(s, r) < s.len() { Some(s[pos(s, r)]) } else { None }
}
pub open spec fn first<T, U>(s: Seq<Entry<T, U>>) -> Option<Entry<T, U>> {
    if s.len() > 0 { Some(s[0]) } else { None }
}
pub open spec fn last<T, U>(s: Seq<Entry<T, U>>) -> Option<Entry<T, U>> {
    if s.len() > 0 { Some(s[s.len() - 1]) } else { None }
}

pub open spec fn oref<A>(o: Option<&A>) -> Option<A> { match o { Some(e) => Some(*e), None => None } }
pub open spec fn okey<T, U>(o: Option<Entry<T, U>>) -> Option<T> { match o { Some(e) => Some(e.key), None => None } }
pub open spec fn oval<T, U>(o: Option<Entry<T, U>>) -> Option<U> { match o { Some(e) => Some(e.value), None => None } }
pub open spec fn opair<T, U>(o: Option<Entry<T, U>>) -> Option<(T, U)> { match o { Some(e) => Some((e.key, e.value)), None => None } }

pub proof fn lemma_pos<T: Ord, U>(s: Seq<Entry<T, U>>, r: real)
    requires sorted(s),
    ensures is_pos(s, r, pos(s, r)),
    decreases s.len(),
{
    reveal(pos);
    if s.len() > 0 && !(rk(s.last()) < r) {
        lemma_pos(s.drop_last(), r);
        let p = pos(s.drop_last(), r);
        assert forall|i: int| 0 <= i < p implies rk(#[trigger] s[i]) < r by {
            assert(s[i] == s.drop_last()[i]);
        }
        assert forall|i: int| p <= i < s.len() implies rk(#[trigger] s[i]) >= r by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    }
}

pub proof fn lemma_pos_unique<T: Ord, U>(s: Seq<Entry<T, U>>, r: real, p: int)
    requires sorted(s), is_pos(s, r, p),
    ensures pos(s, r) == p,
{
    lemma_pos(s, r);
    let q = pos(s, r);
    if q < p { assert(rk(s[q]) < r); }
    if p < q { assert(rk(s[p]) < r); }
}

pub open spec fn cat<T, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>) -> Seq<Entry<T, U>> {
    l + seq![x] + r
}

pub broadcast proof fn lemma_first_cat<T, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    ensures #[trigger] first(cat(l, x, r)) == (if first(l) is Some { first(l) } else { Some(x) }),
{
}
pub broadcast proof fn lemma_last_cat<T, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    ensures #[trigger] last(cat(l, x, r)) == (if last(r) is Some { last(r) } else { Some(x) }),
{
}
pub broadcast group group_omap { lemma_first_cat, lemma_last_cat }

// the parts of a sorted l ++ [x] ++ r
pub proof fn lemma_parts<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    requires sorted(cat(l, x, r)),
    ensures
        sorted(l), sorted(r),
        forall|i: int| 0 <= i < l.len() ==> rk(#[trigger] l[i]) < rk(x),
        forall|i: int| 0 <= i < r.len() ==> rk(x) < rk(#[trigger] r[i]),
{
    let s = cat(l, x, r);
    let n = l.len() as int;
    assert(s[n] == x);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies rk(#[trigger] l[i]) < rk(#[trigger] l[j]) by {
        assert(rk(s[i]) < rk(s[j]));
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies rk(#[trigger] r[i]) < rk(#[trigger] r[j]) by {
        assert(rk(s[n + 1 + i]) < rk(s[n + 1 + j]));
    }
    assert forall|i: int| 0 <= i < l.len() implies rk(#[trigger] l[i]) < rk(x) by {
        assert(rk(s[i]) < rk(s[n]));
    }
    assert forall|i: int| 0 <= i < r.len() implies rk(x) < rk(#[trigger] r[i]) by {
        assert(rk(s[n]) < rk(s[n + 1 + i]));
    }
}
pub proof fn lemma_glue<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    requires
        sorted(l), sorted(r),
        forall|i: int| 0 <= i < l.len() ==> rk(#[trigger] l[i]) < rk(x),
        forall|i: int| 0 <= i < r.len() ==> rk(x) < rk(#[trigger] r[i]),
    ensures sorted(cat(l, x, r)),
{
}
proof fn lemma_cat_pos<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures
        pos(cat(l, x, r), k) == (if k < rk(x) { pos(l, k) } else if k == rk(x) { l.len() as int } else { l.len() + 1 + pos(r, k) }),
        0 <= pos(l, k) <= l.len(), 0 <= pos(r, k) <= r.len(),
        hask(cat(l, x, r), k) == (if k < rk(x) { hask(l, k) } else if k == rk(x) { true } else { hask(r, k) }),
        k > rk(x) ==> pos(l, k) == l.len(),
        k < rk(x) ==> pos(r, k) == 0,
{
    lemma_parts(l, x, r);
    let s = cat(l, x, r);
    let n = l.len() as int;
    let q = if k < rk(x) { pos(l, k) } else if k == rk(x) { n } else { n + 1 + pos(r, k) };
    lemma_pos(l, k); lemma_pos(r, k);
    assert forall|i: int| 0 <= i < q implies rk(#[trigger] s[i]) < k by {
        if i < n { assert(s[i] == l[i]); } else if i > n { assert(s[i] == r[i - n - 1]); } else { assert(s[i] == x); }
    }
    assert forall|i: int| q <= i < s.len() implies rk(#[trigger] s[i]) >= k by {
        if i < n { assert(s[i] == l[i]); } else if i > n { assert(s[i] == r[i - n - 1]); } else { assert(s[i] == x); }
    }
    lemma_pos_unique(s, k, q);
    if k < rk(x) { lemma_pos_unique(r, k, 0); }
    if k > rk(x) { lemma_pos_unique(l, k, n); }
}

// everything about a sorted l ++ [x] ++ r and a key of rank k
pub proof fn lemma_cat<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures
        sorted(l), sorted(r),
        hask(cat(l, x, r), k) == (if k < rk(x) { hask(l, k) } else if k == rk(x) { true } else { hask(r, k) }),
        rem(cat(l, x, r), k) == (if k < rk(x) { cat(rem(l, k), x, r) } else if k == rk(x) { l + r } else { cat(l, x, rem(r, k)) }),
        at(cat(l, x, r), k) == (if k < rk(x) { at(l, k) } else if k == rk(x) { Some(x) } else { at(r, k) }),
        flr(cat(l, x, r), k) == (if k < rk(x) { flr(l, k) } else if k == rk(x) { Some(x) } else if flr(r, k) is Some { flr(r, k) } else { Some(x) }),
        cil(cat(l, x, r), k) == (if k > rk(x) { cil(r, k) } else if k == rk(x) { Some(x) } else if cil(l, k) is Some { cil(l, k) } else { Some(x) }),
{
    lemma_parts(l, x, r);
    lemma_cat_pos(l, x, r, k);
    let s = cat(l, x, r);
    let t = if k < rk(x) { cat(rem(l, k), x, r) } else if k == rk(x) { l + r } else { cat(l, x, rem(r, k)) };
    assert(rem(s, k) =~= t);
}
pub proof fn lemma_cat_ins<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires sorted(cat(l, x, r)),
    ensures
        ins(cat(l, x, r), e) == (if rk(e) < rk(x) { cat(ins(l, e), x, r) } else if rk(e) == rk(x) { cat(l, e, r) } else { cat(l, x, ins(r, e)) }),
{
    lemma_cat_pos(l, x, r, rk(e));
    let s = cat(l, x, r);
    let t = if rk(e) < rk(x) { cat(ins(l, e), x, r) } else if rk(e) == rk(x) { cat(l, e, r) } else { cat(l, x, ins(r, e)) };
    assert(ins(s, e) =~= t);
}

pub proof fn lemma_upd<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures ({
        let s = cat(l, x, r);
        &&& hask(s, k) == (if k < rk(x) { hask(l, k) } else if k == rk(x) { true } else { hask(r, k) })
        &&& k < rk(x) && hask(l, k) ==> s[pos(s, k)] == l[pos(l, k)] && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l.update(pos(l, k), e), x, r)
        &&& k == rk(x) ==> s[pos(s, k)] == x && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l, e, r)
        &&& k > rk(x) && hask(r, k) ==> s[pos(s, k)] == r[pos(r, k)] && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l, x, r.update(pos(r, k), e))
    }),
{
    let s = cat(l, x, r);
    lemma_cat_pos(l, x, r, k);
    let p = pos(s, k);
    if k < rk(x) && hask(l, k) {
        assert forall|e: Entry<T, U>| s.update(p, e) == #[trigger] cat(l.update(pos(l, k), e), x, r) by {
            assert(s.update(p, e) =~= cat(l.update(pos(l, k), e), x, r));
        }
    }
    if k == rk(x) {
        assert forall|e: Entry<T, U>| s.update(p, e) == #[trigger] cat(l, e, r) by {
            assert(s.update(p, e) =~= cat(l, e, r));
        }
    }
    if k > rk(x) && hask(r, k) {
        assert forall|e: Entry<T, U>| s.update(p, e) == #[trigger] cat(l, x, r.update(pos(r, k), e)) by {
            assert(s.update(p, e) =~= cat(l, x, r.update(pos(r, k), e)));
        }
    }
}

// the operations keep the order, and change the length as expected
pub proof fn lemma_rem<T: Ord, U>(s: Seq<Entry<T, U>>, k: real)
    requires sorted(s),
    ensures
        sorted(rem(s, k)), !hask(rem(s, k), k),
        rem(s, k).len() == s.len() - (if hask(s, k) { 1int } else { 0int }),
        hask(s, k) ==> s.len() > 0,
{
    lemma_pos(s, k);
    lemma_pos_unique(rem(s, k), k, pos(s, k));
}
pub proof fn lemma_ins<T: Ord, U>(s: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires sorted(s),
    ensures
        sorted(ins(s, e)),
        ins(s, e).len() == s.len() + (if hask(s, rk(e)) { 0int } else { 1int }),
        at(ins(s, e), rk(e)) == Some(e),
{
    lemma_pos(s, rk(e));
    lemma_pos_unique(ins(s, e), rk(e), pos(s, rk(e)));
}
pub proof fn lemma_empty<T: Ord, U>(k: real)
    ensures
        pos(Seq::<Entry<T, U>>::empty(), k) == 0,
        !hask(Seq::<Entry<T, U>>::empty(), k),
        rem(Seq::<Entry<T, U>>::empty(), k) == Seq::<Entry<T, U>>::empty(),
        forall|e: Entry<T, U>| rk(e) == k ==> #[trigger] ins(Seq::<Entry<T, U>>::empty(), e) == seq![e],
{
    reveal(pos);
    assert forall|e: Entry<T, U>| rk(e) == k implies #[trigger] ins(Seq::<Entry<T, U>>::empty(), e) == seq![e] by {
        assert(ins(Seq::<Entry<T, U>>::empty(), e) =~= seq![e]);
    }
}

// all below k / all above k
pub open spec fn below<T: Ord, U>(s: Seq<Entry<T, U>>, k: real) -> bool { forall|i: int| 0 <= i < s.len() ==> rk(#[trigger] s[i]) < k }
pub open spec fn above<T: Ord, U>(s: Seq<Entry<T, U>>, k: real) -> bool { forall|i: int| 0 <= i < s.len() ==> rk(#[trigger] s[i]) > k }
// the entries below k, the entries above k
pub open spec fn lo<T: Ord, U>(s: Seq<Entry<T, U>>, k: real) -> Seq<Entry<T, U>> { s.subrange(0, pos(s, k)) }
pub open spec fn hi<T: Ord, U>(s: Seq<Entry<T, U>>, k: real) -> Seq<Entry<T, U>> { s.subrange(pos(s, k) + (if hask(s, k) { 1int } else { 0 }), s.len() as int) }

// a key is present iff at finds it
pub proof fn lemma_at_mem<T: Ord, U>(s: Seq<Entry<T, U>>, i: int)
    requires sorted(s), 0 <= i < s.len(),
    ensures at(s, rk(s[i])) == Some(s[i]), pos(s, rk(s[i])) == i,
{ lemma_pos_unique(s, rk(s[i]), i); }
pub proof fn lemma_at_rk<T: Ord, U>(s: Seq<Entry<T, U>>, k: real)
    requires sorted(s),
    ensures at(s, k) matches Some(e) ==> rk(e) == k,
{ lemma_pos(s, k); }
pub broadcast proof fn b_lt<T: Ord, U>(s: Seq<Entry<T, U>>, k: real)
    requires sorted(s),
    ensures
        sorted(#[trigger] lo(s, k)), below(lo(s, k), k),
        lo(s, k).len() + hi(s, k).len() + (if hask(s, k) { 1int } else { 0 }) == s.len(),
        forall|j: real| #[trigger] at(lo(s, k), j) == (if j < k { at(s, j) } else { None }),
{
    lemma_pos(s, k);
    assert forall|j: real| #[trigger] at(lo(s, k), j) == (if j < k { at(s, j) } else { None }) by {
        let t = lo(s, k);
        lemma_pos(s, j);
        lemma_pos(t, j);
        if j < k {
            if hask(s, j) { assert(pos(s, j) < pos(s, k)); assert(t[pos(s, j)] == s[pos(s, j)]); lemma_pos_unique(t, j, pos(s, j)); }
            else if hask(t, j) { assert(s[pos(t, j)] == t[pos(t, j)]); lemma_at_mem(s, pos(t, j)); }
        } else if hask(t, j) { assert(s[pos(t, j)] == t[pos(t, j)]); }
    }
}
pub broadcast proof fn b_gt<T: Ord, U>(s: Seq<Entry<T, U>>, k: real)
    requires sorted(s),
    ensures
        sorted(#[trigger] hi(s, k)), above(hi(s, k), k),
        lo(s, k).len() + hi(s, k).len() + (if hask(s, k) { 1int } else { 0 }) == s.len(),
        forall|j: real| #[trigger] at(hi(s, k), j) == (if j > k { at(s, j) } else { None }),
{
    lemma_pos(s, k);
    let d = pos(s, k) + (if hask(s, k) { 1int } else { 0 });
    let t = hi(s, k);
    assert forall|i: int| 0 <= i < t.len() implies rk(#[trigger] t[i]) > k by { 
        assert(t[i] == s[d + i]);
        if hask(s, k) { assert(rk(s[pos(s, k)]) < rk(s[d + i])); } else { assert(rk(s[pos(s, k)]) != k); if i > 0 { assert(rk(s[d]) < rk(s[d + i])); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies rk(#[trigger] t[i]) < rk(#[trigger] t[j]) by { assert(rk(s[d + i]) < rk(s[d + j])); }
    assert forall|j: real| #[trigger] at(t, j) == (if j > k { at(s, j) } else { None }) by {
        lemma_pos(s, j);
        lemma_pos(t, j);
        if j > k {
            if hask(s, j) {
                assert(pos(s, j) >= d);
                let i = pos(s, j) - d;
                assert(t[i] == s[pos(s, j)]);
                lemma_at_mem(t, i);
            }
            else if hask(t, j) { assert(s[d + pos(t, j)] == t[pos(t, j)]); lemma_at_mem(s, d + pos(t, j)); }
        } else if hask(t, j) { assert(s[d + pos(t, j)] == t[pos(t, j)]); }
    }
}
pub broadcast proof fn b_lt_cat<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures #[trigger] lo(cat(l, x, r), k) == (if k < rk(x) { lo(l, k) } else if k == rk(x) { l } else { cat(l, x, lo(r, k)) }),
{
    lemma_cat_pos(l, x, r, k);
    assert(lo(cat(l, x, r), k) =~= (if k < rk(x) { lo(l, k) } else if k == rk(x) { l } else { cat(l, x, lo(r, k)) }));
}
pub broadcast proof fn b_gt_cat<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures #[trigger] hi(cat(l, x, r), k) == (if k < rk(x) { cat(hi(l, k), x, r) } else if k == rk(x) { r } else { hi(r, k) }),
{
    lemma_cat_pos(l, x, r, k);
    assert(hi(cat(l, x, r), k) =~= (if k < rk(x) { cat(hi(l, k), x, r) } else if k == rk(x) { r } else { hi(r, k) }));
}
pub broadcast proof fn b_lt0<T: Ord, U>(k: real)
    ensures #[trigger] lo(Seq::<Entry<T, U>>::empty(), k) == Seq::<Entry<T, U>>::empty(), hi(Seq::<Entry<T, U>>::empty(), k) == Seq::<Entry<T, U>>::empty(),
{
    lemma_empty::<T, U>(k);
    assert(lo(Seq::<Entry<T, U>>::empty(), k) =~= Seq::<Entry<T, U>>::empty());
    assert(hi(Seq::<Entry<T, U>>::empty(), k) =~= Seq::<Entry<T, U>>::empty());
}
pub broadcast proof fn b_ins_split<T: Ord, U>(s: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires sorted(s),
    ensures #[trigger] ins(s, e) == cat(lo(s, rk(e)), e, hi(s, rk(e))),
{
    lemma_pos(s, rk(e));
    assert(ins(s, e) =~= cat(lo(s, rk(e)), e, hi(s, rk(e))));
}
// parts whose keys lie on the right sides of x
pub open spec fn fits<T: Ord, U>(l: Seq<Entry<T, U>>, x: real, r: Seq<Entry<T, U>>) -> bool {
    &&& sorted(l) && sorted(r)
    &&& forall|k: real| k >= x ==> #[trigger] at(l, k) is None
    &&& forall|k: real| k <= x ==> #[trigger] at(r, k) is None
}
pub broadcast proof fn b_glue<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    requires fits(l, rk(x), r),
    ensures sorted(#[trigger] cat(l, x, r)),
{
    assert forall|i: int| 0 <= i < l.len() implies rk(#[trigger] l[i]) < rk(x) by { lemma_at_mem(l, i); if rk(l[i]) >= rk(x) { assert(at(l, rk(l[i])) is None); } }
    assert forall|i: int| 0 <= i < r.len() implies rk(x) < rk(#[trigger] r[i]) by { lemma_at_mem(r, i); if rk(r[i]) <= rk(x) { assert(at(r, rk(r[i])) is None); } }
    lemma_glue(l, x, r);
}
pub broadcast proof fn b_fits<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    requires #[trigger] sorted(cat(l, x, r)),
    ensures fits(l, rk(x), r),
{
    lemma_parts(l, x, r);
    assert forall|k: real| k >= rk(x) implies #[trigger] at(l, k) is None by { lemma_pos(l, k); }
    assert forall|k: real| k <= rk(x) implies #[trigger] at(r, k) is None by { lemma_pos(r, k); }
}
pub broadcast proof fn b_cat_len<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    ensures (#[trigger] cat(l, x, r)).len() == l.len() + 1 + r.len(),
{}
pub broadcast proof fn b_at_rk<T: Ord, U>(s: Seq<Entry<T, U>>, k: real)
    requires sorted(s),
    ensures #[trigger] at(s, k) matches Some(e) ==> rk(e) == k,
{ lemma_at_rk(s, k); }
pub open spec fn or<A>(a: Option<A>, b: Option<A>) -> Option<A> { if a is Some { a } else { b } }
// every key of l is below every key of r
pub open spec fn apart<T: Ord, U>(l: Seq<Entry<T, U>>, r: Seq<Entry<T, U>>) -> bool {
    forall|j: real, k: real| (#[trigger] at(l, j)) is Some && (#[trigger] at(r, k)) is Some ==> j < k
}
pub broadcast proof fn b_join<T: Ord, U>(l: Seq<Entry<T, U>>, r: Seq<Entry<T, U>>)
    requires sorted(l), sorted(r), apart(l, r),
    ensures
        sorted(#[trigger] (l + r)),
        forall|k: real| #[trigger] at(l + r, k) == or(at(l, k), at(r, k)),
        (l + r).len() == l.len() + r.len(),
{
    let s = l + r;
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < r.len() implies rk(#[trigger] l[i]) < rk(#[trigger] r[j]) by {
        lemma_at_mem(l, i); lemma_at_mem(r, j);
        assert(at(l, rk(l[i])) is Some && at(r, rk(r[j])) is Some);
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies rk(#[trigger] s[i]) < rk(#[trigger] s[j]) by {
        if j < l.len() { assert(rk(l[i]) < rk(l[j])); }
        else if i >= l.len() { assert(rk(r[i - l.len()]) < rk(r[j - l.len()])); }
        else { assert(s[i] == l[i]); assert(s[j] == r[j - l.len()]); }
    }
    assert forall|k: real| #[trigger] at(s, k) == or(at(l, k), at(r, k)) by {
        lemma_pos(s, k); lemma_pos(l, k); lemma_pos(r, k);
        if hask(s, k) {
            let p = pos(s, k);
            if p < l.len() { assert(s[p] == l[p]); lemma_at_mem(l, p); }
            else {
                assert(s[p] == r[p - l.len()]); lemma_at_mem(r, p - l.len());
                if at(l, k) is Some { assert(at(r, k) is Some); }
            }
        } else {
            if hask(l, k) { assert(s[pos(l, k)] == l[pos(l, k)]); lemma_at_mem(s, pos(l, k)); }
            if hask(r, k) { assert(s[l.len() + pos(r, k)] == r[pos(r, k)]); lemma_at_mem(s, l.len() + pos(r, k)); }
        }
    }
}
// the set operations on maps: what a lookup in the result finds
pub open spec fn is_union<T: Ord, U>(s: Seq<Entry<T, U>>, a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>) -> bool {
    sorted(s) && forall|k: real| #[trigger] at(s, k) == or(at(a, k), at(b, k))
}
pub open spec fn is_inter<T: Ord, U>(s: Seq<Entry<T, U>>, a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>) -> bool {
    sorted(s) && forall|k: real| #[trigger] at(s, k) == (if at(b, k) is Some { at(a, k) } else { None })
}
pub open spec fn is_diff<T: Ord, U>(s: Seq<Entry<T, U>>, a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>) -> bool {
    sorted(s) && forall|k: real| #[trigger] at(s, k) == (if at(b, k) is Some { None } else { at(a, k) })
}
pub open spec fn is_sym<T: Ord, U>(s: Seq<Entry<T, U>>, a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>) -> bool {
    sorted(s) && forall|k: real| #[trigger] at(s, k) == (if at(a, k) is Some { if at(b, k) is Some { None } else { at(a, k) } } else { at(b, k) })
}
// a sorted sequence is determined by what it finds
pub proof fn lemma_determined<T: Ord, U>(a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>)
    requires sorted(a), sorted(b), forall|k: real| #[trigger] at(a, k) == at(b, k),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { lemma_at_mem(b, 0); lemma_pos(a, rk(b[0])); assert(at(a, rk(b[0])) == at(b, rk(b[0]))); }
        assert(a =~= b);
    } else if b.len() == 0 {
        lemma_at_mem(a, 0); lemma_pos(b, rk(a[0])); assert(at(a, rk(a[0])) == at(b, rk(a[0])));
    } else {
        let n = a.len() - 1;
        let m = b.len() - 1;
        lemma_at_mem(a, n); lemma_at_mem(b, m);
        assert(at(a, rk(a[n])) == at(b, rk(a[n])));
        assert(at(a, rk(b[m])) == at(b, rk(b[m])));
        lemma_pos(b, rk(a[n])); lemma_pos(a, rk(b[m]));
        let pb = pos(b, rk(a[n]));
        let pa = pos(a, rk(b[m]));
        assert(b[pb] == a[n]);
        assert(a[pa] == b[m]);
        if pb < m { assert(rk(b[pb]) < rk(b[m])); if pa < n { assert(rk(a[pa]) < rk(a[n])); } }
        assert(a[n] == b[m]);
        let k0 = rk(a[n]);
        let a1 = a.drop_last();
        let b1 = b.drop_last();
        assert(lo(a, k0) =~= a1);
        assert(lo(b, k0) =~= b1);
        b_lt(a, k0); b_lt(b, k0);
        assert forall|k: real| #[trigger] at(a1, k) == at(b1, k) by { assert(at(a, k) == at(b, k)); }
        lemma_determined(a1, b1);
        assert(a =~= a1.push(a[n]));
        assert(b =~= b1.push(b[m]));
    }
}

// the same facts as broadcasts
pub broadcast proof fn b_parts<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    requires #[trigger] sorted(cat(l, x, r)),
    ensures
        sorted(l), sorted(r),
        forall|i: int| 0 <= i < l.len() ==> rk(#[trigger] l[i]) < rk(x),
        forall|i: int| 0 <= i < r.len() ==> rk(x) < rk(#[trigger] r[i]),
{ lemma_parts(l, x, r); }
pub broadcast proof fn b_rem<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures #[trigger] rem(cat(l, x, r), k) == (if k < rk(x) { cat(rem(l, k), x, r) } else if k == rk(x) { l + r } else { cat(l, x, rem(r, k)) }),
{ lemma_cat(l, x, r, k); }
pub broadcast proof fn b_at<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)),
    ensures #[trigger] at(cat(l, x, r), k) == (if k < rk(x) { at(l, k) } else if k == rk(x) { Some(x) } else { at(r, k) }),
{ lemma_cat(l, x, r, k); }
pub broadcast proof fn b_ins<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires sorted(cat(l, x, r)),
    ensures #[trigger] ins(cat(l, x, r), e) == (if rk(e) < rk(x) { cat(ins(l, e), x, r) } else if rk(e) == rk(x) { cat(l, e, r) } else { cat(l, x, ins(r, e)) }),
{ lemma_cat_ins(l, x, r, e); }
pub broadcast proof fn b_rem0<T: Ord, U>(k: real)
    ensures #[trigger] rem(Seq::<Entry<T, U>>::empty(), k) == Seq::<Entry<T, U>>::empty(),
{ lemma_empty::<T, U>(k); }
pub broadcast proof fn b_at0<T: Ord, U>(k: real)
    ensures #[trigger] at(Seq::<Entry<T, U>>::empty(), k) is None,
{ lemma_empty::<T, U>(k); }
pub broadcast proof fn b_ins0<T: Ord, U>(e: Entry<T, U>)
    ensures #[trigger] ins(Seq::<Entry<T, U>>::empty(), e) == seq![e],
{ lemma_empty::<T, U>(rk(e)); }
pub broadcast proof fn b_cat0<T, U>(l: Seq<Entry<T, U>>, r: Seq<Entry<T, U>>)
    ensures #![trigger l + r] l.len() == 0 ==> l + r == r, r.len() == 0 ==> l + r == l,
{
    if l.len() == 0 { assert(l + r =~= r); }
    if r.len() == 0 { assert(l + r =~= l); }
}
pub broadcast group group_cat { b_parts, b_rem, b_at, b_ins, b_rem0, b_at0, b_ins0, b_cat0, lemma_first_cat, lemma_last_cat }
pub broadcast group group_split { b_lt, b_gt, b_lt_cat, b_gt_cat, b_lt0, b_ins_split }
pub broadcast group group_alg { b_lt, b_gt, b_lt0, b_glue, b_fits, b_at, b_at0, b_at_rk, b_join, b_cat_len, b_cat0 }
}
