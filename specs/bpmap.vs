//@ # BpMap: the B+ tree over the pages
//@ include bp.vs
//@ file src/bp_tree/map.rs as bp_tree::map

//@ results bp_tree::map::BpMap::new bp_tree::map::BpMap::with_degrees bp_tree::map::BpMap::open bp_tree::map::BpMap::contains_key
//@ inherent IntoIterator
//@ inherent Iterator
//@ spec bp_tree::map
use crate::disk::*;
use crate::omap::*;
use crate::cl::Clone;
use crate::bp_tree::node::*;
use crate::bp_tree::pager::*;

// ---- the tree on the pages: each live page has a height and an interval of keys ----
pub struct Attr { pub h: nat, pub lo: Option<real>, pub hi: Option<real> }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(U)]
pub struct GS<T, U> { pub g: Map<usize, Attr>, pub s: Seq<usize>, pub m: Map<real, Entry<T, U>>, pub hh: nat }

pub open spec fn abv(lo: Option<real>, r: real) -> bool { lo matches Some(x) ==> x <= r }
pub open spec fn sabv(lo: Option<real>, r: real) -> bool { lo matches Some(x) ==> x < r }
pub open spec fn blw(r: real, hi: Option<real>) -> bool { hi matches Some(x) ==> r < x }
pub open spec fn cov(a: Attr, r: real) -> bool { abv(a.lo, r) && blw(r, a.hi) }
pub open spec fn ne(a: Attr) -> bool { a.lo is Some && a.hi is Some ==> a.lo->Some_0 < a.hi->Some_0 }
pub open spec fn lft(a: Attr, b: Attr) -> bool { a.hi is Some && b.lo is Some && a.hi->Some_0 <= b.lo->Some_0 }
pub open spec fn disj(a: Attr, b: Attr) -> bool { lft(a, b) || lft(b, a) }
pub open spec fn klo<T: Ord>(ks: Seq<T>, i: int, lo: Option<real>) -> Option<real> { if i <= 0 { lo } else { Some(ks[i - 1].rank()) } }
pub open spec fn khi<T: Ord>(ks: Seq<T>, i: int, hi: Option<real>) -> Option<real> { if i >= ks.len() { hi } else { Some(ks[i].rank()) } }
pub open spec fn kattr<T: Ord>(a: Attr, ks: Seq<T>, i: int) -> Attr { Attr { h: (a.h - 1) as nat, lo: klo(ks, i, a.lo), hi: khi(ks, i, a.hi) } }

// the children of an internal page divide its interval at the separators
pub open spec fn kids<T: Ord>(g: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>) -> bool {
    &&& a.h > 0
    &&& ksorted(ks)
    &&& ps.len() == ks.len() + 1
    &&& forall|i: int| 0 <= i < ks.len() ==> sabv(a.lo, (#[trigger] ks[i]).rank()) && blw(ks[i].rank(), a.hi)
    &&& forall|i: int| 0 <= i < ps.len() ==> g.dom().contains(#[trigger] ps[i]) && g[ps[i]] == kattr(a, ks, i)
}
// the entries of a leaf are what the map holds in its interval
pub open spec fn mget<T, U>(m: Map<real, Entry<T, U>>, r: real) -> Option<Entry<T, U>> { if m.dom().contains(r) { Some(m[r]) } else { None } }
pub open spec fn ehas<T: Ord, U>(es: Seq<Entry<T, U>>, r: real) -> bool { exists|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == r }
pub open spec fn lseq<T: Ord, U>(m: Map<real, Entry<T, U>>, a: Attr, es: Seq<Entry<T, U>>) -> bool {
    &&& sorted(es)
    &&& forall|i: int| 0 <= i < es.len() ==> cov(a, rk(#[trigger] es[i])) && mget(m, rk(es[i])) == Some(es[i])
    &&& forall|r: real| cov(a, r) && (#[trigger] mget(m, r)) is Some ==> ehas(es, r)
}
pub open spec fn nextok(g: Map<usize, Attr>, a: Attr, next: Option<usize>) -> bool {
    match next { None => a.hi is None, Some(q) => g.dom().contains(q) && g[q].h == 0 && a.hi is Some && g[q].lo == a.hi }
}
pub open spec fn nodeok<T: Ord, U>(g: Map<usize, Attr>, m: Map<real, Entry<T, U>>, md: Metadata, a: Attr, n: Node<T, U>) -> bool {
    &&& nfit(n, md)
    &&& match n {
        Node::Leaf(l) => lwf(l) && a.h == 0 && lseq(m, a, les(l)) && nextok(g, a, l.next_leaf),
        Node::Internal(n) => iwf(n) && kids(g, a, iks(n), ips(n)),
        Node::Free(_) => false,
    }
}
pub open spec fn minp(md: Metadata) -> int { if (md.internal_degree + 1) / 2 > 2 { (md.internal_degree + 1) / 2 } else { 2 } }
pub open spec fn fill<T, U>(n: Node<T, U>, md: Metadata, root: bool) -> bool {
    match n {
        Node::Leaf(l) => root || l.len >= (md.leaf_degree + 1) / 2,
        Node::Internal(n) => n.len >= 1 && (root || n.len + 1 >= minp(md)),
        Node::Free(_) => true,
    }
}
pub open spec fn live<T, U>(gs: GS<T, U>, p: usize) -> bool { gs.g.dom().contains(p) }
pub open spec fn dom_ok<T, U>(gs: GS<T, U>, n: int) -> bool { forall|p: usize| #[trigger] live(gs, p) ==> p < n && gs.g[p].h <= gs.hh && ne(gs.g[p]) && !gs.s.contains(p) }
pub open spec fn disj_ok<T, U>(gs: GS<T, U>) -> bool { forall|p: usize, q: usize| #[trigger] live(gs, p) && #[trigger] live(gs, q) && p != q && gs.g[p].h == gs.g[q].h ==> disj(gs.g[p], gs.g[q]) }
pub open spec fn nodes_ok<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>) -> bool {
    forall|p: usize| #[trigger] live(gs, p) && x != Some(p) ==> nodeok(gs.g, gs.m, md, gs.g[p], pg[p as int]) && fill(pg[p as int], md, p == md.root_page)
}
pub open spec fn fnext(s: Seq<usize>, i: int) -> Option<usize> { if 0 <= i < s.len() { Some(s[i]) } else { None } }
pub open spec fn free_ok<T, U>(s: Seq<usize>, pg: Seq<Node<T, U>>, md: Metadata) -> bool {
    &&& s.no_duplicates()
    &&& md.free_page == fnext(s, 0)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < pg.len() && pg[s[i] as int] == Node::<T, U>::Free(fnext(s, i + 1))
}
// every live page except x holds a proper node
pub open spec fn good<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>) -> bool {
    &&& md_ok(md)
    &&& dom_ok(gs, pg.len() as int)
    &&& disj_ok(gs)
    &&& nodes_ok(gs, pg, md, x)
    &&& free_ok(gs.s, pg, md)
}
pub open spec fn rootok<T, U>(gs: GS<T, U>, md: Metadata) -> bool { live(gs, md.root_page) && gs.g[md.root_page] == (Attr { h: gs.hh, lo: None, hi: None }) }
pub open spec fn tree<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata) -> bool { good(gs, pg, md, None) && rootok(gs, md) && md.len == gs.m.dom().len() }
pub open spec fn gsof<T: Ord, U>(pg: Seq<Node<T, U>>, md: Metadata) -> GS<T, U> { choose|gs: GS<T, U>| tree(gs, pg, md) }

pub open spec fn samecfg(a: Metadata, b: Metadata) -> bool { a.key_size == b.key_size && a.value_size == b.value_size && a.leaf_degree == b.leaf_degree && a.internal_degree == b.internal_degree }

pub proof fn lemma_point(a: Attr) -> (r: real)
    requires ne(a),
    ensures cov(a, r),
{
    match a.lo { Some(x) => x, None => match a.hi { Some(y) => y - 1real, None => 0real } }
}
// what a page needs of the rest
pub proof fn lemma_frame<T: Ord, U>(g: Map<usize, Attr>, m: Map<real, Entry<T, U>>, md: Metadata, g2: Map<usize, Attr>, m2: Map<real, Entry<T, U>>, md2: Metadata, a: Attr, n: Node<T, U>)
    requires
        nodeok(g, m, md, a, n), samecfg(md, md2),
        n matches Node::Internal(k) ==> forall|i: int| 0 <= i < ips(k).len() ==> g2.dom().contains(#[trigger] ips(k)[i]) && g2[ips(k)[i]] == g[ips(k)[i]],
        n matches Node::Leaf(l) ==> (l.next_leaf matches Some(q) ==> g2.dom().contains(q) && g2[q].h == 0 && g2[q].lo == g[q].lo)
            && forall|r: real| cov(a, r) ==> #[trigger] mget(m2, r) == mget(m, r),
    ensures nodeok(g2, m2, md2, a, n),
{
    match n {
        Node::Leaf(l) => {
            let es = les(l);
            assert forall|i: int| 0 <= i < es.len() implies mget(m2, rk(#[trigger] es[i])) == Some(es[i]) by { assert(cov(a, rk(es[i]))); }
        }
        _ => {}
    }
}
pub proof fn lemma_klohi<T: Ord>(ks: Seq<T>, a: Attr, i: int)
    requires ksorted(ks), ne(a), 0 <= i <= ks.len(), forall|j: int| 0 <= j < ks.len() ==> sabv(a.lo, (#[trigger] ks[j]).rank()) && blw(ks[j].rank(), a.hi),
    ensures ne(kattr(a, ks, i)), forall|r: real| cov(kattr(a, ks, i), r) ==> #[trigger] cov(a, r),
{
    if i > 0 { assert(sabv(a.lo, ks[i - 1].rank()) && blw(ks[i - 1].rank(), a.hi)); }
    if i < ks.len() { assert(sabv(a.lo, ks[i].rank()) && blw(ks[i].rank(), a.hi)); }
    if 0 < i < ks.len() { assert(ks[i - 1].rank() < ks[i].rank()); }
}
// the key r goes to the child at its position
pub proof fn lemma_descend<T: Ord>(ks: Seq<T>, a: Attr, j: int, r: real)
    requires ksorted(ks), is_kpos(ks, r, j), cov(a, r),
    ensures cov(kattr(a, ks, j), r),
{
    if j > 0 { assert(ks[j - 1].rank() <= r); }
    if j < ks.len() { assert(ks[j].rank() > r); }
}
// a page is the child of one page
pub proof fn lemma_one_parent<T: Ord, U>(gs: GS<T, U>, p: usize, ks: Seq<T>, ps: Seq<usize>, i: int, q: usize, kt: Seq<T>, pt: Seq<usize>, j: int)
    requires
        disj_ok(gs), live(gs, p), live(gs, q), ne(gs.g[p]), ne(gs.g[q]), kids(gs.g, gs.g[p], ks, ps), kids(gs.g, gs.g[q], kt, pt), 0 <= i < ps.len(), 0 <= j < pt.len(), ps[i] == pt[j],
    ensures p == q,
{
    let c = gs.g[ps[i]];
    assert(c == kattr(gs.g[p], ks, i) && c == kattr(gs.g[q], kt, j));
    lemma_klohi(ks, gs.g[p], i);
    lemma_klohi(kt, gs.g[q], j);
    let r = lemma_point(c);
    assert(cov(gs.g[p], r) && cov(gs.g[q], r));
}
pub proof fn lemma_same_child<T: Ord>(g: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>, i: int, j: int)
    requires kids(g, a, ks, ps), 0 <= i < ps.len(), 0 <= j < ps.len(), ps[i] == ps[j],
    ensures i == j,
{
    assert(kattr(a, ks, i) == kattr(a, ks, j));
    let (x, y) = if i < j { (i, j) } else { (j, i) };
    if x < y {
        assert(sabv(a.lo, ks[y - 1].rank()));
        if x > 0 { assert(ks[x - 1].rank() < ks[y - 1].rank()); }
    }
}

// ---- separators and children: dividing, joining, adding and dropping one ----
pub proof fn lemma_kids_split<T: Ord>(g: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>, m: int, l: Attr, r: Attr)
    requires
        kids(g, a, ks, ps), 0 <= m < ks.len(),
        l == (Attr { hi: Some(ks[m].rank()), ..a }), r == (Attr { lo: Some(ks[m].rank()), ..a }),
    ensures
        kids(g, l, ks.subrange(0, m), ps.subrange(0, m + 1)), kids(g, r, ks.subrange(m + 1, ks.len() as int), ps.subrange(m + 1, ps.len() as int)),
        sabv(a.lo, ks[m].rank()), blw(ks[m].rank(), a.hi),
{
    let k1 = ks.subrange(0, m);
    let p1 = ps.subrange(0, m + 1);
    let k2 = ks.subrange(m + 1, ks.len() as int);
    let p2 = ps.subrange(m + 1, ps.len() as int);
    assert forall|i: int| 0 <= i < k1.len() implies sabv(l.lo, (#[trigger] k1[i]).rank()) && blw(k1[i].rank(), l.hi) by { assert(k1[i] == ks[i]); }
    assert forall|i: int| 0 <= i < p1.len() implies g.dom().contains(#[trigger] p1[i]) && g[p1[i]] == kattr(l, k1, i) by { assert(p1[i] == ps[i]); if i < m { assert(k1[i] == ks[i]); } }
    assert forall|i: int| 0 <= i < k2.len() implies sabv(r.lo, (#[trigger] k2[i]).rank()) && blw(k2[i].rank(), r.hi) by { assert(k2[i] == ks[i + m + 1]); }
    assert forall|i: int| 0 <= i < p2.len() implies g.dom().contains(#[trigger] p2[i]) && g[p2[i]] == kattr(r, k2, i) by { assert(p2[i] == ps[i + m + 1]); if i < k2.len() { assert(k2[i] == ks[i + m + 1]); } if i > 0 { assert(k2[i - 1] == ks[i + m]); } }
}
pub proof fn lemma_kids_join<T: Ord>(g: Map<usize, Attr>, l: Attr, r: Attr, a: Attr, k1: Seq<T>, p1: Seq<usize>, s: T, k2: Seq<T>, p2: Seq<usize>)
    requires
        kids(g, l, k1, p1), kids(g, r, k2, p2), l == (Attr { hi: Some(s.rank()), ..a }), r == (Attr { lo: Some(s.rank()), ..a }), ne(l), ne(r), l.lo matches Some(x) ==> x < s.rank(), r.hi matches Some(x) ==> s.rank() < x,
    ensures kids(g, a, k1.push(s) + k2, p1 + p2),
{
    let ks = k1.push(s) + k2;
    let ps = p1 + p2;
    let n = k1.len() as int;
    assert forall|i: int| 0 <= i < ks.len() implies sabv(a.lo, (#[trigger] ks[i]).rank()) && blw(ks[i].rank(), a.hi) && (i < n ==> ks[i].rank() < s.rank()) && (i > n ==> ks[i].rank() > s.rank()) by {
        if i < n { assert(ks[i] == k1[i]); } else if i > n { assert(ks[i] == k2[i - n - 1]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).rank() < (#[trigger] ks[j]).rank() by {
        if j < n { assert(ks[i] == k1[i] && ks[j] == k1[j]); }
        else if i > n { assert(ks[i] == k2[i - n - 1] && ks[j] == k2[j - n - 1]); }
        else { assert(ks[n] == s); }
    }
    assert forall|i: int| 0 <= i < ps.len() implies g.dom().contains(#[trigger] ps[i]) && g[ps[i]] == kattr(a, ks, i) by {
        if i <= n {
            assert(ps[i] == p1[i]);
            if i > 0 { assert(ks[i - 1] == k1[i - 1]); }
            if i < n { assert(ks[i] == k1[i]); }
        } else {
            assert(ps[i] == p2[i - n - 1]);
            if i > n + 1 { assert(ks[i - 1] == k2[i - n - 2]); }
            if i < ks.len() { assert(ks[i] == k2[i - n - 1]); }
        }
    }
}
// a child is divided in two
pub proof fn lemma_kids_add<T: Ord>(g: Map<usize, Attr>, g2: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>, i: int, k: T, new: usize)
    requires
        kids(g, a, ks, ps), 0 <= i < ps.len(), !g.dom().contains(new), ne(a),
        sabv(g[ps[i]].lo, k.rank()), blw(k.rank(), g[ps[i]].hi),
        g2 == g.insert(ps[i], Attr { hi: Some(k.rank()), ..g[ps[i]] }).insert(new, Attr { lo: Some(k.rank()), ..g[ps[i]] }),
    ensures kids(g2, a, kin(ks, i, k), pin(ps, i, new, true)), is_kpos(ks, k.rank(), i),
{
    let k2 = kin(ks, i, k);
    let p2 = pin(ps, i, new, true);
    let c = g[ps[i]];
    lemma_klohi(ks, a, i);
    if i > 0 { assert(sabv(a.lo, ks[i - 1].rank())); }
    if i < ks.len() { assert(blw(ks[i].rank(), a.hi)); }
    assert forall|j: int| 0 <= j < i implies (#[trigger] ks[j]).rank() <= k.rank() && ks[j].rank() < k.rank() by { assert(ks[j].rank() <= ks[i - 1].rank()); }
    assert forall|j: int| i <= j < ks.len() implies (#[trigger] ks[j]).rank() > k.rank() by { assert(ks[i].rank() <= ks[j].rank()); }
    assert forall|j: int| 0 <= j < k2.len() implies sabv(a.lo, (#[trigger] k2[j]).rank()) && blw(k2[j].rank(), a.hi) by {
        if j < i { assert(k2[j] == ks[j]); } else if j > i { assert(k2[j] == ks[j - 1]); }
    }
    assert forall|j: int, l: int| 0 <= j < l < k2.len() implies (#[trigger] k2[j]).rank() < (#[trigger] k2[l]).rank() by {
        if l < i { assert(k2[j] == ks[j] && k2[l] == ks[l]); }
        else if j > i { assert(k2[j] == ks[j - 1] && k2[l] == ks[l - 1]); }
        else if j < i && l > i { assert(k2[j] == ks[j] && k2[l] == ks[l - 1]); }
        else if l == i { assert(k2[j] == ks[j]); } else { assert(k2[l] == ks[l - 1]); }
    }
    assert forall|j: int| 0 <= j < p2.len() implies g2.dom().contains(#[trigger] p2[j]) && g2[p2[j]] == kattr(a, k2, j) by {
        if j <= i {
            assert(p2[j] == ps[j]);
            if j < i { if ps[j] == ps[i] { lemma_same_child(g, a, ks, ps, j, i); } assert(k2[j] == ks[j]); } else { assert(k2[j] == k); }
            if j > 0 { assert(k2[j - 1] == ks[j - 1]); }
        } else if j > i + 1 {
            assert(p2[j] == ps[j - 1]);
            if ps[j - 1] == ps[i] { lemma_same_child(g, a, ks, ps, j - 1, i); }
            assert(k2[j - 1] == ks[j - 2]);
            if j < k2.len() { assert(k2[j] == ks[j - 1]); }
        } else {
            assert(p2[j] == new);
            assert(k2[i] == k);
            if j < k2.len() { assert(k2[j] == ks[i]); }
        }
    }
}
// two neighbours become one
pub proof fn lemma_kids_drop<T: Ord>(g: Map<usize, Attr>, g2: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>, i: int)
    requires
        kids(g, a, ks, ps), 0 <= i < ks.len(),
        g2 == g.remove(ps[i + 1]).insert(ps[i], Attr { hi: g[ps[i + 1]].hi, ..g[ps[i]] }),
    ensures kids(g2, a, ks.remove(i), ps.remove(i + 1)),
{
    let k2 = ks.remove(i);
    let p2 = ps.remove(i + 1);
    assert forall|j: int| 0 <= j < k2.len() implies sabv(a.lo, (#[trigger] k2[j]).rank()) && blw(k2[j].rank(), a.hi) by { assert(k2[j] == ks[if j < i { j } else { j + 1 }]); }
    assert forall|j: int, l: int| 0 <= j < l < k2.len() implies (#[trigger] k2[j]).rank() < (#[trigger] k2[l]).rank() by {
        assert(k2[j] == ks[if j < i { j } else { j + 1 }] && k2[l] == ks[if l < i { l } else { l + 1 }]);
    }
    assert forall|j: int| 0 <= j < p2.len() implies g2.dom().contains(#[trigger] p2[j]) && g2[p2[j]] == kattr(a, k2, j) by {
        let o = if j <= i { j } else { j + 1 };
        assert(p2[j] == ps[o]);
        if ps[o] == ps[i] { lemma_same_child(g, a, ks, ps, o, i); }
        if ps[o] == ps[i + 1] { lemma_same_child(g, a, ks, ps, o, i + 1); }
        if 0 < j { assert(k2[j - 1] == ks[if j - 1 < i { j - 1 } else { j }]); }
        if j < k2.len() { assert(k2[j] == ks[if j < i { j } else { j + 1 }]); }
        assert(g[ps[i + 1]] == kattr(a, ks, i + 1));
        assert(g[ps[i]] == kattr(a, ks, i));
    }
}
// the separator of two neighbours moves
pub proof fn lemma_kids_move<T: Ord>(g: Map<usize, Attr>, g2: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>, i: int, k: T)
    requires
        kids(g, a, ks, ps), 0 <= i < ks.len(), ne(a), sabv(g[ps[i]].lo, k.rank()), blw(k.rank(), g[ps[i + 1]].hi),
        g2 == g.insert(ps[i], Attr { hi: Some(k.rank()), ..g[ps[i]] }).insert(ps[i + 1], Attr { lo: Some(k.rank()), ..g[ps[i + 1]] }),
    ensures kids(g2, a, ks.update(i, k), ps),
{
    let k2 = ks.update(i, k);
    assert(g[ps[i]] == kattr(a, ks, i) && g[ps[i + 1]] == kattr(a, ks, i + 1));
    if i > 0 { assert(sabv(a.lo, ks[i - 1].rank())); }
    if i + 1 < ks.len() { assert(blw(ks[i + 1].rank(), a.hi)); }
    assert forall|j: int| 0 <= j < k2.len() implies sabv(a.lo, (#[trigger] k2[j]).rank()) && blw(k2[j].rank(), a.hi) by { if j != i { assert(k2[j] == ks[j]); } }
    assert forall|j: int, l: int| 0 <= j < l < k2.len() implies (#[trigger] k2[j]).rank() < (#[trigger] k2[l]).rank() by {
        if j != i { assert(k2[j] == ks[j]); if l == i { assert(ks[j].rank() <= ks[i - 1].rank()); } }
        if l != i { assert(k2[l] == ks[l]); if j == i { assert(ks[i + 1].rank() <= ks[l].rank()); } }
    }
    assert forall|j: int| 0 <= j < ps.len() implies g2.dom().contains(#[trigger] ps[j]) && g2[ps[j]] == kattr(a, k2, j) by {
        if ps[j] == ps[i] { lemma_same_child(g, a, ks, ps, j, i); }
        if ps[j] == ps[i + 1] { lemma_same_child(g, a, ks, ps, j, i + 1); }
        if j > 0 && j - 1 != i { assert(k2[j - 1] == ks[j - 1]); }
        if j < ks.len() && j != i { assert(k2[j] == ks[j]); }
    }
}

// ---- the entries of leaves ----
pub proof fn lemma_lseq_split<T: Ord, U>(m: Map<real, Entry<T, U>>, a: Attr, es: Seq<Entry<T, U>>, k: int, l: Attr, r: Attr)
    requires lseq(m, a, es), 0 < k < es.len(), l == (Attr { hi: Some(rk(es[k])), ..a }), r == (Attr { lo: Some(rk(es[k])), ..a }),
    ensures lseq(m, l, es.subrange(0, k)), lseq(m, r, es.subrange(k, es.len() as int)), sabv(a.lo, rk(es[k])), blw(rk(es[k]), a.hi),
{
    let e1 = es.subrange(0, k);
    let e2 = es.subrange(k, es.len() as int);
    assert(rk(es[0]) < rk(es[k]) && cov(a, rk(es[0])) && cov(a, rk(es[k])));
    assert forall|i: int| 0 <= i < e1.len() implies cov(l, rk(#[trigger] e1[i])) && mget(m, rk(e1[i])) == Some(e1[i]) by { assert(e1[i] == es[i]); }
    assert forall|i: int| 0 <= i < e2.len() implies cov(r, rk(#[trigger] e2[i])) && mget(m, rk(e2[i])) == Some(e2[i]) by { assert(e2[i] == es[i + k]); }
    assert forall|x: real| cov(l, x) && (#[trigger] mget(m, x)) is Some implies ehas(e1, x) by {
        assert(cov(a, x));
        assert(ehas(es, x));
        let i = choose|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == x;
        if i >= k { assert(rk(es[k]) <= rk(es[i])); }
        assert(rk(e1[i]) == x);
    }
    assert forall|x: real| cov(r, x) && (#[trigger] mget(m, x)) is Some implies ehas(e2, x) by {
        assert(cov(a, x));
        assert(ehas(es, x));
        let i = choose|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == x;
        if i < k { assert(rk(es[i]) < rk(es[k])); }
        assert(rk(e2[i - k]) == x);
    }
}
pub proof fn lemma_lseq_join<T: Ord, U>(m: Map<real, Entry<T, U>>, l: Attr, r: Attr, a: Attr, e1: Seq<Entry<T, U>>, e2: Seq<Entry<T, U>>)
    requires
        lseq(m, l, e1), lseq(m, r, e2), l.hi is Some, l == (Attr { hi: l.hi, ..a }), r == (Attr { lo: l.hi, ..a }), ne(l), ne(r),
    ensures lseq(m, a, e1 + e2),
{
    let es = e1 + e2;
    let n = e1.len() as int;
    assert forall|i: int| 0 <= i < es.len() implies cov(a, rk(#[trigger] es[i])) && mget(m, rk(es[i])) == Some(es[i]) && (i < n ==> cov(l, rk(es[i]))) && (i >= n ==> cov(r, rk(es[i]))) by {
        if i < n { assert(es[i] == e1[i]); } else { assert(es[i] == e2[i - n]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies rk(#[trigger] es[i]) < rk(#[trigger] es[j]) by {
        if j < n { assert(es[i] == e1[i] && es[j] == e1[j]); } else if i >= n { assert(es[i] == e2[i - n] && es[j] == e2[j - n]); }
    }
    assert forall|x: real| cov(a, x) && (#[trigger] mget(m, x)) is Some implies ehas(es, x) by {
        if cov(l, x) {
            assert(ehas(e1, x));
            let i = choose|i: int| 0 <= i < e1.len() && rk(#[trigger] e1[i]) == x;
            assert(rk(es[i]) == x);
        } else {
            assert(cov(r, x));
            assert(ehas(e2, x));
            let i = choose|i: int| 0 <= i < e2.len() && rk(#[trigger] e2[i]) == x;
            assert(rk(es[i + n]) == x);
        }
    }
}
pub proof fn lemma_lseq_ins<T: Ord, U>(m: Map<real, Entry<T, U>>, a: Attr, es: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires lseq(m, a, es), cov(a, rk(e)),
    ensures lseq(m.insert(rk(e), e), a, ins(es, e)),
{
    let m2 = m.insert(rk(e), e);
    let e2 = ins(es, e);
    let p = pos(es, rk(e));
    lemma_pos(es, rk(e));
    let h = hask(es, rk(e));
    assert forall|i: int, j: int| 0 <= i < j < e2.len() implies rk(#[trigger] e2[i]) < rk(#[trigger] e2[j]) by {
        if h { if i != p { assert(e2[i] == es[i]); } if j != p { assert(e2[j] == es[j]); } assert(rk(es[i]) < rk(es[j])); }
        else {
            if i < p { assert(e2[i] == es[i]); } else if i > p { assert(e2[i] == es[i - 1]); }
            if j < p { assert(e2[j] == es[j]); } else if j > p { assert(e2[j] == es[j - 1]); }
            if p < es.len() && p == i { assert(rk(es[p]) <= rk(es[j - 1])); assert(rk(es[p]) != rk(e)); }
        }
    }
    assert forall|i: int| 0 <= i < e2.len() implies cov(a, rk(#[trigger] e2[i])) && mget(m2, rk(e2[i])) == Some(e2[i]) by {
        assert(e2[p] == e && rk(e2[p]) == rk(e));
        if i < p { assert(e2[i] == es[i]); assert(rk(e2[i]) < rk(e2[p])); } else if i > p { assert(e2[i] == es[if h { i } else { i - 1 }]); assert(rk(e2[p]) < rk(e2[i])); }
    }
    assert forall|x: real| cov(a, x) && (#[trigger] mget(m2, x)) is Some implies ehas(e2, x) by {
        if x == rk(e) { assert(rk(e2[p]) == x); }
        else {
            assert(mget(m, x) is Some);
            assert(ehas(es, x));
            let i = choose|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == x;
            assert(e2[if i < p || h { i } else { i + 1 }] == es[i]);
        }
    }
}
pub proof fn lemma_lseq_at<T: Ord, U>(m: Map<real, Entry<T, U>>, a: Attr, es: Seq<Entry<T, U>>, r: real)
    requires lseq(m, a, es), cov(a, r),
    ensures at(es, r) == mget(m, r), hask(es, r) == (mget(m, r) is Some),
{
    lemma_pos(es, r);
    if mget(m, r) is Some {
        assert(ehas(es, r));
        let i = choose|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == r;
        assert(is_pos(es, r, i));
        lemma_pos_unique(es, r, i);
    }
}
pub proof fn lemma_lseq_rem<T: Ord, U>(m: Map<real, Entry<T, U>>, a: Attr, es: Seq<Entry<T, U>>, r: real)
    requires lseq(m, a, es), cov(a, r),
    ensures lseq(m.remove(r), a, rem(es, r)),
{
    let m2 = m.remove(r);
    let e2 = rem(es, r);
    let p = pos(es, r);
    lemma_pos(es, r);
    lemma_lseq_at(m, a, es, r);
    let h = hask(es, r);
    if h {
        assert forall|i: int, j: int| 0 <= i < j < e2.len() implies rk(#[trigger] e2[i]) < rk(#[trigger] e2[j]) by {
            assert(e2[i] == es[if i < p { i } else { i + 1 }] && e2[j] == es[if j < p { j } else { j + 1 }]);
        }
        assert forall|i: int| 0 <= i < e2.len() implies cov(a, rk(#[trigger] e2[i])) && mget(m2, rk(e2[i])) == Some(e2[i]) by {
            let o = if i < p { i } else { i + 1 };
            assert(e2[i] == es[o]);
            assert(rk(es[o]) != rk(es[p]));
        }
        assert forall|x: real| cov(a, x) && (#[trigger] mget(m2, x)) is Some implies ehas(e2, x) by {
            assert(mget(m, x) is Some && x != r);
            assert(ehas(es, x));
            let i = choose|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == x;
            assert(e2[if i < p { i } else { i - 1 }] == es[i]);
        }
    } else {
        assert forall|i: int| 0 <= i < e2.len() implies cov(a, rk(#[trigger] e2[i])) && mget(m2, rk(e2[i])) == Some(e2[i]) by { assert(mget(m, rk(es[i])) is Some); }
        assert forall|x: real| cov(a, x) && (#[trigger] mget(m2, x)) is Some implies ehas(e2, x) by { assert(mget(m, x) is Some); }
    }
}

// ---- steps of the tree ----
pub open spec fn agree_off<T, U>(a: Attr, m: Map<real, Entry<T, U>>, m2: Map<real, Entry<T, U>>) -> bool { forall|r: real| !cov(a, r) ==> #[trigger] mget(m2, r) == mget(m, r) }
pub proof fn lemma_agree<T, U>(a: Attr, b: Attr, m: Map<real, Entry<T, U>>, m2: Map<real, Entry<T, U>>)
    requires disj(a, b), agree_off(a, m, m2),
    ensures forall|r: real| cov(b, r) ==> #[trigger] mget(m2, r) == mget(m, r),
{
}
// a page gets a node with the same interval
pub proof fn lemma_put<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, c: usize, n: Node<T, U>, m2: Map<real, Entry<T, U>>)
    requires
        good(gs, pg, md, x), x is None || x == Some(c), live(gs, c), nodeok(gs.g, m2, md, gs.g[c], n), fill(n, md, c == md.root_page),
        agree_off(gs.g[c], gs.m, m2), gs.g[c].h > 0 ==> m2 == gs.m,
    ensures good(GS { m: m2, ..gs }, pg.update(c as int, n), md, None),
{
    let gs2 = GS { m: m2, ..gs };
    let pg2 = pg.update(c as int, n);
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg2.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by { assert(live(gs, p)); }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by { assert(live(gs, p) && live(gs, q)); }
    assert forall|p: usize| #[trigger] live(gs2, p) implies nodeok(gs2.g, gs2.m, md, gs2.g[p], pg2[p as int]) && fill(pg2[p as int], md, p == md.root_page) by {
        assert(live(gs, p));
        if p != c {
            if gs.g[p].h == gs.g[c].h { lemma_agree(gs.g[c], gs.g[p], gs.m, m2); }
            lemma_frame(gs.g, gs.m, md, gs.g, m2, md, gs.g[p], pg[p as int]);
        }
    }
    assert forall|i: int| 0 <= i < gs.s.len() implies (#[trigger] gs.s[i]) < pg2.len() && pg2[gs.s[i] as int] == Node::<T, U>::Free(fnext(gs.s, i + 1)) by { assert(gs.s.contains(gs.s[i])); }
}
// a page is taken from the free list, or added
pub open spec fn gs_alloc<T, U>(gs: GS<T, U>) -> GS<T, U> { GS { s: if gs.s.len() > 0 { gs.s.drop_first() } else { gs.s }, ..gs } }
pub proof fn lemma_alloc<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, i: usize, n: Node<T, U>, pg2: Seq<Node<T, U>>, md2: Metadata)
    requires
        good(gs, pg, md, x), pg.len() == md.pages,
        match md.free_page {
            None => i == pg.len() && pg2 == pg.push(n) && md2 == (Metadata { pages: md2.pages, ..md }) && md2.pages == pg2.len(),
            Some(f) => i == f && pg2 == pg.update(i as int, n) && md2 == (Metadata { free_page: pg[f as int]->Free_0, ..md }),
        },
    ensures
        good(gs_alloc(gs), pg2, md2, x), !live(gs, i), !gs_alloc(gs).s.contains(i), i < pg2.len(), pg2[i as int] == n, pg2.len() >= pg.len(),
        forall|p: usize| #[trigger] live(gs, p) ==> pg2[p as int] == pg[p as int],
{
    let gs2 = gs_alloc(gs);
    if gs.s.len() > 0 {
        assert(gs.s[0] == i && gs.s.contains(i));
        assert forall|j: int| 0 <= j < gs2.s.len() implies gs2.s[j] == gs.s[j + 1] && gs2.s[j] != i by {}
        assert(gs2.s.no_duplicates());
    }
    assert forall|p: usize| #[trigger] live(gs, p) implies pg2[p as int] == pg[p as int] && p != i by {}
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg2.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by {
        assert(live(gs, p));
        if gs2.s.contains(p) { let j = choose|j: int| 0 <= j < gs2.s.len() && gs2.s[j] == p; assert(gs.s.len() > 0); assert(gs.s[j + 1] == p); }
    }
    assert(!gs2.s.contains(i)) by { if gs2.s.contains(i) { let j = choose|j: int| 0 <= j < gs2.s.len() && gs2.s[j] == i; if gs.s.len() > 0 { } else { } } }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by { assert(live(gs, p) && live(gs, q)); }
    assert forall|p: usize| #[trigger] live(gs2, p) && x != Some(p) implies nodeok(gs2.g, gs2.m, md2, gs2.g[p], pg2[p as int]) && fill(pg2[p as int], md2, p == md2.root_page) by {
        assert(live(gs, p));
        assert(md.root_page == md2.root_page);
        lemma_frame(gs.g, gs.m, md, gs.g, gs.m, md2, gs.g[p], pg[p as int]);
    }
    assert forall|j: int| 0 <= j < gs2.s.len() implies (#[trigger] gs2.s[j]) < pg2.len() && pg2[gs2.s[j] as int] == Node::<T, U>::Free(fnext(gs2.s, j + 1)) by {
        if gs.s.len() > 0 { assert(gs2.s[j] == gs.s[j + 1]); assert(gs.s[j + 1] != gs.s[0]); assert(fnext(gs2.s, j + 1) == fnext(gs.s, j + 2)); }
    }
}
// the interval of a page is divided: the upper part goes to a new page
pub open spec fn gs_split<T: Ord, U>(gs: GS<T, U>, c: usize, new: usize, s: real, m2: Map<real, Entry<T, U>>) -> GS<T, U> {
    GS { g: gs.g.insert(c, Attr { hi: Some(s), ..gs.g[c] }).insert(new, Attr { lo: Some(s), ..gs.g[c] }), m: m2, ..gs }
}
pub proof fn lemma_split<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, c: usize, new: usize, k: T, n1: Node<T, U>, m2: Map<real, Entry<T, U>>, par: Option<(usize, Node<T, U>, int)>) -> (gs2: GS<T, U>)
    requires
        good(gs, pg, md, x), x is None || x == Some(c), live(gs, c), !live(gs, new), new < pg.len(), !gs.s.contains(new),
        sabv(gs.g[c].lo, k.rank()), blw(k.rank(), gs.g[c].hi),
        nodeok(gs_split(gs, c, new, k.rank(), m2).g, m2, md, Attr { hi: Some(k.rank()), ..gs.g[c] }, n1), fill(n1, md, false),
        nodeok(gs_split(gs, c, new, k.rank(), m2).g, m2, md, Attr { lo: Some(k.rank()), ..gs.g[c] }, pg[new as int]), fill(pg[new as int], md, false),
        agree_off(gs.g[c], gs.m, m2), gs.g[c].h > 0 ==> m2 == gs.m,
        match par {
            Some((y, ny, i)) => live(gs, y) && gs.g[y].h == gs.g[c].h + 1 && pg[y as int] == ny && (ny matches Node::Internal(n) && 0 <= i <= n.len && ips(n)[i] == c),
            None => gs.g[c].h == gs.hh,
        },
    ensures
        gs2 == gs_split(gs, c, new, k.rank(), m2),
        good(gs2, pg.update(c as int, n1), md, match par { Some((y, _, _)) => Some(y), None => None }),
        par matches Some((y, ny, i)) ==> (ny matches Node::Internal(n) ==> kids(gs2.g, gs2.g[y], kin(iks(n), i, k), pin(ips(n), i, new, true)) && is_kpos(iks(n), k.rank(), i) && gs2.g[y] == gs.g[y]),
{
    let gs2 = gs_split(gs, c, new, k.rank(), m2);
    let a = gs.g[c];
    let pg2 = pg.update(c as int, n1);
    let z = match par { Some((y, _, _)) => Some(y), None => None };
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg2.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by { assert(live(gs, c)); if p != new { assert(live(gs, p)); } }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by {
        if p != new { assert(live(gs, p)); }
        if q != new { assert(live(gs, q)); }
        if p != new && p != c && q == new { assert(disj(gs.g[p], a)); }
        if q != new && q != c && p == new { assert(disj(gs.g[q], a)); }
    }
    assert forall|p: usize| #[trigger] live(gs2, p) && z != Some(p) implies nodeok(gs2.g, gs2.m, md, gs2.g[p], pg2[p as int]) && fill(pg2[p as int], md, p == md.root_page) by {
        if p != new && p != c {
            assert(live(gs, p));
            if gs.g[p].h == a.h { lemma_agree(a, gs.g[p], gs.m, m2); }
            match pg[p as int] {
                Node::Internal(n) => {
                    assert forall|i: int| 0 <= i < ips(n).len() implies gs2.g.dom().contains(#[trigger] ips(n)[i]) && gs2.g[ips(n)[i]] == gs.g[ips(n)[i]] by {
                        if ips(n)[i] == c {
                            match par {
                                Some((y, ny, j)) => { if let Node::Internal(o) = ny { assert(nodeok(gs.g, gs.m, md, gs.g[y], ny)); lemma_one_parent(gs, p, iks(n), ips(n), i, y, iks(o), ips(o), j); } }
                                None => { assert(gs.g[c] == kattr(gs.g[p], iks(n), i)); }
                            }
                        }
                    }
                }
                _ => {}
            }
            lemma_frame(gs.g, gs.m, md, gs2.g, m2, md, gs.g[p], pg[p as int]);
        }
    }
    assert forall|i: int| 0 <= i < gs.s.len() implies (#[trigger] gs.s[i]) < pg2.len() && pg2[gs.s[i] as int] == Node::<T, U>::Free(fnext(gs.s, i + 1)) by { assert(gs.s.contains(gs.s[i])); }
    if let Some((y, Node::Internal(n), i)) = par {
        assert(nodeok(gs.g, gs.m, md, gs.g[y], pg[y as int]));
        lemma_kids_add(gs.g, gs2.g, gs.g[y], iks(n), ips(n), i, k, new);
    }
    gs2
}
// a root above the two halves of the old one
pub proof fn lemma_root<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, c: usize, new: usize, k: T, r: usize, md2: Metadata) -> (gs2: GS<T, U>)
    requires
        good(gs, pg, md, None), live(gs, c), live(gs, new), c == md.root_page, fill(pg[c as int], md, false), fill(pg[new as int], md, false),
        gs.g[c] == (Attr { h: gs.hh, lo: None, hi: Some(k.rank()) }), gs.g[new] == (Attr { h: gs.hh, lo: Some(k.rank()), hi: None }),
        !live(gs, r), r < pg.len(), !gs.s.contains(r), md2 == (Metadata { root_page: r, ..md }),
        nfit(pg[r as int], md), (pg[r as int] matches Node::Internal(n) && iwf(n) && iks(n) =~= seq![k] && ips(n) =~= seq![c, new]),
    ensures
        good(gs2, pg, md2, None), rootok(gs2, md2), gs2.m == gs.m,
{
    let ra = Attr { h: gs.hh + 1, lo: None, hi: None };
    let gs2 = GS { g: gs.g.insert(r, ra), hh: gs.hh + 1, ..gs };
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by { if p != r { assert(live(gs, p)); } }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by {
        if p != r { assert(live(gs, p)); }
        if q != r { assert(live(gs, q)); }
    }
    assert forall|p: usize| #[trigger] live(gs2, p) implies nodeok(gs2.g, gs2.m, md2, gs2.g[p], pg[p as int]) && fill(pg[p as int], md2, p == md2.root_page) by {
        if p != r {
            assert(live(gs, p));
            lemma_frame(gs.g, gs.m, md, gs2.g, gs.m, md2, gs.g[p], pg[p as int]);
        } else if let Node::Internal(n) = pg[r as int] {
            let ps = ips(n);
            assert forall|i: int| 0 <= i < ps.len() implies gs2.g.dom().contains(#[trigger] ps[i]) && gs2.g[ps[i]] == kattr(ra, iks(n), i) by { assert(i == 0 || i == 1); assert(iks(n)[0] == k); }
        }
    }
    gs2
}
// what writing a page and freeing another gives
pub open spec fn gs_join<T, U>(gs: GS<T, U>, l: usize, r: usize, m2: Map<real, Entry<T, U>>) -> GS<T, U> {
    GS { g: gs.g.remove(r).insert(l, Attr { hi: gs.g[r].hi, ..gs.g[l] }), s: seq![r] + gs.s, m: m2, ..gs }
}
pub proof fn lemma_join<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, y: usize, i: int, n1: Node<T, U>, m2: Map<real, Entry<T, U>>, md2: Metadata) -> (gs2: GS<T, U>)
    requires
        good(gs, pg, md, x), rootok(gs, md), live(gs, y), x != Some(y),
        pg[y as int] matches Node::Internal(n) && 0 <= i < n.len && ({
            let l = ips(n)[i];
            let r = ips(n)[i + 1];
            let g2 = gs_join(gs, l, r, m2);
            &&& x is None || x == Some(l) || x == Some(r)
            &&& nodeok(g2.g, m2, md, g2.g[l], n1) && fill(n1, md, false)
            &&& agree_off(g2.g[l], gs.m, m2) && (gs.g[l].h > 0 ==> m2 == gs.m)
            &&& md2 == (Metadata { free_page: Some(r), len: md2.len, ..md })
        }),
    ensures
        pg[y as int] matches Node::Internal(n) ==> ({
            let l = ips(n)[i];
            let r = ips(n)[i + 1];
            &&& l != r && l != y && r != y
            &&& gs2 == gs_join(gs, l, r, m2)
            &&& good(gs2, pg.update(r as int, Node::Free(md.free_page)).update(l as int, n1), md2, Some(y)) && rootok(gs2, md2)
            &&& kids(gs2.g, gs2.g[y], iks(n).remove(i), ips(n).remove(i + 1)) && gs2.g[y] == gs.g[y]
        }),
{
    let n = pg[y as int]->Internal_0;
    let l = ips(n)[i];
    let r = ips(n)[i + 1];
    let gs2 = gs_join(gs, l, r, m2);
    let pg2 = pg.update(r as int, Node::Free(md.free_page)).update(l as int, n1);
    let ya = gs.g[y];
    let ks = iks(n);
    let ps = ips(n);
    assert(nodeok(gs.g, gs.m, md, ya, pg[y as int]));
    assert(gs.g[l] == kattr(ya, ks, i) && gs.g[r] == kattr(ya, ks, i + 1));
    assert(live(gs, l) && live(gs, r));
    let la = gs.g[l];
    let a = gs2.g[l];
    if l == r { lemma_same_child(gs.g, ya, ks, ps, i, i + 1); }
    assert(la.hi == Some(ks[i].rank()) && gs.g[r].lo == la.hi && gs.g[r].h == la.h);
    assert(md.root_page != l && md.root_page != r);
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg2.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by {
        assert(live(gs, p));
        if gs2.s.contains(p) { let j = choose|j: int| 0 <= j < gs2.s.len() && gs2.s[j] == p; if j > 0 { assert(gs.s[j - 1] == p); } }
    }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by {
        assert(live(gs, p) && live(gs, q));
        if p == l { assert(disj(gs.g[q], la) && disj(gs.g[q], gs.g[r])); }
        if q == l { assert(disj(gs.g[p], la) && disj(gs.g[p], gs.g[r])); }
    }
    assert forall|p: usize| #[trigger] live(gs2, p) && p != y implies nodeok(gs2.g, gs2.m, md2, gs2.g[p], pg2[p as int]) && fill(pg2[p as int], md2, p == md2.root_page) by {
        assert(live(gs, p) && p != r);
        if p == l {
            lemma_frame(gs2.g, m2, md, gs2.g, m2, md2, a, n1);
        } else {
            if gs.g[p].h == la.h { assert(disj(gs.g[p], la) && disj(gs.g[p], gs.g[r])); lemma_agree(a, gs.g[p], gs.m, m2); }
            match pg[p as int] {
                Node::Internal(k) => {
                    assert forall|j: int| 0 <= j < ips(k).len() implies gs2.g.dom().contains(#[trigger] ips(k)[j]) && gs2.g[ips(k)[j]] == gs.g[ips(k)[j]] by {
                        if ips(k)[j] == l { lemma_one_parent(gs, p, iks(k), ips(k), j, y, ks, ps, i); }
                        if ips(k)[j] == r { lemma_one_parent(gs, p, iks(k), ips(k), j, y, ks, ps, i + 1); }
                    }
                }
                Node::Leaf(k) => {
                    if let Some(q) = k.next_leaf {
                        if q == r { assert(gs.g[p].hi == la.hi); assert(disj(gs.g[p], la)); let z = lemma_point(gs.g[p]); }
                    }
                }
                _ => {}
            }
            lemma_frame(gs.g, gs.m, md, gs2.g, m2, md2, gs.g[p], pg[p as int]);
        }
    }
    let s2 = gs2.s;
    assert(s2.no_duplicates()) by { assert forall|j: int, k: int| 0 <= j < k < s2.len() implies s2[j] != s2[k] by { assert(s2[k] == gs.s[k - 1]); assert(gs.s.contains(gs.s[k - 1])); if j > 0 { assert(s2[j] == gs.s[j - 1]); } } }
    assert forall|j: int| 0 <= j < s2.len() implies (#[trigger] s2[j]) < pg2.len() && pg2[s2[j] as int] == Node::<T, U>::Free(fnext(s2, j + 1)) by {
        if j > 0 { assert(s2[j] == gs.s[j - 1]); assert(gs.s.contains(gs.s[j - 1])); assert(fnext(s2, j + 1) == fnext(gs.s, j)); } else { assert(fnext(s2, 1) == fnext(gs.s, 0)); }
    }
    lemma_kids_drop(gs.g, gs2.g, ya, ks, ps, i);
    gs2
}
// the border of two neighbours moves
pub open spec fn gs_move<T: Ord, U>(gs: GS<T, U>, l: usize, r: usize, s: real, m2: Map<real, Entry<T, U>>) -> GS<T, U> {
    GS { g: gs.g.insert(l, Attr { hi: Some(s), ..gs.g[l] }).insert(r, Attr { lo: Some(s), ..gs.g[r] }), m: m2, ..gs }
}
pub proof fn lemma_move<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, y: usize, i: int, k: T, ny: InternalNode<T, U>, n1: Node<T, U>, n2: Node<T, U>, m2: Map<real, Entry<T, U>>) -> (gs2: GS<T, U>)
    requires
        good(gs, pg, md, x), rootok(gs, md), live(gs, y), x != Some(y),
        pg[y as int] matches Node::Internal(n) && 0 <= i < n.len && ({
            let l = ips(n)[i];
            let r = ips(n)[i + 1];
            let g2 = gs_move(gs, l, r, k.rank(), m2);
            &&& x is None || x == Some(l) || x == Some(r)
            &&& sabv(gs.g[l].lo, k.rank()) && blw(k.rank(), gs.g[r].hi)
            &&& nodeok(g2.g, m2, md, g2.g[l], n1) && fill(n1, md, false)
            &&& nodeok(g2.g, m2, md, g2.g[r], n2) && fill(n2, md, false)
            &&& agree_off(Attr { hi: gs.g[r].hi, ..gs.g[l] }, gs.m, m2) && (gs.g[l].h > 0 ==> m2 == gs.m)
            &&& iwf(ny) && nfit(Node::Internal(ny), md) && iks(ny) == iks(n).update(i, k) && ips(ny) == ips(n)
        }),
    ensures
        pg[y as int] matches Node::Internal(n) ==> ({
            let l = ips(n)[i];
            let r = ips(n)[i + 1];
            &&& l != r && l != y && r != y
            &&& gs2 == gs_move(gs, l, r, k.rank(), m2)
            &&& good(gs2, pg.update(y as int, Node::Internal(ny)).update(l as int, n1).update(r as int, n2), md, None) && rootok(gs2, md)
        }),
{
    let n = pg[y as int]->Internal_0;
    let l = ips(n)[i];
    let r = ips(n)[i + 1];
    let s = k.rank();
    let gs2 = gs_move(gs, l, r, s, m2);
    let pg2 = pg.update(y as int, Node::Internal(ny)).update(l as int, n1).update(r as int, n2);
    let ya = gs.g[y];
    let ks = iks(n);
    let ps = ips(n);
    assert(nodeok(gs.g, gs.m, md, ya, pg[y as int]));
    assert(gs.g[l] == kattr(ya, ks, i) && gs.g[r] == kattr(ya, ks, i + 1));
    assert(live(gs, l) && live(gs, r));
    let la = gs.g[l];
    let ra = gs.g[r];
    let a = Attr { hi: ra.hi, ..la };
    if l == r { lemma_same_child(gs.g, ya, ks, ps, i, i + 1); }
    assert(la.hi == Some(ks[i].rank()) && ra.lo == la.hi && ra.h == la.h);
    assert(md.root_page != l && md.root_page != r);
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg2.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by { assert(live(gs, p)); }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by {
        assert(live(gs, p) && live(gs, q));
        if p == l || p == r { if q != l && q != r { assert(disj(gs.g[q], la) && disj(gs.g[q], ra)); } }
        if q == l || q == r { if p != l && p != r { assert(disj(gs.g[p], la) && disj(gs.g[p], ra)); } }
    }
    lemma_kids_move(gs.g, gs2.g, ya, ks, ps, i, k);
    assert forall|p: usize| #[trigger] live(gs2, p) implies nodeok(gs2.g, gs2.m, md, gs2.g[p], pg2[p as int]) && fill(pg2[p as int], md, p == md.root_page) by {
        assert(live(gs, p));
        if p == y {
            assert(gs2.g[y] == ya);
        } else if p != l && p != r {
            if gs.g[p].h == la.h { assert(disj(gs.g[p], la) && disj(gs.g[p], ra)); lemma_agree(a, gs.g[p], gs.m, m2); }
            match pg[p as int] {
                Node::Internal(k) => {
                    assert forall|j: int| 0 <= j < ips(k).len() implies gs2.g.dom().contains(#[trigger] ips(k)[j]) && gs2.g[ips(k)[j]] == gs.g[ips(k)[j]] by {
                        if ips(k)[j] == l { lemma_one_parent(gs, p, iks(k), ips(k), j, y, ks, ps, i); }
                        if ips(k)[j] == r { lemma_one_parent(gs, p, iks(k), ips(k), j, y, ks, ps, i + 1); }
                    }
                }
                Node::Leaf(k) => {
                    if let Some(q) = k.next_leaf {
                        if q == r { assert(gs.g[p].hi == la.hi); assert(disj(gs.g[p], la)); let z = lemma_point(gs.g[p]); }
                    }
                }
                _ => {}
            }
            lemma_frame(gs.g, gs.m, md, gs2.g, m2, md, gs.g[p], pg[p as int]);
        }
    }
    assert forall|j: int| 0 <= j < gs.s.len() implies (#[trigger] gs.s[j]) < pg2.len() && pg2[gs.s[j] as int] == Node::<T, U>::Free(fnext(gs.s, j + 1)) by { assert(gs.s.contains(gs.s[j])); }
    gs2
}
// a root with one child gives way to it
pub proof fn lemma_shrink<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, c: usize, md2: Metadata) -> (gs2: GS<T, U>)
    requires
        good(gs, pg, md, Some(md.root_page)), rootok(gs, md), kids(gs.g, gs.g[md.root_page], Seq::<T>::empty(), seq![c]),
        md2 == (Metadata { root_page: c, free_page: Some(md.root_page), ..md }),
    ensures
        good(gs2, pg.update(md.root_page as int, Node::Free(md.free_page)), md2, None), rootok(gs2, md2), gs2.m == gs.m,
{
    let r = md.root_page;
    let gs2 = GS { g: gs.g.remove(r), s: seq![r] + gs.s, hh: (gs.hh - 1) as nat, ..gs };
    let pg2 = pg.update(r as int, Node::Free(md.free_page));
    assert(seq![c][0] == c);
    assert(gs.g[c] == kattr(gs.g[r], Seq::<T>::empty(), 0));
    assert(live(gs, c) && live(gs, r));
    assert forall|p: usize| #[trigger] live(gs2, p) implies p < pg2.len() && gs2.g[p].h <= gs2.hh && ne(gs2.g[p]) && !gs2.s.contains(p) by {
        assert(live(gs, p));
        if gs.g[p].h == gs.hh { assert(disj(gs.g[p], gs.g[r])); }
        if gs2.s.contains(p) { let j = choose|j: int| 0 <= j < gs2.s.len() && gs2.s[j] == p; if j > 0 { assert(gs.s[j - 1] == p); } }
    }
    assert forall|p: usize, q: usize| #[trigger] live(gs2, p) && #[trigger] live(gs2, q) && p != q && gs2.g[p].h == gs2.g[q].h implies disj(gs2.g[p], gs2.g[q]) by { assert(live(gs, p) && live(gs, q)); }
    assert forall|p: usize| #[trigger] live(gs2, p) implies nodeok(gs2.g, gs2.m, md2, gs2.g[p], pg2[p as int]) && fill(pg2[p as int], md2, p == md2.root_page) by {
        assert(live(gs, p) && p != r);
        assert(gs2.g[p].h <= gs2.hh);
        match pg[p as int] {
            Node::Internal(k) => {
                assert forall|j: int| 0 <= j < ips(k).len() implies gs2.g.dom().contains(#[trigger] ips(k)[j]) && gs2.g[ips(k)[j]] == gs.g[ips(k)[j]] by {
                    assert(gs.g[ips(k)[j]] == kattr(gs.g[p], iks(k), j));
                }
            }
            _ => {}
        }
        lemma_frame(gs.g, gs.m, md, gs2.g, gs.m, md2, gs.g[p], pg[p as int]);
    }
    let s2 = gs2.s;
    assert(s2.no_duplicates()) by { assert forall|j: int, k: int| 0 <= j < k < s2.len() implies s2[j] != s2[k] by { assert(s2[k] == gs.s[k - 1]); assert(gs.s.contains(gs.s[k - 1])); if j > 0 { assert(s2[j] == gs.s[j - 1]); } } }
    assert forall|j: int| 0 <= j < s2.len() implies (#[trigger] s2[j]) < pg2.len() && pg2[s2[j] as int] == Node::<T, U>::Free(fnext(s2, j + 1)) by {
        if j > 0 { assert(s2[j] == gs.s[j - 1]); assert(gs.s.contains(gs.s[j - 1])); assert(fnext(s2, j + 1) == fnext(gs.s, j)); } else { assert(fnext(s2, 1) == fnext(gs.s, 0)); }
    }
    gs2
}
// what a map holds is determined by its pages
pub proof fn lemma_same<T: Ord, U>(a: GS<T, U>, b: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, p: usize, r: real)
    requires good(a, pg, md, None), good(b, pg, md, None), live(a, p), live(b, p), a.g[p].lo == b.g[p].lo, a.g[p].hi == b.g[p].hi, cov(a.g[p], r),
    ensures mget(a.m, r) == mget(b.m, r),
    decreases a.g[p].h,
{
    match pg[p as int] {
        Node::Leaf(l) => { lemma_lseq_at(a.m, a.g[p], les(l), r); lemma_lseq_at(b.m, b.g[p], les(l), r); }
        Node::Internal(n) => {
            let j = lemma_kpos(iks(n), r);
            let c = ips(n)[j];
            lemma_descend(iks(n), a.g[p], j, r);
            assert(a.g[c] == kattr(a.g[p], iks(n), j) && b.g[c] == kattr(b.g[p], iks(n), j));
            assert(live(a, c) && live(b, c));
            lemma_same(a, b, pg, md, c, r);
        }
        _ => {}
    }
}
pub proof fn lemma_gsof<T: Ord, U>(a: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata)
    requires tree(a, pg, md),
    ensures tree(gsof::<T, U>(pg, md), pg, md), gsof::<T, U>(pg, md).m == a.m,
{
    let b = gsof::<T, U>(pg, md);
    assert(tree(b, pg, md));
    assert forall|r: real| mget(a.m, r) == mget(b.m, r) by { lemma_same(a, b, pg, md, md.root_page, r); }
    assert forall|r: real| #![trigger a.m.dom().contains(r)] #![trigger b.m.dom().contains(r)] a.m.dom().contains(r) == b.m.dom().contains(r) by { assert(mget(a.m, r) == mget(b.m, r)); }
    assert(a.m.dom() =~= b.m.dom());
    assert forall|r: real| a.m.dom().contains(r) implies #[trigger] a.m[r] == b.m[r] by { assert(mget(a.m, r) == mget(b.m, r)); }
    assert(a.m =~= b.m);
}
impl<T: Ord, U> BpMap<T, U> {
    pub open spec fn inv(&self) -> bool { self.pager.pinv() && tree(gsof(self.pager.pg(), self.pager.metadata), self.pager.pg(), self.pager.metadata) }
}
impl<T: Ord, U> View for BpMap<T, U> {
    type V = Map<real, Entry<T, U>>;
    open spec fn view(&self) -> Map<real, Entry<T, U>> { gsof(self.pager.pg(), self.pager.metadata).m }
}
pub open spec fn mk<T: Ord, U>(p: Pager<T, U>) -> BpMap<T, U> { BpMap { pager: p } }
// the map is in state gs
pub proof fn lemma_inv<T: Ord, U>(p: Pager<T, U>, gs: GS<T, U>)
    requires p.pinv(), tree(gs, p.pg(), p.metadata),
    ensures mk(p).inv(), mk(p)@ == gs.m,
{
    lemma_gsof(gs, p.pg(), p.metadata);
}
pub open spec fn samepg<T, U>(a: Pager<T, U>, b: Pager<T, U>) -> bool { b.pinv() && b.pg() == a.pg() && b.metadata == a.metadata && b.db_file.bytes() == a.db_file.bytes() }
pub proof fn lemma_live<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, p: usize)
    requires good(gs, pg, md, x), live(gs, p), x != Some(p),
    ensures
        p < pg.len(), gs.g[p].h <= gs.hh, ne(gs.g[p]), nodeok(gs.g, gs.m, md, gs.g[p], pg[p as int]), fill(pg[p as int], md, p == md.root_page), md_ok(md),
        gs.g[p].h == 0 <==> pg[p as int] is Leaf, gs.g[p].h > 0 <==> pg[p as int] is Internal,
{
}
pub proof fn lemma_child<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, p: usize, i: int)
    requires good(gs, pg, md, x), live(gs, p), x != Some(p), pg[p as int] matches Node::Internal(n) && 0 <= i <= n.len,
    ensures
        pg[p as int] matches Node::Internal(n) ==> {
            let c = ips(n)[i];
            c == n.pointers@[i] && live(gs, c) && gs.g[c] == kattr(gs.g[p], iks(n), i) && c < pg.len() && gs.g[c].h + 1 == gs.g[p].h && ne(gs.g[c])
        },
{
    lemma_live(gs, pg, md, x, p);
    if let Node::Internal(n) = pg[p as int] {
        let c = ips(n)[i];
        assert(gs.g.dom().contains(c));
        assert(live(gs, c));
    }
}
// the way from the root to a page
pub open spec fn nextp<T, U>(st: Seq<(usize, Node<T, U>, usize)>, i: int, page: usize) -> usize { if i + 1 < st.len() { st[i + 1].0 } else { page } }
pub open spec fn stackok<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize) -> bool {
    &&& live(gs, page) && st.len() + gs.g[page].h == gs.hh
    &&& md.root_page == nextp(st, -1, page)
    &&& forall|i: int| 0 <= i < st.len() ==> {
        let e = #[trigger] st[i];
        live(gs, e.0) && e.0 < pg.len() && gs.g[e.0].h == gs.hh - i && pg[e.0 as int] == e.1 && (e.1 matches Node::Internal(n) && e.2 <= n.len && ips(n)[e.2 as int] == nextp(st, i, page))
    }
}
pub proof fn lemma_push<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, n: InternalNode<T, U>, i: usize)
    requires good(gs, pg, md, None), stackok(gs, pg, md, st, page), pg[page as int] == Node::Internal(n), i <= n.len,
    ensures stackok(gs, pg, md, st.push((page, Node::Internal(n), i)), ips(n)[i as int]),
{
    lemma_child(gs, pg, md, None, page, i as int);
    lemma_live(gs, pg, md, None, page);
    let s2 = st.push((page, Node::Internal(n), i));
    let p2 = ips(n)[i as int];
    assert forall|j: int| 0 <= j < s2.len() implies ({
        let e = #[trigger] s2[j];
        live(gs, e.0) && e.0 < pg.len() && gs.g[e.0].h == gs.hh - j && pg[e.0 as int] == e.1 && (e.1 matches Node::Internal(n) && e.2 <= n.len && ips(n)[e.2 as int] == nextp(s2, j, p2))
    }) by { if j < st.len() { assert(s2[j] == st[j]); } }
}
pub proof fn lemma_degrees(p: int, n: int)
    requires 1 <= p, n * p <= 4064, n >= 0,
    ensures 4064int / p >= n,
{
    assert(4064int / p >= n) by (nonlinear_arith) requires 1 <= p, n * p <= 4064, n >= 0;
}
//@ fn bp_tree::map::BpMap::search_node
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(o) ==> samepg(old(self).pager, final(self).pager) && ({
            let gs = gsof(old(self).pager.pg(), old(self).pager.metadata);
            stackok(gs, old(self).pager.pg(), old(self).pager.metadata, o.2@, o.0) && o.1 == old(self).pager.pg()[o.0 as int] && o.1 is Leaf && cov(gs.g[o.0], key.rank())
        }),
//@ entry
    let ghost pg = old(self).pager.pg();
    let ghost md = old(self).pager.metadata;
    let ghost gs = gsof(pg, md);
    proof { lemma_pager(old(self).pager); lemma_live(gs, pg, md, None, md.root_page); }
//@ loop 0
    invariant
        samepg(old(self).pager, self.pager), pg == old(self).pager.pg(), md == old(self).pager.metadata, tree(gs, pg, md), pg.len() == md.pages,
        stackok(gs, pg, md, stack@, curr_page), curr_page < pg.len(), curr_node == pg[curr_page as int], cov(gs.g[curr_page], key.rank()),
    ensures curr_node is Leaf,
    decreases gs.g[curr_page].h,
//@ body 0
    proof { lemma_live(gs, pg, md, None, curr_page); }
//@ before 0 `let next_page`
    proof {
        lemma_push(gs, pg, md, stack@, curr_page, node, next_index);
        lemma_child(gs, pg, md, None, curr_page, next_index as int);
        lemma_descend(iks(node), gs.g[curr_page], next_index as int, key.rank());
        lemma_live(gs, pg, md, None, ips(node)[next_index as int]);
    }
//@ spec bp_tree::map
// ---- a leaf ----
pub proof fn lemma_leaf<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, p: usize, r: real)
    requires good(gs, pg, md, None), live(gs, p), pg[p as int] is Leaf, cov(gs.g[p], r),
    ensures pg[p as int] matches Node::Leaf(l) ==> lwf(l) && sorted(les(l)) && l.entries@.len() == md.leaf_degree && md.leaf_degree >= 1 && at(les(l), r) == mget(gs.m, r) && hask(les(l), r) == (mget(gs.m, r) is Some) && is_pos(les(l), r, pos(les(l), r)),
{
    lemma_live(gs, pg, md, None, p);
    if let Node::Leaf(l) = pg[p as int] { lemma_lseq_at(gs.m, gs.g[p], les(l), r); lemma_pos(les(l), r); }
}
pub open spec fn is_min<T: Ord, U>(m: Map<real, Entry<T, U>>, o: Option<T>) -> bool {
    match o {
        None => m == Map::<real, Entry<T, U>>::empty(),
        Some(k) => m.dom().contains(k.rank()) && m[k.rank()].key == k && forall|r: real| m.dom().contains(r) ==> k.rank() <= r,
    }
}
pub open spec fn is_max<T: Ord, U>(m: Map<real, Entry<T, U>>, o: Option<T>) -> bool {
    match o {
        None => m == Map::<real, Entry<T, U>>::empty(),
        Some(k) => m.dom().contains(k.rank()) && m[k.rank()].key == k && forall|r: real| m.dom().contains(r) ==> r <= k.rank(),
    }
}
pub proof fn lemma_end<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, p: usize)
    requires tree(gs, pg, md), live(gs, p), pg[p as int] is Leaf,
    ensures pg[p as int] matches Node::Leaf(l) ==> {
        &&& lwf(l) && l.entries@.len() == md.leaf_degree && md.leaf_degree >= 1
        &&& gs.g[p].lo is None ==> is_min(gs.m, if l.len > 0 { Some(les(l)[0].key) } else { None })
        &&& gs.g[p].hi is None ==> is_max(gs.m, if l.len > 0 { Some(les(l)[l.len - 1].key) } else { None })
    },
{
    lemma_live(gs, pg, md, None, p);
    if let Node::Leaf(l) = pg[p as int] {
        let es = les(l);
        let a = gs.g[p];
        if l.len == 0 {
            assert(p == md.root_page);
            assert forall|r: real| !gs.m.dom().contains(r) by { assert(cov(a, r)); if mget(gs.m, r) is Some { assert(ehas(es, r)); } }
            assert(gs.m =~= Map::<real, Entry<T, U>>::empty());
        } else {
            assert(mget(gs.m, rk(es[0])) == Some(es[0]));
            assert(mget(gs.m, rk(es[l.len - 1])) == Some(es[l.len - 1]));
            assert forall|r: real| gs.m.dom().contains(r) implies (a.lo is None ==> rk(es[0]) <= r) && (a.hi is None ==> r <= rk(es[l.len - 1])) by {
                assert(mget(gs.m, r) is Some);
                assert(cov(a, rk(es[0])));
                assert(cov(a, rk(es[l.len - 1])));
                if cov(a, r) {
                    assert(ehas(es, r));
                    let i = choose|i: int| 0 <= i < es.len() && rk(#[trigger] es[i]) == r;
                    if i > 0 { assert(rk(es[0]) < rk(es[i])); }
                    if i < l.len - 1 { assert(rk(es[i]) < rk(es[l.len - 1])); }
                }
            }
        }
    }
}
// a file of one empty leaf
pub open spec fn newp<T, U>(p: Pager<T, U>) -> bool {
    &&& p.pinv() && p.metadata.pages == 1 && p.metadata.len == 0 && p.metadata.root_page == 0 && p.metadata.free_page is None
    &&& p.pg()[0] matches Node::Leaf(n) && n.len == 0 && lwf(n) && n.entries@.len() == p.metadata.leaf_degree && n.next_leaf is None
}
pub proof fn lemma_new<T: Ord, U>(p: Pager<T, U>)
    requires newp(p),
    ensures mk(p).inv(), mk(p)@ == Map::<real, Entry<T, U>>::empty(),
{
    let a = Attr { h: 0, lo: None, hi: None };
    let gs = GS::<T, U> { g: Map::empty().insert(0usize, a), s: Seq::empty(), m: Map::empty(), hh: 0 };
    lemma_pager(p);
    let pg = p.pg();
    let md = p.metadata;
    if let Node::Leaf(n) = pg[0] { assert forall|i: int| 0 <= i < n.entries@.len() implies (#[trigger] n.entries@[i]) is None by {} }
    assert(forall|q: usize| #[trigger] live(gs, q) ==> q == 0);
    assert(tree(gs, pg, md));
    lemma_inv(p, gs);
}
pub broadcast proof fn b_new<T: Ord, U>(p: Pager<T, U>)
    requires newp(p),
    ensures #![trigger p.pinv(), (BpMap { pager: p }).inv()] (BpMap { pager: p }).inv(), (BpMap { pager: p })@ == Map::<real, Entry<T, U>>::empty(),
{
    lemma_new(p);
}
//@ fn bp_tree::map::BpMap::new
//@ where T: crate::vp::Ord
    requires
        key_size <= 4096, value_size <= 4096,
        // a leaf holds at least one entry, an internal page at least two separators
        1 <= lpay::<T, U>(key_size as int, value_size as int) <= 4064, 2 * ipay::<T>(key_size as int) <= 4064,
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(m) ==> m.inv() && m@ == Map::<real, Entry<T, U>>::empty(),
//@ entry
    broadcast use b_new;
    proof {
        broadcast use {crate::mem::ax_size_of, crate::mem::ax_size_of_opt};
        lemma_degrees(lpay::<T, U>(key_size as int, value_size as int), 1);
        lemma_degrees(ipay::<T>(key_size as int), 2);
    }
//@ fn bp_tree::map::BpMap::with_degrees
//@ where T: crate::vp::Ord
    requires
        key_size <= 4096, value_size <= 4096, 1 <= leaf_degree <= 4096, 2 <= internal_degree <= 4096,
        // asserted by the function
        lmax::<T, U>(leaf_degree as int, key_size as int, value_size as int) <= 4096, imax::<T>(internal_degree as int, key_size as int) <= 4096,
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(m) ==> m.inv() && m@ == Map::<real, Entry<T, U>>::empty(),
//@ entry
    broadcast use b_new;
//@ fn bp_tree::map::BpMap::open
//@ where T: crate::vp::Ord
    ensures
        ret matches Ok(m) ==> forall|q: BpMap<T, U>| q.inv() && #[trigger] q.pager.db_file.bytes() == m.pager.db_file.bytes() ==> m.inv() && m@ == q@,
//@ fn bp_tree::map::BpMap::get
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(o) ==> samepg(old(self).pager, final(self).pager) && final(self).inv() && final(self)@ == old(self)@ && o == oval(mget(old(self)@, key.rank())),
//@ before 0 `match curr_node`
    proof {
        let gs = gsof(old(self).pager.pg(), old(self).pager.metadata);
        let p = choose|p: usize| live(gs, p) && cov(gs.g[p], key.rank()) && curr_node == old(self).pager.pg()[p as int];
        lemma_leaf(gs, old(self).pager.pg(), old(self).pager.metadata, p, key.rank());
    }
//@ fn bp_tree::map::BpMap::contains_key
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(o) ==> samepg(old(self).pager, final(self).pager) && final(self).inv() && final(self)@ == old(self)@ && o == old(self)@.dom().contains(key.rank()),
//@ fn bp_tree::map::BpMap::clear
//@ where T: crate::vp::Ord
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret is Ok ==> final(self).inv() && final(self)@ == Map::<real, Entry<T, U>>::empty(),
//@ entry
    broadcast use b_new;
    proof { lemma_pager(old(self).pager); }
//@ fn bp_tree::map::BpMap::len
//@ where T: crate::vp::Ord
    requires self.inv(),
    ensures ret == self@.dom().len(),
//@ fn bp_tree::map::BpMap::is_empty
//@ where T: crate::vp::Ord
    requires self.inv(),
    ensures ret == (self@.dom().len() == 0),
//@ fn bp_tree::map::BpMap::min
//@ where T: crate::vp::Ord
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(o) ==> samepg(old(self).pager, final(self).pager) && final(self).inv() && final(self)@ == old(self)@ && is_min(old(self)@, o),
//@ entry
    let ghost pg = old(self).pager.pg();
    let ghost md = old(self).pager.metadata;
    let ghost gs = gsof(pg, md);
    proof { lemma_pager(old(self).pager); lemma_live(gs, pg, md, None, md.root_page); }
//@ loop 0
    invariant
        samepg(old(self).pager, self.pager), pg == old(self).pager.pg(), md == old(self).pager.metadata, tree(gs, pg, md), pg.len() == md.pages,
        live(gs, curr_page), curr_page < pg.len(), curr_node == pg[curr_page as int], gs.g[curr_page].lo is None,
    ensures curr_node is Leaf,
    decreases gs.g[curr_page].h,
//@ body 0
    proof { lemma_live(gs, pg, md, None, curr_page); lemma_child(gs, pg, md, None, curr_page, 0); lemma_live(gs, pg, md, None, curr_internal_node.pointers@[0]); }
//@ before 0 `match curr_node`
    proof { lemma_end(gs, pg, md, curr_page); lemma_live(gs, pg, md, None, curr_page); }
//@ fn bp_tree::map::BpMap::max
//@ where T: crate::vp::Ord
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(o) ==> samepg(old(self).pager, final(self).pager) && final(self).inv() && final(self)@ == old(self)@ && is_max(old(self)@, o),
//@ entry
    let ghost pg = old(self).pager.pg();
    let ghost md = old(self).pager.metadata;
    let ghost gs = gsof(pg, md);
    proof { lemma_pager(old(self).pager); lemma_live(gs, pg, md, None, md.root_page); }
//@ loop 0
    invariant
        samepg(old(self).pager, self.pager), pg == old(self).pager.pg(), md == old(self).pager.metadata, tree(gs, pg, md), pg.len() == md.pages,
        live(gs, curr_page), curr_page < pg.len(), curr_node == pg[curr_page as int], gs.g[curr_page].hi is None,
    ensures curr_node is Leaf,
    decreases gs.g[curr_page].h,
//@ body 0
    proof { lemma_live(gs, pg, md, None, curr_page); lemma_child(gs, pg, md, None, curr_page, curr_internal_node.len as int); lemma_live(gs, pg, md, None, curr_internal_node.pointers@[curr_internal_node.len as int]); }
//@ before 0 `match curr_node`
    proof { lemma_end(gs, pg, md, curr_page); lemma_live(gs, pg, md, None, curr_page); }

//@ spec bp_tree::map
// ---- iteration: what is still to come ----
pub open spec fn aftr<T: Ord, U>(l: LeafNode<T, U>, a: Attr, i: int, r: real) -> bool { if i > 0 { rk(les(l)[i - 1]) < r } else { abv(a.lo, r) } }
pub open spec fn restm<T: Ord, U>(m: Map<real, Entry<T, U>>, l: LeafNode<T, U>, a: Attr, i: int) -> Map<real, Entry<T, U>> { m.restrict(m.dom().filter(|r: real| aftr(l, a, i, r))) }
pub proof fn lemma_restm<T: Ord, U>(m: Map<real, Entry<T, U>>, l: LeafNode<T, U>, a: Attr, i: int)
    ensures
        forall|r: real| #[trigger] restm(m, l, a, i).dom().contains(r) <==> m.dom().contains(r) && aftr(l, a, i, r),
        forall|r: real| restm(m, l, a, i).dom().contains(r) ==> #[trigger] restm(m, l, a, i)[r] == m[r],
{
}
pub proof fn lemma_rest_step<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, p: usize, l: LeafNode<T, U>, i: int)
    requires tree(gs, pg, md), live(gs, p), pg[p as int] == Node::Leaf(l), 0 <= i < l.len,
    ensures
        restm(gs.m, l, gs.g[p], i + 1) == restm(gs.m, l, gs.g[p], i).remove(rk(les(l)[i])),
        mget(restm(gs.m, l, gs.g[p], i), rk(les(l)[i])) == Some(les(l)[i]),
        forall|r: real| restm(gs.m, l, gs.g[p], i).dom().contains(r) ==> rk(les(l)[i]) <= r,
{
    lemma_live(gs, pg, md, None, p);
    let es = les(l);
    let a = gs.g[p];
    let e = es[i];
    lemma_restm(gs.m, l, a, i);
    lemma_restm(gs.m, l, a, i + 1);
    assert(cov(a, rk(e)) && mget(gs.m, rk(e)) == Some(e));
    if i > 0 { assert(rk(es[i - 1]) < rk(e)); assert(cov(a, rk(es[i - 1]))); }
    assert forall|r: real| #[trigger] gs.m.dom().contains(r) && aftr(l, a, i, r) implies rk(e) <= r && (r == rk(e) || aftr(l, a, i + 1, r)) by {
        if r < rk(e) {
            assert(cov(a, r));
            assert(mget(gs.m, r) is Some);
            assert(ehas(es, r));
            let j = choose|j: int| 0 <= j < es.len() && rk(#[trigger] es[j]) == r;
            if j >= i { assert(rk(es[i]) <= rk(es[j])); } else { assert(rk(es[j]) <= rk(es[i - 1])); }
        }
    }
    assert(restm(gs.m, l, a, i + 1) =~= restm(gs.m, l, a, i).remove(rk(e)));
}
pub proof fn lemma_rest_end<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, p: usize, l: LeafNode<T, U>)
    requires tree(gs, pg, md), live(gs, p), pg[p as int] == Node::Leaf(l),
    ensures
        match l.next_leaf {
            None => restm(gs.m, l, gs.g[p], l.len as int) == Map::<real, Entry<T, U>>::empty(),
            Some(q) => live(gs, q) && q < pg.len() && (pg[q as int] matches Node::Leaf(k) && k.len > 0 && lwf(k) && restm(gs.m, k, gs.g[q], 0) == restm(gs.m, l, gs.g[p], l.len as int)),
        },
{
    lemma_live(gs, pg, md, None, p);
    let es = les(l);
    let a = gs.g[p];
    lemma_restm(gs.m, l, a, l.len as int);
    if l.len > 0 { assert(cov(a, rk(es[l.len - 1]))); }
    assert forall|r: real| #[trigger] gs.m.dom().contains(r) && aftr(l, a, l.len as int, r) implies !blw(r, a.hi) by {
        if blw(r, a.hi) {
            assert(cov(a, r));
            assert(mget(gs.m, r) is Some);
            assert(ehas(es, r));
            let j = choose|j: int| 0 <= j < es.len() && rk(#[trigger] es[j]) == r;
            assert(rk(es[j]) <= rk(es[l.len - 1]));
        }
    }
    match l.next_leaf {
        None => { assert(restm(gs.m, l, a, l.len as int) =~= Map::<real, Entry<T, U>>::empty()); }
        Some(q) => {
            assert(live(gs, q));
            lemma_live(gs, pg, md, None, q);
            let k = pg[q as int]->Leaf_0;
            lemma_restm(gs.m, k, gs.g[q], 0);
            assert(restm(gs.m, k, gs.g[q], 0) =~= restm(gs.m, l, a, l.len as int));
        }
    }
}
pub open spec fn itat<T: Ord, U>(it: BpMapIterMut<'_, T, U>, gs: GS<T, U>, p: usize) -> bool {
    &&& live(gs, p)
    &&& (*it.pager).pg()[p as int] matches Node::Leaf(l) && it.curr_node.len == l.len && it.curr_node.next_leaf == l.next_leaf && it.curr_node.entries@.len() == l.entries@.len()
        && it.curr_index <= l.len && (forall|i: int| it.curr_index <= i < l.entries@.len() ==> #[trigger] it.curr_node.entries@[i] == l.entries@[i])
}
impl<'a, T: Ord, U> BpMapIterMut<'a, T, U> {
    pub open spec fn pgs(&self) -> Seq<Node<T, U>> { (*self.pager).pg() }
    pub open spec fn gs(&self) -> GS<T, U> { gsof((*self.pager).pg(), (*self.pager).metadata) }
    pub open spec fn p(&self) -> usize { choose|p: usize| itat(*self, self.gs(), p) }
    pub open spec fn inv(&self) -> bool {
        (*self.pager).pinv() && tree(self.gs(), (*self.pager).pg(), (*self.pager).metadata) && itat(*self, self.gs(), self.p())
    }
    // the entries still to come
    pub open spec fn rest(&self) -> Map<real, Entry<T, U>> { restm(self.gs().m, (*self.pager).pg()[self.p() as int]->Leaf_0, self.gs().g[self.p()], self.curr_index as int) }
}
pub broadcast proof fn b_at<T: Ord, U>(it: BpMapIterMut<'_, T, U>, gs: GS<T, U>, p: usize)
    requires #[trigger] live(gs, p), gs == it.gs(), itat(it, gs, p), tree(gs, (*it.pager).pg(), (*it.pager).metadata), (*it.pager).pinv(),
    ensures #[trigger] it.inv(), it.p() == p,
{
    let pg = (*it.pager).pg();
    let md = (*it.pager).metadata;
    let q = it.p();
    lemma_live(gs, pg, md, None, p);
    lemma_live(gs, pg, md, None, q);
    let l = pg[p as int]->Leaf_0;
    let k = pg[q as int]->Leaf_0;
    if it.curr_index < l.len {
        let i = it.curr_index as int;
        assert(les(l)[i] == les(k)[i]);
        assert(cov(gs.g[p], rk(les(l)[i])) && cov(gs.g[q], rk(les(k)[i])));
    } else {
        assert(gs.g[p].hi == gs.g[q].hi);
        let x = lemma_point(gs.g[p]);
        let y = lemma_point(gs.g[q]);
    }
}
pub broadcast proof fn b_rest<T: Ord, U>(it: BpMapIterMut<'_, T, U>, gs: GS<T, U>, p: usize)
    requires #[trigger] live(gs, p), gs == it.gs(), itat(it, gs, p), tree(gs, (*it.pager).pg(), (*it.pager).metadata), (*it.pager).pinv(),
    ensures #[trigger] it.rest() == restm(gs.m, it.pgs()[p as int]->Leaf_0, gs.g[p], it.curr_index as int),
{
    b_at(it, gs, p);
}
//@ fn bp_tree::map::BpMap::iter_mut
//@ where T: crate::vp::Ord
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret matches Ok(it) ==> samepg(old(self).pager, *it.pager),
        ret matches Ok(it) ==> it.inv(),
        ret matches Ok(it) ==> it.rest() == old(self)@,
        ret matches Ok(it) ==> (samepg(*it.pager, *final(it.pager)) ==> final(self).inv() && final(self)@ == old(self)@),
//@ entry
    hide(restm);
    broadcast use {b_at, b_rest};
    let ghost pg = old(self).pager.pg();
    let ghost md = old(self).pager.metadata;
    let ghost gs = gsof(pg, md);
    proof { lemma_pager(old(self).pager); lemma_live(gs, pg, md, None, md.root_page); }
//@ loop 0
    invariant
        samepg(old(self).pager, self.pager), pg == old(self).pager.pg(), md == old(self).pager.metadata, tree(gs, pg, md), pg.len() == md.pages,
        live(gs, curr_page), curr_page < pg.len(), curr_node == pg[curr_page as int], gs.g[curr_page].lo is None,
    ensures curr_node is Leaf,
    decreases gs.g[curr_page].h,
//@ body 0
    proof { lemma_live(gs, pg, md, None, curr_page); lemma_child(gs, pg, md, None, curr_page, 0); lemma_live(gs, pg, md, None, curr_internal_node.pointers@[0]); }
//@ before 0 `match curr_node`
    proof {
        let l = curr_node->Leaf_0;
        lemma_restm(gs.m, l, gs.g[curr_page], 0);
        assert(restm(gs.m, l, gs.g[curr_page], 0) =~= gs.m);
    }
//@ fn bp_tree::map::BpMapIterMut::Iterator::next
//@ where T: crate::vp::Ord
    requires old(self).inv(),
    ensures
        *final(final(self).pager) == *final(old(self).pager),
        !(ret matches Some(Err(e))) ==> samepg(*old(self).pager, *final(self).pager),
        ret is None ==> old(self).rest() == Map::<real, Entry<T, U>>::empty(),
        !(ret matches Some(Err(e))) ==> final(self).inv(),
        ret is None ==> final(self).rest() == old(self).rest(),
        ret matches Some(Ok((k, v))) ==> mget(old(self).rest(), k.rank()) == Some(Entry { key: k, value: v }) && (forall|r: real| old(self).rest().dom().contains(r) ==> k.rank() <= r),
        ret matches Some(Ok((k, v))) ==> final(self).rest() == old(self).rest().remove(k.rank()),
        ret matches Some(Err(e)) ==> fault(e),
//@ entry
    hide(restm);
    broadcast use {b_at, b_rest};
    let ghost pg = (*old(self).pager).pg();
    let ghost md = (*old(self).pager).metadata;
    let ghost gs = old(self).gs();
    let ghost p0 = old(self).p();
    let ghost l0 = pg[p0 as int]->Leaf_0;
    let ghost mut p = p0;
    let ghost mut l = l0;
    proof {
        lemma_pager(*old(self).pager);
        lemma_live(gs, pg, md, None, p);
        if self.curr_index >= self.curr_node.len { lemma_rest_end(gs, pg, md, p0, l0); }
        else { lemma_rest_step(gs, pg, md, p, l, self.curr_index as int); }
    }
//@ after 0 `self.curr_index = 0`
    proof { p = l0.next_leaf->Some_0; l = pg[p as int]->Leaf_0; lemma_live(gs, pg, md, None, p); lemma_rest_step(gs, pg, md, p, l, 0); }
//@ before 0 `self.curr_index += 1`
    assert(live(gs, p) && l == pg[p as int]->Leaf_0 && self.curr_index < l.len);
//@ spec bp_tree::map
// ---- insert ----
pub open spec fn palloc<T, U>(pg: Seq<Node<T, U>>, md: Metadata, n: Node<T, U>) -> Seq<Node<T, U>> { match md.free_page { None => pg.push(n), Some(f) => pg.update(f as int, n) } }
pub open spec fn malloc<T, U>(pg: Seq<Node<T, U>>, md: Metadata) -> Metadata { match md.free_page { None => Metadata { pages: (md.pages + 1) as usize, ..md }, Some(f) => Metadata { free_page: pg[f as int]->Free_0, ..md } } }
pub open spec fn ialloc(md: Metadata) -> usize { match md.free_page { None => md.pages, Some(f) => f } }
pub open spec fn small<T, U>(pg: Seq<Node<T, U>>, md: Metadata) -> bool { pg.len() == md.pages && md.pages <= 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_alloc2<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, n: Node<T, U>)
    requires good(gs, pg, md, x), small(pg, md),
    ensures ({
        let i = ialloc(md);
        let pg2 = palloc(pg, md, n);
        &&& good(gs_alloc(gs), pg2, malloc(pg, md), x) && !live(gs, i) && !gs_alloc(gs).s.contains(i) && i < pg2.len() && pg2[i as int] == n && pg2.len() >= pg.len()
        &&& forall|p: usize| #[trigger] live(gs, p) ==> pg2[p as int] == pg[p as int]
        &&& samecfg(md, malloc(pg, md)) && malloc(pg, md).root_page == md.root_page && malloc(pg, md).len == md.len
    }),
{
    lemma_alloc(gs, pg, md, x, ialloc(md), n, palloc(pg, md, n), malloc(pg, md));
}
pub proof fn lemma_freep<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>)
    requires good(gs, pg, md, x),
    ensures md.free_page matches Some(f) ==> f < pg.len() && pg[f as int] is Free, md_ok(md),
{
    if gs.s.len() > 0 { assert(gs.s[0] == gs.s[0]); }
}
pub proof fn lemma_lfit<T: Ord, U>(l: LeafNode<T, U>, md: Metadata)
    requires lwf(l), l.entries@.len() == md.leaf_degree, forall|i: int| 0 <= i < les(l).len() ==> efit(#[trigger] les(l)[i], md.key_size as int, md.value_size as int),
    ensures nfit(Node::Leaf(l), md),
{
    assert forall|i: int| 0 <= i < l.entries@.len() implies ((#[trigger] l.entries@[i]) matches Some(e) ==> efit(e, md.key_size as int, md.value_size as int)) by {
        if i < l.len { assert(les(l)[i] == l.entries@[i]->Some_0); }
    }
}
pub proof fn lemma_lfits<T: Ord, U>(l: LeafNode<T, U>, md: Metadata, i: int)
    requires lwf(l), nfit(Node::Leaf(l), md), 0 <= i < l.len,
    ensures efit(les(l)[i], md.key_size as int, md.value_size as int),
{
    assert(l.entries@[i] is Some);
}
pub proof fn lemma_ifit<T: Ord, U>(n: InternalNode<T, U>, md: Metadata)
    requires iwf(n), n.keys@.len() == md.internal_degree, forall|i: int| 0 <= i < iks(n).len() ==> kfit(#[trigger] iks(n)[i], md.key_size as int),
    ensures nfit(Node::Internal(n), md),
{
    assert forall|i: int| 0 <= i < n.keys@.len() implies ((#[trigger] n.keys@[i]) matches Some(e) ==> kfit(e, md.key_size as int)) by {
        if i < n.len { assert(iks(n)[i] == n.keys@[i]->Some_0); }
    }
}
pub proof fn lemma_ifits<T: Ord, U>(n: InternalNode<T, U>, md: Metadata, i: int)
    requires iwf(n), nfit(Node::Internal(n), md), 0 <= i < n.len,
    ensures kfit(iks(n)[i], md.key_size as int),
{
    assert(n.keys@[i] is Some);
}
pub proof fn lemma_ins_fit<T: Ord, U>(l: LeafNode<T, U>, md: Metadata, e: Entry<T, U>)
    requires lwf(l), sorted(les(l)), nfit(Node::Leaf(l), md), efit(e, md.key_size as int, md.value_size as int),
    ensures forall|i: int| 0 <= i < ins(les(l), e).len() ==> efit(#[trigger] ins(les(l), e)[i], md.key_size as int, md.value_size as int),
{
    let es = les(l);
    lemma_pos(es, rk(e));
    let p = pos(es, rk(e));
    let s = ins(es, e);
    assert forall|i: int| 0 <= i < s.len() implies efit(#[trigger] s[i], md.key_size as int, md.value_size as int) by {
        if i < p || (i > p && hask(es, rk(e))) { assert(s[i] == es[i]); lemma_lfits(l, md, i); } else if i > p { assert(s[i] == es[i - 1]); lemma_lfits(l, md, i - 1); } else { assert(s[i] == e); }
    }
}
// the separator k and the page sp, right of page, are still to be added to the parent
pub open spec fn pendp<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, y: usize, n: InternalNode<T, U>, i: int, k: T, sp: usize) -> bool {
    &&& good(gs, pg, md, Some(y)) && rootok(gs, md) && live(gs, y) && pg[y as int] == Node::Internal(n)
    &&& iwf(n) && nfit(Node::Internal(n), md) && fill(Node::Internal(n), md, y == md.root_page) && ksorted(iks(n)) && 0 <= i <= n.len
    &&& is_kpos(iks(n), k.rank(), i) && kids(gs.g, gs.g[y], kin(iks(n), i, k), pin(ips(n), i, sp, true))
}
#[verifier::opaque]
pub open spec fn pend<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, k: T, sp: usize) -> bool {
    &&& live(gs, page) && live(gs, sp) && kfit(k, md.key_size as int)
    &&& fill(pg[page as int], md, false) && fill(pg[sp as int], md, false)
    &&& st.len() == 0 ==> good(gs, pg, md, None) && page == md.root_page && gs.g[page] == (Attr { h: gs.hh, lo: None, hi: Some(k.rank()) }) && gs.g[sp] == (Attr { h: gs.hh, lo: Some(k.rank()), hi: None })
    &&& st.len() > 0 ==> stackok(gs, pg, md, st.drop_last(), st.last().0) && gs.g[page].h + 1 == gs.g[st.last().0].h && st.last().1 is Internal && pendp(gs, pg, md, st.last().0, st.last().1->Internal_0, st.last().2 as int, k, sp)
}
#[verifier::opaque]
pub open spec fn done<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata) -> bool { good(gs, pg, md, None) && rootok(gs, md) }
pub open spec fn istate<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, e: Option<(T, usize)>) -> bool {
    match e { Some((k, sp)) => pend(gs, pg, md, st, page, k, sp), None => done(gs, pg, md) }
}
// the way above a page whose pages stay
pub proof fn lemma_up<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, gs2: GS<T, U>, pg2: Seq<Node<T, U>>, md2: Metadata)
    requires
        stackok(gs, pg, md, st, page), st.len() > 0, gs2.hh == gs.hh, md2.root_page == md.root_page, live(gs2, st.last().0), gs2.g[st.last().0].h == gs.g[st.last().0].h, pg2.len() >= pg.len(),
        forall|p: usize| #[trigger] live(gs, p) && gs.g[p].h > gs.g[st.last().0].h ==> live(gs2, p) && gs2.g[p].h == gs.g[p].h && pg2[p as int] == pg[p as int],
    ensures stackok(gs2, pg2, md2, st.drop_last(), st.last().0), st.last().1 is Internal, gs.g[st.last().0].h == gs.g[page].h + 1, live(gs, st.last().0), pg[st.last().0 as int] == st.last().1,
        st.last().1 matches Node::Internal(n) && st.last().2 <= n.len && ips(n)[st.last().2 as int] == page,
{
    let s2 = st.drop_last();
    let y = st.last().0;
    assert(st[st.len() - 1] == st.last());
    assert forall|i: int| 0 <= i < s2.len() implies ({
        let e = #[trigger] s2[i];
        live(gs2, e.0) && e.0 < pg2.len() && gs2.g[e.0].h == gs2.hh - i && pg2[e.0 as int] == e.1 && (e.1 matches Node::Internal(n) && e.2 <= n.len && ips(n)[e.2 as int] == nextp(s2, i, y))
    }) by {
        assert(s2[i] == st[i]);
        assert(nextp(s2, i, y) == nextp(st, i, page));
        assert(live(gs, st[i].0));
    }
    assert(nextp(s2, -1, y) == nextp(st, -1, page));
}
pub open spec fn ldup<T: Ord, U>(l: LeafNode<T, U>, n: LeafNode<T, U>, e: Entry<T, U>) -> bool { lwf(n) && n.entries@.len() == l.entries@.len() && n.next_leaf == l.next_leaf && les(n) == ins(les(l), e) }
pub open spec fn madd<T: Ord, U>(m: Map<real, Entry<T, U>>, e: Entry<T, U>) -> Map<real, Entry<T, U>> { m.insert(rk(e), e) }
// an entry fits the leaf
pub proof fn lemma_leaf_put<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, page: usize, l: LeafNode<T, U>, n: LeafNode<T, U>, e: Entry<T, U>)
    requires
        tree(gs, pg, md), live(gs, page), pg[page as int] == Node::Leaf(l), cov(gs.g[page], rk(e)), efit(e, md.key_size as int, md.value_size as int), ldup(l, n, e),
    ensures
        nfit(Node::Leaf(n), md),
        done(GS { m: madd(gs.m, e), ..gs }, pg.update(page as int, Node::Leaf(n)), md),
{
    reveal(done);
    lemma_live(gs, pg, md, None, page);
    lemma_ins_fit(l, md, e);
    lemma_lfit(n, md);
    lemma_lseq_ins(gs.m, gs.g[page], les(l), e);
    lemma_pos(les(l), rk(e));
    lemma_put(gs, pg, md, None, page, Node::Leaf(n), madd(gs.m, e));
}
// a leaf is divided
pub open spec fn lhalf<T: Ord, U>(l: LeafNode<T, U>, e: Entry<T, U>, n1: LeafNode<T, U>, n2: LeafNode<T, U>, k: T) -> bool {
    let s = ins(les(l), e);
    let m = (l.len + 2) / 2;
    &&& l.len == l.entries@.len() && !hask(les(l), rk(e))
    &&& lwf(n1) && n1.entries@.len() == l.entries@.len() && les(n1) == s.subrange(0, m)
    &&& lwf(n2) && n2.entries@.len() == l.entries@.len() && les(n2) == s.subrange(m, s.len() as int) && n2.next_leaf == l.next_leaf && k == s[m].key
}
pub proof fn lemma_lhalf<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, page: usize, l: LeafNode<T, U>, e: Entry<T, U>, n1: LeafNode<T, U>, n2: LeafNode<T, U>, k: T)
    requires
        tree(gs, pg, md), live(gs, page), pg[page as int] == Node::Leaf(l), cov(gs.g[page], rk(e)), efit(e, md.key_size as int, md.value_size as int), lhalf(l, e, n1, n2, k),
    ensures
        nfit(Node::Leaf(n1), md), nfit(Node::Leaf(n2), md), kfit(k, md.key_size as int), fill(Node::Leaf(n1), md, false), fill(Node::Leaf(n2), md, false),
        ins(les(l), e).len() == l.len + 1, l.len == md.leaf_degree, sorted(les(l)), n1.len == (l.len + 2) / 2, n2.len == l.len + 1 - n1.len,
{
    lemma_live(gs, pg, md, None, page);
    lemma_ins_fit(l, md, e);
    let s = ins(les(l), e);
    let m = (l.len + 2) / 2;
    lemma_pos(les(l), rk(e));
    assert(s.len() == l.len + 1);
    assert(les(n1).len() == n1.len && les(n2).len() == n2.len);
    assert forall|i: int| 0 <= i < les(n1).len() implies efit(#[trigger] les(n1)[i], md.key_size as int, md.value_size as int) by { assert(les(n1)[i] == s[i]); }
    assert forall|i: int| 0 <= i < les(n2).len() implies efit(#[trigger] les(n2)[i], md.key_size as int, md.value_size as int) by { assert(les(n2)[i] == s[i + m]); }
    assert(efit(s[m], md.key_size as int, md.value_size as int));
    lemma_lfit(n1, md);
    lemma_lfit(n2, md);
}
// the node above
pub proof fn lemma_par<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, y: usize, md2: Metadata)
    requires good(gs, pg, md, None), live(gs, y), samecfg(md, md2), pg[y as int] is Internal, md2.root_page == md.root_page,
    ensures
        iwf(pg[y as int]->Internal_0), nfit(pg[y as int], md2), fill(pg[y as int], md2, y == md.root_page), ksorted(iks(pg[y as int]->Internal_0)),
{
    lemma_live(gs, pg, md, None, y);
}
#[verifier::rlimit(30)]
pub proof fn lemma_leaf_split<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, l: LeafNode<T, U>, e: Entry<T, U>, n1: LeafNode<T, U>, n2: LeafNode<T, U>, k: T) -> (gs2: GS<T, U>)
    requires
        tree(gs, pg, md), small(pg, md), stackok(gs, pg, md, st, page), pg[page as int] == Node::Leaf(l), cov(gs.g[page], rk(e)), efit(e, md.key_size as int, md.value_size as int), lhalf(l, e, n1, n2, k),
        n1.next_leaf == Some(ialloc(md)),
    ensures
        pend(gs2, palloc(pg, md, Node::Leaf(n2)).update(page as int, Node::Leaf(n1)), malloc(pg, md), st, page, k, ialloc(md)), gs2.m == madd(gs.m, e),
        samecfg(md, malloc(pg, md)), malloc(pg, md).len == md.len,
{
    hide(good); hide(kids);
    let i = ialloc(md);
    let md2 = malloc(pg, md);
    let gsa = gs_alloc(gs);
    let pga = palloc(pg, md, Node::Leaf(n2));
    let m2 = madd(gs.m, e);
    let a = gs.g[page];
    lemma_live(gs, pg, md, None, page);
    lemma_lhalf(gs, pg, md, page, l, e, n1, n2, k);
    lemma_alloc2(gs, pg, md, None, Node::Leaf(n2));
    lemma_lseq_ins(gs.m, a, les(l), e);
    lemma_pos(les(l), rk(e));
    let s = ins(les(l), e);
    let m = (l.len + 2) / 2;
    assert(s.len() == l.len + 1);
    let la = Attr { hi: Some(k.rank()), ..a };
    let ra = Attr { lo: Some(k.rank()), ..a };
    lemma_lseq_split(m2, a, s, m, la, ra);
    assert(live(gsa, page) && !live(gsa, i));
    assert(fill(Node::Leaf(n1), md, false) && fill(Node::Leaf(n2), md, false));
    let g2 = gs_split(gsa, page, i, k.rank(), m2).g;
    assert(nodeok(g2, m2, md2, la, Node::Leaf(n1)));
    if let Some(q) = l.next_leaf { assert(q != page); assert(live(gs, q)); }
    assert(nodeok(g2, m2, md2, ra, Node::Leaf(n2)));
    let pg2 = pga.update(page as int, Node::Leaf(n1));
    if st.len() > 0 {
        let t = st.last();
        assert(t == st[st.len() - 1]);
        assert(live(gs, t.0));
        let gs2 = lemma_split(gsa, pga, md2, None, page, i, k, Node::Leaf(n1), m2, Some((t.0, t.1, t.2 as int)));
        lemma_up(gs, pg, md, st, page, gs2, pg2, md2);
        lemma_par(gs, pg, md, t.0, md2);
        assert(pg2[t.0 as int] == pg[t.0 as int]);
        assert(pendp(gs2, pg2, md2, t.0, t.1->Internal_0, t.2 as int, k, i));
        reveal(pend);
        assert(live(gs2, page) && live(gs2, i));
        gs2
    } else {
        let gs2 = lemma_split(gsa, pga, md2, None, page, i, k, Node::Leaf(n1), m2, None);
        reveal(pend);
        assert(live(gs2, page) && live(gs2, i));
        gs2
    }
}
// an internal page takes the separator
pub proof fn lemma_kin_fit<T: Ord, U>(n: InternalNode<T, U>, md: Metadata, i: int, k: T)
    requires iwf(n), nfit(Node::Internal(n), md), 0 <= i <= n.len, kfit(k, md.key_size as int),
    ensures forall|j: int| 0 <= j < kin(iks(n), i, k).len() ==> kfit(#[trigger] kin(iks(n), i, k)[j], md.key_size as int),
{
    let s = kin(iks(n), i, k);
    assert forall|j: int| 0 <= j < s.len() implies kfit(#[trigger] s[j], md.key_size as int) by {
        if j < i { assert(s[j] == iks(n)[j]); lemma_ifits(n, md, j); } else if j > i { assert(s[j] == iks(n)[j - 1]); lemma_ifits(n, md, j - 1); }
    }
}
pub proof fn lemma_int_fit<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, k: T, sp: usize, n1: InternalNode<T, U>)
    requires
        pend(gs, pg, md, st, page, k, sp), st.len() > 0,
        st.last().1 matches Node::Internal(n) && iwf(n1) && n1.keys@.len() == n.keys@.len() && iks(n1) == kin(iks(n), st.last().2 as int, k) && ips(n1) == pin(ips(n), st.last().2 as int, sp, true),
    ensures
        nfit(Node::Internal(n1), md), done(gs, pg.update(st.last().0 as int, Node::Internal(n1)), md),
{
    reveal(pend);
    reveal(done);
    let y = st.last().0;
    let n = st.last().1->Internal_0;
    lemma_kin_fit(n, md, st.last().2 as int, k);
    lemma_ifit(n1, md);
    lemma_put(gs, pg, md, Some(y), y, Node::Internal(n1), gs.m);
    assert(GS { m: gs.m, ..gs } == gs);
}
pub open spec fn ihalf<T: Ord, U>(n: InternalNode<T, U>, i: int, k: T, sp: usize, n1: InternalNode<T, U>, n2: InternalNode<T, U>, sk: T) -> bool {
    let k2 = kin(iks(n), i, k);
    let p2 = pin(ips(n), i, sp, true);
    let m = (n.len + 1) / 2;
    &&& n.len == n.keys@.len()
    &&& iwf(n1) && n1.keys@.len() == n.keys@.len() && iks(n1) == k2.subrange(0, m) && ips(n1) == p2.subrange(0, m + 1)
    &&& iwf(n2) && n2.keys@.len() == n.keys@.len() && iks(n2) == k2.subrange(m + 1, k2.len() as int) && ips(n2) == p2.subrange(m + 1, p2.len() as int) && sk == k2[m]
}
pub proof fn lemma_ihalf<T: Ord, U>(n: InternalNode<T, U>, md: Metadata, i: int, k: T, sp: usize, n1: InternalNode<T, U>, n2: InternalNode<T, U>, sk: T)
    requires iwf(n), nfit(Node::Internal(n), md), md_ok(md), 0 <= i <= n.len, kfit(k, md.key_size as int), ihalf(n, i, k, sp, n1, n2, sk),
    ensures nfit(Node::Internal(n1), md), nfit(Node::Internal(n2), md), kfit(sk, md.key_size as int), fill(Node::Internal(n1), md, false), fill(Node::Internal(n2), md, false),
{
    lemma_kin_fit(n, md, i, k);
    let s = kin(iks(n), i, k);
    let m = (n.len + 1) / 2;
    assert(s.len() == n.len + 1);
    assert forall|j: int| 0 <= j < iks(n1).len() implies kfit(#[trigger] iks(n1)[j], md.key_size as int) by { assert(iks(n1)[j] == s[j]); }
    assert forall|j: int| 0 <= j < iks(n2).len() implies kfit(#[trigger] iks(n2)[j], md.key_size as int) by { assert(iks(n2)[j] == s[j + m + 1]); }
    assert(kfit(s[m], md.key_size as int));
    lemma_ifit(n1, md);
    lemma_ifit(n2, md);
    assert(iks(n1).len() == m && iks(n2).len() == s.len() - m - 1);
}
pub proof fn lemma_int_split<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, k: T, sp: usize, n1: InternalNode<T, U>, n2: InternalNode<T, U>, sk: T) -> (gs2: GS<T, U>)
    requires
        pend(gs, pg, md, st, page, k, sp), st.len() > 0, small(pg, md),
        st.last().1 matches Node::Internal(n) && ihalf(n, st.last().2 as int, k, sp, n1, n2, sk),
    ensures
        pend(gs2, palloc(pg, md, Node::Internal(n2)).update(st.last().0 as int, Node::Internal(n1)), malloc(pg, md), st.drop_last(), st.last().0, sk, ialloc(md)), gs2.m == gs.m,
        samecfg(md, malloc(pg, md)), malloc(pg, md).len == md.len,
{
    reveal(pend);
    let y = st.last().0;
    let n = st.last().1->Internal_0;
    let j = st.last().2 as int;
    let i = ialloc(md);
    let md2 = malloc(pg, md);
    let gsa = gs_alloc(gs);
    let pga = palloc(pg, md, Node::Internal(n2));
    let a = gs.g[y];
    let st2 = st.drop_last();
    lemma_ihalf(n, md, j, k, sp, n1, n2, sk);
    lemma_alloc2(gs, pg, md, Some(y), Node::Internal(n2));
    let k2 = kin(iks(n), j, k);
    let p2 = pin(ips(n), j, sp, true);
    let m = (n.len + 1) / 2;
    let la = Attr { hi: Some(sk.rank()), ..a };
    let ra = Attr { lo: Some(sk.rank()), ..a };
    lemma_kids_split(gs.g, a, k2, p2, m, la, ra);
    assert(live(gsa, y) && !live(gsa, i));
    let g2 = gs_split(gsa, y, i, sk.rank(), gs.m).g;
    assert forall|c: int| 0 <= c < ips(n1).len() implies g2.dom().contains(#[trigger] ips(n1)[c]) && g2[ips(n1)[c]] == kattr(la, iks(n1), c) by { assert(gs.g[ips(n1)[c]] == kattr(la, iks(n1), c)); }
    assert forall|c: int| 0 <= c < ips(n2).len() implies g2.dom().contains(#[trigger] ips(n2)[c]) && g2[ips(n2)[c]] == kattr(ra, iks(n2), c) by { assert(gs.g[ips(n2)[c]] == kattr(ra, iks(n2), c)); }
    assert(nodeok(g2, gs.m, md2, la, Node::Internal(n1)));
    assert(nodeok(g2, gs.m, md2, ra, Node::Internal(n2)));
    let pg2 = pga.update(y as int, Node::Internal(n1));
    if st2.len() > 0 {
        let t = st2.last();
        assert(t == st2[st2.len() - 1]);
        assert(live(gs, t.0));
        let gs2 = lemma_split(gsa, pga, md2, Some(y), y, i, sk, Node::Internal(n1), gs.m, Some((t.0, t.1, t.2 as int)));
        lemma_live(gs, pg, md, Some(y), t.0);
        lemma_up(gs, pg, md, st2, y, gs2, pg2, md2);
        assert(live(gs2, y) && live(gs2, i));
        gs2
    } else {
        let gs2 = lemma_split(gsa, pga, md2, Some(y), y, i, sk, Node::Internal(n1), gs.m, None);
        assert(live(gs2, y) && live(gs2, i));
        gs2
    }
}
pub open spec fn iroot<T: Ord, U>(n: InternalNode<T, U>, md: Metadata, page: usize, k: T, sp: usize) -> bool { iwf(n) && n.keys@.len() == md.internal_degree && iks(n) == seq![k] && ips(n) == seq![page, sp] }
pub proof fn lemma_new_root<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, k: T, sp: usize, n: InternalNode<T, U>) -> (gs2: GS<T, U>)
    requires pend(gs, pg, md, st, page, k, sp), st.len() == 0, small(pg, md), iroot(n, md, page, k, sp),
    ensures
        done(gs2, palloc(pg, md, Node::Internal(n)), Metadata { root_page: ialloc(md), ..malloc(pg, md) }), gs2.m == gs.m,
        samecfg(md, malloc(pg, md)), malloc(pg, md).len == md.len,
{
    reveal(pend);
    reveal(done);
    lemma_alloc2(gs, pg, md, None, Node::Internal(n));
    lemma_ifit(n, md);
    let gsa = gs_alloc(gs);
    assert(live(gsa, page) && live(gsa, sp) && !live(gsa, ialloc(md)));
    lemma_root(gsa, palloc(pg, md, Node::Internal(n)), malloc(pg, md), page, sp, k, ialloc(md), Metadata { root_page: ialloc(md), ..malloc(pg, md) })
}
pub proof fn lemma_done<T: Ord, U>(gs: GS<T, U>, p: Pager<T, U>, md: Metadata)
    requires p.pinv(), done(gs, p.pg(), md), p.metadata == (Metadata { len: p.metadata.len, ..md }), p.metadata.len == gs.m.dom().len(),
    ensures mk(p).inv(), mk(p)@ == gs.m,
{
    reveal(done);
    let pg = p.pg();
    let md2 = p.metadata;
    assert forall|q: usize| #[trigger] live(gs, q) implies nodeok(gs.g, gs.m, md2, gs.g[q], pg[q as int]) && fill(pg[q as int], md2, q == md2.root_page) by {
        lemma_frame(gs.g, gs.m, md, gs.g, gs.m, md2, gs.g[q], pg[q as int]);
    }
    assert(tree(gs, pg, md2));
    lemma_inv(p, gs);
}
// what a pending separator tells about the pages
pub proof fn lemma_pend<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, k: T, sp: usize)
    requires pend(gs, pg, md, st, page, k, sp),
    ensures
        md.free_page matches Some(f) ==> f < pg.len() && pg[f as int] is Free, md_ok(md), kfit(k, md.key_size as int), page < pg.len(),
        st.len() > 0 ==> st.last().0 < pg.len() && (st.last().1 matches Node::Internal(n) && iwf(n) && nfit(Node::Internal(n), md) && n.pointers@.len() == md.internal_degree + 1 && st.last().2 <= n.len && ksorted(iks(n)) && n.keys@.len() == md.internal_degree && is_kpos(iks(n), k.rank(), st.last().2 as int)),
{
    reveal(pend);
    lemma_freep(gs, pg, md, if st.len() > 0 { Some(st.last().0) } else { None });
}
pub proof fn lemma_root0<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata)
    requires tree(gs, pg, md),
    ensures live(gs, md.root_page), md.root_page < pg.len(), md_ok(md), md.free_page matches Some(f) ==> f < pg.len() && pg[f as int] is Free, good(gs, pg, md, None), rootok(gs, md), md.len == gs.m.dom().len(),
{
    lemma_live(gs, pg, md, None, md.root_page);
    lemma_freep(gs, pg, md, None);
}
pub proof fn lemma_top<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize)
    requires tree(gs, pg, md), stackok(gs, pg, md, st, page),
    ensures live(gs, page), page < pg.len(), nodeok(gs.g, gs.m, md, gs.g[page], pg[page as int]), fill(pg[page as int], md, st.len() == 0), st.len() == 0 ==> page == md.root_page,
{
    lemma_live(gs, pg, md, None, page);
    if st.len() > 0 { lemma_sib(gs, pg, md, None, st, page); }
}
//@ fn bp_tree::map::BpMap::insert
//@ attr #[verifier::rlimit(60)]
    requires
        old(self).inv(), enc(&key).len() <= old(self).pager.metadata.key_size, enc(&value).len() <= old(self).pager.metadata.value_size,
        old(self)@.dom().len() < usize::MAX,
    ensures
        ret matches Err(e) ==> fault(e),
        ret is Ok ==> final(self).inv(),
        ret is Ok ==> final(self)@ == old(self)@.insert(key.rank(), Entry { key, value }),
        ret matches Ok(o) ==> o == opair(mget(old(self)@, key.rank())),
        ret is Ok ==> samecfg(old(self).pager.metadata, final(self).pager.metadata),
//@ entry
    let ghost pg0 = old(self).pager.pg();
    let ghost md0 = old(self).pager.metadata;
    let ghost gs0 = gsof(pg0, md0);
    let ghost e0 = Entry { key, value };
    let ghost mut gs = gs0;
    proof { lemma_pager(old(self).pager); lemma_freep(gs0, pg0, md0, None); lemma_live(gs0, pg0, md0, None, md0.root_page); }
//@ before 0 `let mut split_node_entry`
    let ghost l0 = curr_node->Leaf_0;
    let ghost p0 = curr_page;
    proof { lemma_leaf(gs0, pg0, md0, curr_page, rk(e0)); lemma_live(gs0, pg0, md0, None, curr_page); }
//@ arm 0 `Some(InsertCases::Split { split_key, split_node, })`
    proof {
        lemma_lhalf(gs0, pg0, md0, p0, l0, e0, curr_leaf_node, split_node->Leaf_0, split_key);
        lemma_nfit(split_node, md0);
        let n1 = LeafNode { next_leaf: Some(ialloc(md0)), ..curr_leaf_node };
        lemma_nfit(Node::Leaf(n1), md0);
        gs = lemma_leaf_split(gs0, pg0, md0, stack@, p0, l0, e0, n1, split_node->Leaf_0, split_key);
    }
//@ arm 0 `Some(InsertCases::Entry(entry))`
    proof {
        lemma_leaf_put(gs0, pg0, md0, p0, l0, curr_leaf_node, e0);
        lemma_nfit(Node::Leaf(curr_leaf_node), md0);
        gs = GS { m: madd(gs0.m, e0), ..gs0 };
        assert(gs.m.dom() =~= gs0.m.dom());
    }
//@ before 0 `return Ok(Some((entry.key, entry.value)))`
    proof { lemma_done(gs, self.pager, md0); }
//@ arm 0 `None`
    proof {
        lemma_leaf_put(gs0, pg0, md0, p0, l0, curr_leaf_node, e0);
        lemma_nfit(Node::Leaf(curr_leaf_node), md0);
        gs = GS { m: madd(gs0.m, e0), ..gs0 };
    }
//@ loop 0
    invariant
        self.pager.pinv(), istate(gs, self.pager.pg(), self.pager.metadata, stack@, curr_page, split_node_entry), gs.m == madd(gs0.m, e0),
        samecfg(md0, self.pager.metadata), self.pager.metadata.len == md0.len, mget(gs0.m, rk(e0)) is None,
    ensures split_node_entry is None,
    decreases stack@.len() + (if split_node_entry is Some { 1int } else { 0 }),
//@ body 0
    let ghost pg1 = self.pager.pg();
    let ghost md1 = self.pager.metadata;
    let ghost st1 = stack@;
    let ghost k1 = split_key;
    let ghost sp1 = split_pointer;
    proof { lemma_pager(self.pager); lemma_pend(gs, pg1, md1, st1, curr_page, k1, sp1); }
//@ after 0 `let split_node_opt`
    proof {
        let n0 = st1.last().1->Internal_0;
        let n1 = *node;
        if split_node_opt is Some {
            let sk = split_node_opt->Some_0.0;
            let n2 = (split_node_opt->Some_0.1)->Internal_0;
            lemma_ihalf(n0, md1, st1.last().2 as int, k1, sp1, n1, n2, sk);
            lemma_nfit(Node::Internal(n1), md1);
            lemma_nfit(Node::Internal(n2), md1);
            gs = lemma_int_split(gs, pg1, md1, st1, curr_page, k1, sp1, n1, n2, sk);
        } else {
            lemma_int_fit(gs, pg1, md1, st1, curr_page, k1, sp1, n1);
            lemma_nfit(Node::Internal(n1), md1);
        }
    }
//@ before 0 `let new_root_page`
    proof {
        assert(iks(new_root) =~= seq![k1]);
        assert(ips(new_root) =~= seq![curr_page, sp1]);
        lemma_ifit(new_root, md1);
        lemma_nfit(Node::Internal(new_root), md1);
        gs = lemma_new_root(gs, pg1, md1, st1, curr_page, k1, sp1, new_root);
    }
//@ before 0 `let new_len`
    let ghost md2 = self.pager.metadata;
//@ before 0 `Ok(None)`
    proof { assert(gs.m.dom() =~= gs0.m.dom().insert(rk(e0))); lemma_done(gs, self.pager, md2); }
//@ spec bp_tree::map
// ---- remove ----
// the separator di of the page y and the pointer behind it are still to be taken out
#[verifier::opaque]
pub open spec fn pdel<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, y: usize, n: InternalNode<T, U>, di: int) -> bool {
    &&& good(gs, pg, md, Some(y)) && rootok(gs, md) && live(gs, y) && stackok(gs, pg, md, st, y) && pg[y as int] == Node::Internal(n)
    &&& iwf(n) && nfit(Node::Internal(n), md) && fill(Node::Internal(n), md, y == md.root_page) && 0 <= di < n.len
    &&& kids(gs.g, gs.g[y], iks(n).remove(di), ips(n).remove(di + 1))
}
pub open spec fn rstate<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, e: Option<(usize, usize, InternalNode<T, U>)>) -> bool {
    match e { Some((di, y, n)) => pdel(gs, pg, md, st, y, n, di as int), None => done(gs, pg, md) }
}
pub open spec fn sibi(ci: int) -> int { if ci == 0 { 1 } else { ci - 1 } }
// the left one of a page and its sibling
pub open spec fn sibl(ci: int) -> int { if ci == 0 { 0 } else { ci - 1 } }
pub proof fn lemma_relen<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, n: usize)
    requires good(gs, pg, md, x),
    ensures good(gs, pg, Metadata { len: n, ..md }, x),
{
    let md2 = Metadata { len: n, ..md };
    assert forall|q: usize| #[trigger] live(gs, q) && x != Some(q) implies nodeok(gs.g, gs.m, md2, gs.g[q], pg[q as int]) && fill(pg[q as int], md2, q == md2.root_page) by {
        lemma_frame(gs.g, gs.m, md, gs.g, gs.m, md2, gs.g[q], pg[q as int]);
    }
}
pub proof fn lemma_sib<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, st: Seq<(usize, Node<T, U>, usize)>, page: usize)
    requires good(gs, pg, md, x), x is None || x == Some(page), rootok(gs, md), stackok(gs, pg, md, st, page), st.len() > 0,
    ensures
        st.last().1 matches Node::Internal(pn) && ({
            let y = st.last().0;
            let ci = st.last().2 as int;
            let si = sibi(ci);
            let sp = ips(pn)[si];
            &&& live(gs, y) && y < pg.len() && pg[y as int] == Node::Internal(pn) && nodeok(gs.g, gs.m, md, gs.g[y], Node::Internal(pn)) && fill(Node::Internal(pn), md, y == md.root_page)
            &&& iwf(pn) && pn.keys@.len() == md.internal_degree && pn.len >= 1 && ci <= pn.len && 0 <= si <= pn.len && ips(pn)[ci] == page && sp == pn.pointers@[si]
            &&& live(gs, sp) && sp < pg.len() && sp != page && y != page && y != sp && page != md.root_page && sp != md.root_page && page < pg.len()
            &&& gs.g[sp].h == gs.g[page].h && gs.g[y].h == gs.g[page].h + 1
            &&& nodeok(gs.g, gs.m, md, gs.g[sp], pg[sp as int]) && fill(pg[sp as int], md, false) && ne(gs.g[sp]) && ne(gs.g[page]) && ne(gs.g[y])
            &&& x is None ==> nodeok(gs.g, gs.m, md, gs.g[page], pg[page as int]) && fill(pg[page as int], md, false)
            &&& gs.g[page] == kattr(gs.g[y], iks(pn), ci) && gs.g[sp] == kattr(gs.g[y], iks(pn), si)
            &&& (pg[sp as int] is Leaf <==> gs.g[page].h == 0) && (pg[sp as int] is Internal <==> gs.g[page].h > 0)
        }),
{
    let y = st.last().0;
    assert(st.last() == st[st.len() - 1]);
    assert(live(gs, y));
    assert(y != page);
    lemma_live(gs, pg, md, x, y);
    let pn = st.last().1->Internal_0;
    let ci = st.last().2 as int;
    let si = sibi(ci);
    lemma_child(gs, pg, md, x, y, ci);
    lemma_child(gs, pg, md, x, y, si);
    let sp = ips(pn)[si];
    assert(gs.g.dom().contains(ips(pn)[ci]));
    if sp == page { lemma_same_child(gs.g, gs.g[y], iks(pn), ips(pn), ci, si); }
    lemma_live(gs, pg, md, x, sp);
    if x is None { lemma_live(gs, pg, md, x, page); }
}
pub open spec fn lrem<T: Ord, U>(l: LeafNode<T, U>, n: LeafNode<T, U>, r: real) -> bool { lwf(n) && n.entries@.len() == l.entries@.len() && n.next_leaf == l.next_leaf && les(n) == rem(les(l), r) }
pub proof fn lemma_leaf_rem<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, page: usize, l: LeafNode<T, U>, n: LeafNode<T, U>, r: real)
    requires
        tree(gs, pg, md), live(gs, page), pg[page as int] == Node::Leaf(l), cov(gs.g[page], r), lrem(l, n, r),
    ensures
        nfit(Node::Leaf(n), md), lseq(gs.m.remove(r), gs.g[page], les(n)), hask(les(l), r) == (mget(gs.m, r) is Some),
        hask(les(l), r) ==> n.len + 1 == l.len, !hask(les(l), r) ==> n.len == l.len && gs.m.remove(r) == gs.m,
        agree_off(gs.g[page], gs.m, gs.m.remove(r)),
        mget(gs.m, r) is Some ==> gs.m.dom().len() >= 1 && gs.m.remove(r).dom().len() == gs.m.dom().len() - 1,
{
    lemma_live(gs, pg, md, None, page);
    let es = les(l);
    let s = rem(es, r);
    lemma_pos(es, r);
    lemma_lseq_rem(gs.m, gs.g[page], es, r);
    lemma_lseq_at(gs.m, gs.g[page], es, r);
    assert forall|i: int| 0 <= i < les(n).len() implies efit(#[trigger] les(n)[i], md.key_size as int, md.value_size as int) by {
        if i < pos(es, r) || !hask(es, r) { assert(les(n)[i] == es[i]); lemma_lfits(l, md, i); } else { assert(les(n)[i] == es[i + 1]); lemma_lfits(l, md, i + 1); }
    }
    lemma_lfit(n, md);
    if hask(es, r) { assert(s.len() == es.len() - 1); } else { assert(gs.m.remove(r) =~= gs.m); }
    if mget(gs.m, r) is Some { assert(gs.m.remove(r).dom() =~= gs.m.dom().remove(r)); assert(gs.m.dom().contains(r)); assert(gs.m.dom().remove(r).len() == gs.m.dom().len() - 1); }
}
// the entry is taken out of a leaf that stays full enough
pub proof fn lemma_rem_put<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, page: usize, l: LeafNode<T, U>, n: LeafNode<T, U>, r: real, len: usize)
    requires
        tree(gs, pg, md), live(gs, page), pg[page as int] == Node::Leaf(l), cov(gs.g[page], r), lrem(l, n, r), page == md.root_page || n.len >= (md.leaf_degree + 1) / 2,
    ensures
        done(GS { m: gs.m.remove(r), ..gs }, pg.update(page as int, Node::Leaf(n)), Metadata { len, ..md }),
        mget(gs.m, r) is None ==> done(GS { m: gs.m.remove(r), ..gs }, pg, md),
{
    reveal(done);
    lemma_live(gs, pg, md, None, page);
    lemma_leaf_rem(gs, pg, md, page, l, n, r);
    lemma_put(gs, pg, md, None, page, Node::Leaf(n), gs.m.remove(r));
    lemma_relen(GS { m: gs.m.remove(r), ..gs }, pg.update(page as int, Node::Leaf(n)), md, None, len);
    if mget(gs.m, r) is None { assert(GS { m: gs.m.remove(r), ..gs } == gs); }
}
pub open spec fn order(right: bool, a: int, b: int) -> (int, int) { if right { (a, b) } else { (b, a) } }
// two leaves become one
pub open spec fn lmerged<T: Ord, U>(nl: LeafNode<T, U>, nr: LeafNode<T, U>, n1: LeafNode<T, U>) -> bool {
    lwf(n1) && n1.entries@.len() == nl.entries@.len() && les(n1) == les(nl) + les(nr) && n1.next_leaf == nr.next_leaf
}
pub proof fn lemma_cat_fit<T: Ord, U>(nl: LeafNode<T, U>, nr: LeafNode<T, U>, md: Metadata, s: Seq<Entry<T, U>>)
    requires lwf(nl), lwf(nr), nfit(Node::Leaf(nl), md), nfit(Node::Leaf(nr), md), s == les(nl) + les(nr),
    ensures forall|i: int| 0 <= i < s.len() ==> efit(#[trigger] s[i], md.key_size as int, md.value_size as int),
{
    assert forall|i: int| 0 <= i < s.len() implies efit(#[trigger] s[i], md.key_size as int, md.value_size as int) by {
        if i < nl.len { assert(s[i] == les(nl)[i]); lemma_lfits(nl, md, i); } else { assert(s[i] == les(nr)[i - nl.len]); lemma_lfits(nr, md, i - nl.len); }
    }
}
// what is in two neighbouring leaves after the removal
pub open spec fn twol<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, y: usize, pn: InternalNode<T, U>, di: int, nl: LeafNode<T, U>, nr: LeafNode<T, U>, m2: Map<real, Entry<T, U>>) -> bool {
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    &&& good(gs, pg, md, None) && rootok(gs, md) && live(gs, y) && pg[y as int] == Node::Internal(pn) && 0 <= di < pn.len
    &&& pg[l as int] is Leaf && pg[r as int] is Leaf && gs.g[l].h == 0
    &&& lwf(nl) && nfit(Node::Leaf(nl), md) && lseq(m2, gs.g[l], les(nl)) && nl.next_leaf == pg[l as int]->Leaf_0.next_leaf
    &&& lwf(nr) && nfit(Node::Leaf(nr), md) && lseq(m2, gs.g[r], les(nr)) && nr.next_leaf == pg[r as int]->Leaf_0.next_leaf
    &&& agree_off(Attr { hi: gs.g[r].hi, ..gs.g[l] }, gs.m, m2)
}
pub proof fn lemma_twol<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, l: LeafNode<T, U>, n: LeafNode<T, U>, r: real)
    requires
        tree(gs, pg, md), stackok(gs, pg, md, st, page), st.len() > 0, pg[page as int] == Node::Leaf(l), cov(gs.g[page], r), lrem(l, n, r),
    ensures
        st.last().1 matches Node::Internal(pn) && (pg[ips(pn)[sibi(st.last().2 as int)] as int] matches Node::Leaf(sn) && ({
            let right = st.last().2 == 0;
            twol(gs, pg, md, st.last().0, pn, sibl(st.last().2 as int), if right { n } else { sn }, if right { sn } else { n }, gs.m.remove(r))
        })),
{
    lemma_sib(gs, pg, md, None, st, page);
    lemma_live(gs, pg, md, None, page);
    lemma_leaf_rem(gs, pg, md, page, l, n, r);
    let pn = st.last().1->Internal_0;
    let sp = ips(pn)[sibi(st.last().2 as int)];
    let di = sibl(st.last().2 as int);
    assert(disj(gs.g[page], gs.g[sp]));
    lemma_agree(gs.g[page], gs.g[sp], gs.m, gs.m.remove(r));
    lemma_frame(gs.g, gs.m, md, gs.g, gs.m.remove(r), md, gs.g[sp], pg[sp as int]);
    let a = Attr { hi: gs.g[ips(pn)[di + 1]].hi, ..gs.g[ips(pn)[di]] };
    assert forall|x: real| !cov(a, x) implies #[trigger] mget(gs.m.remove(r), x) == mget(gs.m, x) by { if cov(gs.g[page], x) { assert(ne(gs.g[sp])); } }
}
pub proof fn lemma_leaf_join<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, y: usize, pn: InternalNode<T, U>, di: int, nl: LeafNode<T, U>, nr: LeafNode<T, U>, m2: Map<real, Entry<T, U>>, n1: LeafNode<T, U>, len: usize) -> (gs2: GS<T, U>)
    requires twol(gs, pg, md, y, pn, di, nl, nr, m2), lmerged(nl, nr, n1), n1.len >= (md.leaf_degree + 1) / 2,
    ensures ({
        let l = ips(pn)[di];
        let r = ips(pn)[di + 1];
        &&& nfit(Node::Leaf(n1), md)
        &&& gs2 == gs_join(gs, l, r, m2)
        &&& good(gs2, pg.update(r as int, Node::Free(md.free_page)).update(l as int, Node::Leaf(n1)), Metadata { free_page: Some(r), len, ..md }, Some(y)) && rootok(gs2, Metadata { free_page: Some(r), len, ..md })
        &&& kids(gs2.g, gs2.g[y], iks(pn).remove(di), ips(pn).remove(di + 1)) && gs2.g[y] == gs.g[y]
    }),
{
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    lemma_child(gs, pg, md, None, y, di);
    lemma_child(gs, pg, md, None, y, di + 1);
    lemma_live(gs, pg, md, None, l);
    lemma_live(gs, pg, md, None, r);
    lemma_cat_fit(nl, nr, md, les(n1));
    lemma_lfit(n1, md);
    let gs2 = gs_join(gs, l, r, m2);
    let a = Attr { hi: gs.g[r].hi, ..gs.g[l] };
    assert(live(gs, y));
    lemma_live(gs, pg, md, None, y);
    assert(kids(gs.g, gs.g[y], iks(pn), ips(pn)));
    if l == r { lemma_same_child(gs.g, gs.g[y], iks(pn), ips(pn), di, di + 1); }
    lemma_lseq_join(m2, gs.g[l], gs.g[r], a, les(nl), les(nr));
    assert(gs2.g[l] == a);
    if let Some(q) = n1.next_leaf { assert(live(gs, q)); assert(q != r); assert(q != l) by { if q == l { assert(gs.g[q].lo == gs.g[r].hi); let z = lemma_point(gs.g[l]); let w = lemma_point(gs.g[r]); } } }
    assert(nodeok(gs2.g, m2, md, gs2.g[l], Node::Leaf(n1)));
    lemma_join(gs, pg, md, None, y, di, Node::Leaf(n1), m2, Metadata { free_page: Some(r), len, ..md })
}
pub proof fn lemma_pdel<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, gs2: GS<T, U>, pg2: Seq<Node<T, U>>, md2: Metadata, x: Option<usize>)
    requires
        good(gs, pg, md, x), x is None || x == Some(page), rootok(gs, md), stackok(gs, pg, md, st, page), st.len() > 0, samecfg(md, md2), md.root_page == md2.root_page,
        st.last().1 matches Node::Internal(pn) && ({
            let di = sibl(st.last().2 as int);
            let l = ips(pn)[di];
            let r = ips(pn)[di + 1];
            &&& gs2.hh == gs.hh && gs2.g == gs_join(gs, l, r, gs2.m).g && good(gs2, pg2, md2, Some(st.last().0)) && rootok(gs2, md2)
            &&& exists|n1: Node<T, U>| pg2 == #[trigger] pg.update(r as int, Node::Free(md.free_page)).update(l as int, n1)
            &&& kids(gs2.g, gs2.g[st.last().0], iks(pn).remove(di), ips(pn).remove(di + 1))
        }),
    ensures
        st.last().1 matches Node::Internal(pn) && pdel(gs2, pg2, md2, st.drop_last(), st.last().0, pn, sibl(st.last().2 as int)),
{
    reveal(pdel);
    lemma_sib(gs, pg, md, x, st, page);
    assert(live(gs2, st.last().0));
    assert forall|p: usize| #[trigger] live(gs, p) && gs.g[p].h > gs.g[st.last().0].h implies live(gs2, p) && gs2.g[p].h == gs.g[p].h && pg2[p as int] == pg[p as int] by {}
    lemma_up(gs, pg, md, st, page, gs2, pg2, md2);
}
pub proof fn lemma_leaf_move<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, y: usize, pn: InternalNode<T, U>, di: int, nl: LeafNode<T, U>, nr: LeafNode<T, U>, m2: Map<real, Entry<T, U>>, ny: InternalNode<T, U>, n1: LeafNode<T, U>, n2: LeafNode<T, U>, len: usize) -> (gs2: GS<T, U>)
    requires
        twol(gs, pg, md, y, pn, di, nl, nr, m2), n1.len >= (md.leaf_degree + 1) / 2, n2.len >= (md.leaf_degree + 1) / 2,
        lwf(n1), lwf(n2), n1.entries@.len() == nl.entries@.len(), n2.entries@.len() == nr.entries@.len(), les(n1) + les(n2) == les(nl) + les(nr),
        n1.next_leaf == nl.next_leaf, n2.next_leaf == nr.next_leaf,
        iwf(ny), ny.keys@.len() == pn.keys@.len(), iks(ny) == iks(pn).update(di, les(n2)[0].key), ips(ny) == ips(pn),
    ensures ({
        let l = ips(pn)[di];
        let r = ips(pn)[di + 1];
        &&& nfit(Node::Leaf(n1), md) && nfit(Node::Leaf(n2), md) && nfit(Node::Internal(ny), md)
        &&& l != r && l != y && r != y
        &&& gs2.m == m2
        &&& done(gs2, pg.update(y as int, Node::Internal(ny)).update(l as int, Node::Leaf(n1)).update(r as int, Node::Leaf(n2)), Metadata { len, ..md })
    }),
{
    reveal(done);
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    let s = les(nl) + les(nr);
    lemma_child(gs, pg, md, None, y, di);
    lemma_child(gs, pg, md, None, y, di + 1);
    lemma_live(gs, pg, md, None, l);
    lemma_live(gs, pg, md, None, r);
    lemma_live(gs, pg, md, None, y);
    lemma_cat_fit(nl, nr, md, s);
    assert forall|i: int| 0 <= i < les(n1).len() implies efit(#[trigger] les(n1)[i], md.key_size as int, md.value_size as int) by { assert(les(n1)[i] == (les(n1) + les(n2))[i]); assert(efit(s[i], md.key_size as int, md.value_size as int)); }
    assert forall|i: int| 0 <= i < les(n2).len() implies efit(#[trigger] les(n2)[i], md.key_size as int, md.value_size as int) by { assert(les(n2)[i] == (les(n1) + les(n2))[i + n1.len]); assert(efit(s[i + n1.len], md.key_size as int, md.value_size as int)); }
    lemma_lfit(n1, md);
    lemma_lfit(n2, md);
    let e = les(n2)[0];
    assert(efit(e, md.key_size as int, md.value_size as int));
    let k = e.key;
    assert forall|i: int| 0 <= i < iks(ny).len() implies kfit(#[trigger] iks(ny)[i], md.key_size as int) by { if i != di { assert(iks(ny)[i] == iks(pn)[i]); lemma_ifits(pn, md, i); } }
    lemma_ifit(ny, md);
    let a = Attr { hi: gs.g[r].hi, ..gs.g[l] };
    assert(kids(gs.g, gs.g[y], iks(pn), ips(pn)));
    if l == r { lemma_same_child(gs.g, gs.g[y], iks(pn), ips(pn), di, di + 1); }
    lemma_lseq_join(m2, gs.g[l], gs.g[r], a, les(nl), les(nr));
    assert(s[n1.len as int] == e) by { assert((les(n1) + les(n2))[n1.len as int] == e); }
    assert(s.subrange(0, n1.len as int) =~= les(n1)) by { assert((les(n1) + les(n2)).subrange(0, n1.len as int) =~= les(n1)); }
    assert(s.subrange(n1.len as int, s.len() as int) =~= les(n2)) by { assert((les(n1) + les(n2)).subrange(n1.len as int, s.len() as int) =~= les(n2)); }
    let la = Attr { hi: Some(k.rank()), ..gs.g[l] };
    let ra = Attr { lo: Some(k.rank()), ..gs.g[r] };
    assert(gs.g[l].h == gs.g[r].h);
    lemma_lseq_split(m2, a, s, n1.len as int, la, ra);
    let g2 = gs_move(gs, l, r, k.rank(), m2).g;
    if let Some(q) = nl.next_leaf { assert(live(gs, q)); assert(q == r) by { if q != r { assert(disj(gs.g[q], gs.g[r])); } } }
    if let Some(q) = nr.next_leaf { assert(live(gs, q)); assert(q != l && q != r); }
    assert(nodeok(g2, m2, md, g2[l], Node::Leaf(n1)));
    assert(nodeok(g2, m2, md, g2[r], Node::Leaf(n2)));
    let gs2 = lemma_move(gs, pg, md, None, y, di, k, ny, Node::Leaf(n1), Node::Leaf(n2), m2);
    lemma_relen(gs2, pg.update(y as int, Node::Internal(ny)).update(l as int, Node::Leaf(n1)).update(r as int, Node::Leaf(n2)), md, None, len);
    gs2
}
// ---- the same for internal pages ----
pub open spec fn twoi<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, y: usize, pn: InternalNode<T, U>, di: int, nl: InternalNode<T, U>, nr: InternalNode<T, U>) -> bool {
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    &&& good(gs, pg, md, x) && rootok(gs, md) && live(gs, y) && pg[y as int] == Node::Internal(pn) && 0 <= di < pn.len
    &&& x == Some(l) || x == Some(r)
    &&& iwf(nl) && nfit(Node::Internal(nl), md) && kids(gs.g, gs.g[l], iks(nl), ips(nl))
    &&& iwf(nr) && nfit(Node::Internal(nr), md) && kids(gs.g, gs.g[r], iks(nr), ips(nr))
}
pub open spec fn idel<T: Ord, U>(n: InternalNode<T, U>, di: int, c: InternalNode<T, U>) -> bool { iwf(c) && c.keys@.len() == n.keys@.len() && iks(c) == iks(n).remove(di) && ips(c) == ips(n).remove(di + 1) }
pub proof fn lemma_idel<T: Ord, U>(n: InternalNode<T, U>, md: Metadata, di: int, c: InternalNode<T, U>)
    requires iwf(n), nfit(Node::Internal(n), md), 0 <= di < n.len, idel(n, di, c),
    ensures nfit(Node::Internal(c), md), c.len + 1 == n.len,
{
    assert(iks(c).len() == iks(n).len() - 1);
    assert forall|i: int| 0 <= i < iks(c).len() implies kfit(#[trigger] iks(c)[i], md.key_size as int) by {
        if i < di { assert(iks(c)[i] == iks(n)[i]); lemma_ifits(n, md, i); } else { assert(iks(c)[i] == iks(n)[i + 1]); lemma_ifits(n, md, i + 1); }
    }
    lemma_ifit(c, md);
}
// the page takes its node without the separator
pub proof fn lemma_del_put<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, y: usize, n: InternalNode<T, U>, di: int, c: InternalNode<T, U>)
    requires pdel(gs, pg, md, st, y, n, di), idel(n, di, c), c.len >= 1, st.len() == 0 || c.len + 1 >= minp(md),
    ensures nfit(Node::Internal(c), md), done(gs, pg.update(y as int, Node::Internal(c)), md),
{
    reveal(pdel);
    reveal(done);
    lemma_idel(n, md, di, c);
    lemma_put(gs, pg, md, Some(y), y, Node::Internal(c), gs.m);
    assert(GS { m: gs.m, ..gs } == gs);
}
// a root without separators is given up
pub proof fn lemma_del_root<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, y: usize, n: InternalNode<T, U>, di: int, c: InternalNode<T, U>) -> (gs2: GS<T, U>)
    requires pdel(gs, pg, md, st, y, n, di), idel(n, di, c), st.len() == 0, c.len == 0,
    ensures done(gs2, pg.update(y as int, Node::Free(md.free_page)), Metadata { root_page: c.pointers@[0], free_page: Some(y), ..md }), gs2.m == gs.m, y == md.root_page,
{
    reveal(pdel);
    reveal(done);
    assert(iks(c) =~= Seq::<T>::empty());
    assert(ips(c) =~= seq![c.pointers@[0]]);
    lemma_shrink::<T, U>(gs, pg, md, c.pointers@[0], Metadata { root_page: c.pointers@[0], free_page: Some(y), ..md })
}
pub proof fn lemma_twoi<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, page: usize, n: InternalNode<T, U>, di: int, c: InternalNode<T, U>)
    requires pdel(gs, pg, md, st, page, n, di), idel(n, di, c), st.len() > 0,
    ensures
        nfit(Node::Internal(c), md), c.len + 1 == n.len, n.len + 1 >= minp(md), n.len >= 1, md_ok(md), page < pg.len(), page != md.root_page,
        st.last().1 matches Node::Internal(pn) && ({
            let ci = st.last().2 as int;
            let si = sibi(ci);
            let sp = ips(pn)[si];
            let right = ci == 0;
            &&& iwf(pn) && nfit(Node::Internal(pn), md) && pn.keys@.len() == md.internal_degree && pn.len >= 1 && ci <= pn.len && 0 <= si <= pn.len && ips(pn)[ci] == page && sp == pn.pointers@[si] && sp < pg.len() && sp != page && st.last().0 != sp && st.last().0 != page && st.last().0 < pg.len()
            &&& pg[sp as int] matches Node::Internal(sn) && iwf(sn) && nfit(Node::Internal(sn), md) && ksorted(iks(sn)) && sn.len + 1 >= minp(md) && sn.len >= 1 && ksorted(iks(c))
                && twoi(gs, pg, md, Some(page), st.last().0, pn, sibl(ci), if right { c } else { sn }, if right { sn } else { c })
                // every key of the page lies on its side of the separator
                && (right ==> is_kpos(iks(c), iks(pn)[0].rank(), c.len as int)) && (!right ==> is_kpos(iks(c), iks(pn)[si].rank(), 0))
        }),
{
    reveal(pdel);
    lemma_idel(n, md, di, c);
    lemma_sib(gs, pg, md, Some(page), st, page);
    let pn = st.last().1->Internal_0;
    let ci = st.last().2 as int;
    assert(kids(gs.g, gs.g[page], iks(c), ips(c)));
    if ci == 0 {
        assert(gs.g[page].hi == Some(iks(pn)[0].rank()));
        assert forall|i: int| 0 <= i < c.len implies (#[trigger] iks(c)[i]).rank() <= iks(pn)[0].rank() by {}
    } else {
        assert(gs.g[page].lo == Some(iks(pn)[ci - 1].rank()));
        assert forall|i: int| 0 <= i < c.len implies (#[trigger] iks(c)[i]).rank() > iks(pn)[ci - 1].rank() by {}
    }
}
pub proof fn lemma_icat_fit<T: Ord, U>(nl: InternalNode<T, U>, sep: T, nr: InternalNode<T, U>, md: Metadata, s: Seq<T>)
    requires iwf(nl), iwf(nr), nfit(Node::Internal(nl), md), nfit(Node::Internal(nr), md), kfit(sep, md.key_size as int), s == iks(nl).push(sep) + iks(nr),
    ensures forall|i: int| 0 <= i < s.len() ==> kfit(#[trigger] s[i], md.key_size as int),
{
    assert forall|i: int| 0 <= i < s.len() implies kfit(#[trigger] s[i], md.key_size as int) by {
        if i < nl.len { assert(s[i] == iks(nl)[i]); lemma_ifits(nl, md, i); } else if i > nl.len { assert(s[i] == iks(nr)[i - nl.len - 1]); lemma_ifits(nr, md, i - nl.len - 1); } else { assert(s[i] == sep); }
    }
}
pub proof fn lemma_twoi_join<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, y: usize, pn: InternalNode<T, U>, di: int, nl: InternalNode<T, U>, nr: InternalNode<T, U>)
    requires twoi(gs, pg, md, x, y, pn, di, nl, nr), x != Some(y),
    ensures
        kids(gs.g, Attr { hi: gs.g[ips(pn)[di + 1]].hi, ..gs.g[ips(pn)[di]] }, iks(nl).push(iks(pn)[di]) + iks(nr), ips(nl) + ips(nr)), kfit(iks(pn)[di], md.key_size as int),
        ips(pn)[di] != ips(pn)[di + 1], gs.g[ips(pn)[di + 1]].h == gs.g[ips(pn)[di]].h, gs.g[ips(pn)[di]].h > 0, live(gs, ips(pn)[di]), live(gs, ips(pn)[di + 1]),
        iwf(pn), nfit(Node::Internal(pn), md),
{
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    lemma_live(gs, pg, md, x, y);
    lemma_child(gs, pg, md, x, y, di);
    lemma_child(gs, pg, md, x, y, di + 1);
    assert(kids(gs.g, gs.g[y], iks(pn), ips(pn)));
    if l == r { lemma_same_child(gs.g, gs.g[y], iks(pn), ips(pn), di, di + 1); }
    lemma_ifits(pn, md, di);
    lemma_kids_join(gs.g, gs.g[l], gs.g[r], Attr { hi: gs.g[r].hi, ..gs.g[l] }, iks(nl), ips(nl), iks(pn)[di], iks(nr), ips(nr));
}
pub proof fn lemma_kids_frame<T: Ord>(g: Map<usize, Attr>, g2: Map<usize, Attr>, a: Attr, ks: Seq<T>, ps: Seq<usize>)
    requires kids(g, a, ks, ps), forall|p: usize| g.dom().contains(p) && (#[trigger] g[p]).h + 1 == a.h ==> g2.dom().contains(p) && g2[p] == g[p],
    ensures kids(g2, a, ks, ps),
{
    assert forall|i: int| 0 <= i < ps.len() implies g2.dom().contains(#[trigger] ps[i]) && g2[ps[i]] == kattr(a, ks, i) by { assert(g[ps[i]].h + 1 == a.h); }
}
pub proof fn lemma_int_join<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, y: usize, pn: InternalNode<T, U>, di: int, nl: InternalNode<T, U>, nr: InternalNode<T, U>, n1: InternalNode<T, U>) -> (gs2: GS<T, U>)
    requires
        twoi(gs, pg, md, x, y, pn, di, nl, nr), x != Some(y), iwf(n1), n1.keys@.len() == nl.keys@.len(), iks(n1) == iks(nl).push(iks(pn)[di]) + iks(nr), ips(n1) == ips(nl) + ips(nr),
        n1.len >= 1, n1.len + 1 >= minp(md),
    ensures ({
        let l = ips(pn)[di];
        let r = ips(pn)[di + 1];
        &&& nfit(Node::Internal(n1), md)
        &&& gs2 == gs_join(gs, l, r, gs.m)
        &&& good(gs2, pg.update(r as int, Node::Free(md.free_page)).update(l as int, Node::Internal(n1)), Metadata { free_page: Some(r), ..md }, Some(y)) && rootok(gs2, Metadata { free_page: Some(r), ..md })
        &&& kids(gs2.g, gs2.g[y], iks(pn).remove(di), ips(pn).remove(di + 1)) && gs2.g[y] == gs.g[y]
    }),
{
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    lemma_twoi_join(gs, pg, md, x, y, pn, di, nl, nr);
    lemma_icat_fit(nl, iks(pn)[di], nr, md, iks(n1));
    lemma_ifit(n1, md);
    let gs2 = gs_join(gs, l, r, gs.m);
    let a = Attr { hi: gs.g[r].hi, ..gs.g[l] };
    lemma_kids_frame(gs.g, gs2.g, a, iks(n1), ips(n1));
    assert(gs2.g[l] == a);
    assert(nodeok(gs2.g, gs.m, md, gs2.g[l], Node::Internal(n1)));
    lemma_join(gs, pg, md, x, y, di, Node::Internal(n1), gs.m, Metadata { free_page: Some(r), ..md })
}
pub proof fn lemma_int_move<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, x: Option<usize>, y: usize, pn: InternalNode<T, U>, di: int, nl: InternalNode<T, U>, nr: InternalNode<T, U>, k: T, ny: InternalNode<T, U>, n1: InternalNode<T, U>, n2: InternalNode<T, U>) -> (gs2: GS<T, U>)
    requires
        twoi(gs, pg, md, x, y, pn, di, nl, nr), x != Some(y),
        iwf(n1), n1.keys@.len() == nl.keys@.len(), n1.len >= 1, n1.len + 1 >= minp(md), iwf(n2), n2.keys@.len() == nr.keys@.len(), n2.len >= 1, n2.len + 1 >= minp(md),
        iks(n1).push(k) + iks(n2) == iks(nl).push(iks(pn)[di]) + iks(nr), ips(n1) + ips(n2) == ips(nl) + ips(nr),
        iwf(ny), ny.keys@.len() == pn.keys@.len(), iks(ny) == iks(pn).update(di, k), ips(ny) == ips(pn),
    ensures ({
        let l = ips(pn)[di];
        let r = ips(pn)[di + 1];
        &&& nfit(Node::Internal(n1), md) && nfit(Node::Internal(n2), md) && nfit(Node::Internal(ny), md)
        &&& l != r && l != y && r != y
        &&& gs2.m == gs.m
        &&& done(gs2, pg.update(y as int, Node::Internal(ny)).update(l as int, Node::Internal(n1)).update(r as int, Node::Internal(n2)), md)
    }),
{
    reveal(done);
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    lemma_twoi_join(gs, pg, md, x, y, pn, di, nl, nr);
    let kk = iks(nl).push(iks(pn)[di]) + iks(nr);
    let pp = ips(nl) + ips(nr);
    let kt = iks(n1).push(k) + iks(n2);
    let m = n1.len as int;
    lemma_icat_fit(nl, iks(pn)[di], nr, md, kk);
    assert forall|i: int| 0 <= i < iks(n1).len() implies kfit(#[trigger] iks(n1)[i], md.key_size as int) by { assert(iks(n1)[i] == kt[i]); assert(kfit(kk[i], md.key_size as int)); }
    assert forall|i: int| 0 <= i < iks(n2).len() implies kfit(#[trigger] iks(n2)[i], md.key_size as int) by { assert(iks(n2)[i] == kt[i + m + 1]); assert(kfit(kk[i + m + 1], md.key_size as int)); }
    assert(kt[m] == k && kfit(kk[m], md.key_size as int));
    lemma_ifit(n1, md);
    lemma_ifit(n2, md);
    assert forall|i: int| 0 <= i < iks(ny).len() implies kfit(#[trigger] iks(ny)[i], md.key_size as int) by { if i != di { assert(iks(ny)[i] == iks(pn)[i]); lemma_ifits(pn, md, i); } }
    lemma_ifit(ny, md);
    let a = Attr { hi: gs.g[r].hi, ..gs.g[l] };
    let la = Attr { hi: Some(k.rank()), ..gs.g[l] };
    let ra = Attr { lo: Some(k.rank()), ..gs.g[r] };
    assert(kt.subrange(0, m) =~= iks(n1));
    assert(kt.subrange(m + 1, kt.len() as int) =~= iks(n2));
    assert((ips(n1) + ips(n2)).subrange(0, m + 1) =~= ips(n1));
    assert((ips(n1) + ips(n2)).subrange(m + 1, pp.len() as int) =~= ips(n2));
    lemma_kids_split(gs.g, a, kk, pp, m, la, ra);
    let g2 = gs_move(gs, l, r, k.rank(), gs.m).g;
    lemma_kids_frame(gs.g, g2, la, iks(n1), ips(n1));
    lemma_kids_frame(gs.g, g2, ra, iks(n2), ips(n2));
    assert(nodeok(g2, gs.m, md, g2[l], Node::Internal(n1)));
    assert(nodeok(g2, gs.m, md, g2[r], Node::Internal(n2)));
    lemma_move(gs, pg, md, x, y, di, k, ny, Node::Internal(n1), Node::Internal(n2), gs.m)
}
pub proof fn lemma_ins_last<T: Ord, U>(es: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires sorted(es), forall|i: int| 0 <= i < es.len() ==> rk(#[trigger] es[i]) < rk(e),
    ensures ins(es, e) == es.push(e), !hask(es, rk(e)),
{
    lemma_pos_unique(es, rk(e), es.len() as int);
    assert(ins(es, e) =~= es.push(e));
}
pub proof fn lemma_ins_first<T: Ord, U>(es: Seq<Entry<T, U>>, e: Entry<T, U>)
    requires sorted(es), forall|i: int| 0 <= i < es.len() ==> rk(#[trigger] es[i]) > rk(e),
    ensures ins(es, e) == seq![e] + es, !hask(es, rk(e)),
{
    lemma_pos_unique(es, rk(e), 0);
    assert(ins(es, e) =~= seq![e] + es);
}
// the entries of the left leaf are below those of the right one
pub proof fn lemma_below<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, y: usize, pn: InternalNode<T, U>, di: int, nl: LeafNode<T, U>, nr: LeafNode<T, U>, m2: Map<real, Entry<T, U>>)
    requires twol(gs, pg, md, y, pn, di, nl, nr, m2),
    ensures forall|i: int, j: int| 0 <= i < les(nl).len() && 0 <= j < les(nr).len() ==> rk(#[trigger] les(nl)[i]) < rk(#[trigger] les(nr)[j]), sorted(les(nl)), sorted(les(nr)), md_ok(md), nl.entries@.len() == md.leaf_degree, nr.entries@.len() == md.leaf_degree,
{
    let l = ips(pn)[di];
    let r = ips(pn)[di + 1];
    lemma_live(gs, pg, md, None, y);
    lemma_child(gs, pg, md, None, y, di);
    lemma_child(gs, pg, md, None, y, di + 1);
    assert(gs.g[l].hi == Some(iks(pn)[di].rank()) && gs.g[r].lo == Some(iks(pn)[di].rank()));
    assert forall|i: int, j: int| 0 <= i < les(nl).len() && 0 <= j < les(nr).len() implies rk(#[trigger] les(nl)[i]) < rk(#[trigger] les(nr)[j]) by {
        assert(cov(gs.g[l], rk(les(nl)[i])) && cov(gs.g[r], rk(les(nr)[j])));
    }
}
pub proof fn lemma_pdelf<T: Ord, U>(gs: GS<T, U>, pg: Seq<Node<T, U>>, md: Metadata, st: Seq<(usize, Node<T, U>, usize)>, y: usize, n: InternalNode<T, U>, di: int)
    requires pdel(gs, pg, md, st, y, n, di),
    ensures iwf(n), nfit(Node::Internal(n), md), 0 <= di < n.len, y < pg.len(), md_ok(md), live(gs, y), y == md.root_page || n.len + 1 >= minp(md), st.len() == 0 ==> y == md.root_page, n.keys@.len() == md.internal_degree,
        good(gs, pg, md, Some(y)), rootok(gs, md), stackok(gs, pg, md, st, y),
{
    reveal(pdel);
}
//@ fn bp_tree::map::BpMap::remove
//@ attr #[verifier::rlimit(100)]
    requires old(self).inv(),
    ensures
        ret matches Err(e) ==> fault(e),
        ret is Ok ==> final(self).inv(),
        ret is Ok ==> final(self)@ == old(self)@.remove(key.rank()),
        ret matches Ok(o) ==> o == opair(mget(old(self)@, key.rank())),
        ret is Ok ==> samecfg(old(self).pager.metadata, final(self).pager.metadata),
//@ entry
    hide(good); hide(tree); hide(stackok); hide(kids); hide(lseq); hide(rootok); hide(twoi); hide(twol); hide(sorted); hide(ksorted);
    let ghost pg0 = old(self).pager.pg();
    let ghost md0 = old(self).pager.metadata;
    let ghost gs0 = gsof(pg0, md0);
    let ghost r0 = key.rank();
    let ghost m2 = gs0.m.remove(r0);
    let ghost mut gs = gs0;
    proof { lemma_pager(old(self).pager); lemma_root0(gs0, pg0, md0); }
//@ before 0 `let mut delete_entry`
    let ghost l0 = curr_node->Leaf_0;
    let ghost p0 = curr_page;
    let ghost st0 = stack@;
    let ghost y0 = st0.last().0;
    let ghost pn0 = st0.last().1->Internal_0;
    let ghost ci0 = st0.last().2 as int;
    let ghost di0 = sibl(ci0);
    let ghost sp0 = ips(pn0)[sibi(ci0)];
    let ghost sn0 = pg0[sp0 as int]->Leaf_0;
    proof { lemma_top(gs0, pg0, md0, st0, p0); lemma_leaf(gs0, pg0, md0, curr_page, r0); if st0.len() > 0 { lemma_sib(gs0, pg0, md0, None, st0, p0); } }
//@ after 0 `ret = curr_leaf_node.remove(key)`
    let ghost c0 = curr_leaf_node;
    let ghost n1l = if ci0 == 0 { c0 } else { sn0 };
    let ghost n1r = if ci0 == 0 { sn0 } else { c0 };
    let ghost len2 = m2.dom().len() as usize;
    proof {
        lemma_leaf_rem(gs0, pg0, md0, p0, l0, c0, r0);
        lemma_nfit(Node::Leaf(c0), md0);
        if st0.len() == 0 || c0.len >= (md0.leaf_degree + 1) / 2 {
            gs = GS { m: m2, ..gs0 };
            lemma_rem_put(gs0, pg0, md0, p0, l0, c0, r0, len2);
        } else {
            lemma_twol(gs0, pg0, md0, st0, p0, l0, c0, r0);
            lemma_below(gs0, pg0, md0, y0, pn0, di0, n1l, n1r, m2);
        }
    }
//@ after 0 `curr_leaf_node.merge(&mut sibling_leaf_node)`
    proof {
        let n1 = curr_leaf_node;
        gs = lemma_leaf_join(gs0, pg0, md0, y0, pn0, di0, c0, sn0, m2, n1, len2);
        lemma_nfit(Node::Leaf(n1), md0);
        lemma_pdel(gs0, pg0, md0, st0, p0, gs, pg0.update(sp0 as int, Node::Free(md0.free_page)).update(p0 as int, Node::Leaf(n1)), Metadata { free_page: Some(sp0), len: len2, ..md0 }, None);
    }
//@ after 0 `sibling_leaf_node.merge(&mut curr_leaf_node)`
    proof {
        let n1 = sibling_leaf_node;
        gs = lemma_leaf_join(gs0, pg0, md0, y0, pn0, di0, sn0, c0, m2, n1, len2);
        lemma_nfit(Node::Leaf(n1), md0);
        lemma_pdel(gs0, pg0, md0, st0, p0, gs, pg0.update(p0 as int, Node::Free(md0.free_page)).update(sp0 as int, Node::Leaf(n1)), Metadata { free_page: Some(p0), len: len2, ..md0 }, None);
    }
//@ before 0 `curr_leaf_node.insert(removed_entry)`
    proof { lemma_ins_last(les(c0), removed_entry); }
//@ before 1 `curr_leaf_node.insert(removed_entry)`
    proof { lemma_ins_first(les(c0), removed_entry); }
//@ before 0 `self.pager.write_node(parent_page, &Node::Internal(parent_node))`
    proof {
        let n1 = if ci0 == 0 { curr_leaf_node } else { sibling_leaf_node };
        let n2 = if ci0 == 0 { sibling_leaf_node } else { curr_leaf_node };
        let l = ips(pn0)[di0];
        let r = ips(pn0)[di0 + 1];
        assert(les(n1) + les(n2) =~= les(n1l) + les(n1r));
        assert(iks(parent_node) =~= iks(pn0).update(di0, les(n2)[0].key));
        assert(ips(parent_node) =~= ips(pn0));
        gs = lemma_leaf_move(gs0, pg0, md0, y0, pn0, di0, n1l, n1r, m2, parent_node, n1, n2, len2);
        lemma_nfit(Node::Leaf(n1), md0);
        lemma_nfit(Node::Leaf(n2), md0);
        lemma_nfit(Node::Internal(parent_node), md0);
        assert(pg0.update(y0 as int, Node::Internal(parent_node)).update(sp0 as int, Node::Leaf(sibling_leaf_node)).update(p0 as int, Node::Leaf(curr_leaf_node))
            =~= pg0.update(y0 as int, Node::Internal(parent_node)).update(l as int, Node::Leaf(n1)).update(r as int, Node::Leaf(n2)));
    }
//@ loop 0
    invariant
        self.pager.pinv(), rstate(gs, self.pager.pg(), self.pager.metadata, stack@, delete_entry), gs.m == m2,
        samecfg(md0, self.pager.metadata), self.pager.metadata.len == m2.dom().len(), min_pointers == minp(md0),
    ensures delete_entry is None,
    decreases stack@.len() + (if delete_entry is Some { 1int } else { 0 }),
//@ body 0
    let ghost pg1 = self.pager.pg();
    let ghost md1 = self.pager.metadata;
    let ghost st1 = stack@;
    let ghost n0 = curr_node;
    let ghost p1 = curr_page;
    let ghost y1 = st1.last().0;
    let ghost pn1 = st1.last().1->Internal_0;
    let ghost ci1 = st1.last().2 as int;
    let ghost di1 = sibl(ci1);
    let ghost sp1 = ips(pn1)[sibi(ci1)];
    let ghost sn1 = pg1[sp1 as int]->Internal_0;
    proof { lemma_pager(self.pager); lemma_pdelf(gs, pg1, md1, st1, p1, n0, delete_index as int); }
//@ after 0 `curr_node.remove_at(delete_index, true)`
    let ghost c1 = curr_node;
    let ghost n1l = if ci1 == 0 { c1 } else { sn1 };
    let ghost n1r = if ci1 == 0 { sn1 } else { c1 };
    proof {
        lemma_idel(n0, md1, delete_index as int, c1);
        lemma_nfit(Node::Internal(c1), md1);
        if c1.len + 1 < minp(md1) && st1.len() > 0 {
            lemma_twoi(gs, pg1, md1, st1, p1, n0, delete_index as int, c1);
        } else if c1.len == 0 {
            gs = lemma_del_root(gs, pg1, md1, st1, p1, n0, delete_index as int, c1);
        } else {
            lemma_del_put(gs, pg1, md1, st1, p1, n0, delete_index as int, c1);
        }
    }
//@ after 0 `curr_node.merge(parent_key, &mut sibling_node)`
    proof {
        let g1 = gs;
        let n1 = curr_node;
        gs = lemma_int_join(g1, pg1, md1, Some(p1), y1, pn1, di1, c1, sn1, n1);
        lemma_nfit(Node::Internal(n1), md1);
        lemma_pdel(g1, pg1, md1, st1, p1, gs, pg1.update(sp1 as int, Node::Free(md1.free_page)).update(p1 as int, Node::Internal(n1)), Metadata { free_page: Some(sp1), ..md1 }, Some(p1));
    }
//@ after 0 `sibling_node.merge(parent_key, &mut curr_node)`
    proof {
        let g1 = gs;
        let n1 = sibling_node;
        gs = lemma_int_join(g1, pg1, md1, Some(p1), y1, pn1, di1, sn1, c1, n1);
        lemma_nfit(Node::Internal(n1), md1);
        lemma_pdel(g1, pg1, md1, st1, p1, gs, pg1.update(p1 as int, Node::Free(md1.free_page)).update(sp1 as int, Node::Internal(n1)), Metadata { free_page: Some(p1), ..md1 }, Some(p1));
    }
//@ before 1 `self.pager.write_node(parent_page, &Node::Internal(parent_node))`
    proof {
        let l = ips(pn1)[di1];
        let r = ips(pn1)[di1 + 1];
        let k = iks(sn1)[0];
        assert(iks(curr_node).push(k) + iks(sibling_node) =~= iks(c1).push(iks(pn1)[di1]) + iks(sn1));
        assert(ips(curr_node) + ips(sibling_node) =~= ips(c1) + ips(sn1));
        assert(iks(parent_node) =~= iks(pn1).update(di1, k));
        assert(ips(parent_node) =~= ips(pn1));
        gs = lemma_int_move(gs, pg1, md1, Some(p1), y1, pn1, di1, c1, sn1, k, parent_node, curr_node, sibling_node);
        lemma_nfit(Node::Internal(curr_node), md1);
        lemma_nfit(Node::Internal(sibling_node), md1);
        lemma_nfit(Node::Internal(parent_node), md1);
        assert(pg1.update(y1 as int, Node::Internal(parent_node)).update(sp1 as int, Node::Internal(sibling_node)).update(p1 as int, Node::Internal(curr_node))
            =~= pg1.update(y1 as int, Node::Internal(parent_node)).update(l as int, Node::Internal(curr_node)).update(r as int, Node::Internal(sibling_node)));
    }
//@ before 2 `self.pager.write_node(parent_page, &Node::Internal(parent_node))`
    proof {
        let k = iks(sn1)[sn1.len - 1];
        assert(iks(sibling_node).push(k) + iks(curr_node) =~= iks(sn1).push(iks(pn1)[di1]) + iks(c1));
        assert(ips(sibling_node) + ips(curr_node) =~= ips(sn1) + ips(c1));
        assert(iks(parent_node) =~= iks(pn1).update(di1, k));
        assert(ips(parent_node) =~= ips(pn1));
        gs = lemma_int_move(gs, pg1, md1, Some(p1), y1, pn1, di1, sn1, c1, k, parent_node, sibling_node, curr_node);
        lemma_nfit(Node::Internal(curr_node), md1);
        lemma_nfit(Node::Internal(sibling_node), md1);
        lemma_nfit(Node::Internal(parent_node), md1);
    }
//@ before 0 `Ok(ret.map(|entry| (entry.key, entry.value)))`
    proof { lemma_done(gs, self.pager, self.pager.metadata); }
