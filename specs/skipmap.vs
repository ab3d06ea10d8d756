//@ include omap.vs
//@ include rng.vs
//@ include rawptr.vs
//@ inherent Add
//@ inherent Sub
//@ inherent Iterator
//@ inherent Index
//@ inherent IndexMut
//@ inherent Default
//@ inherent IntoIterator
//@ inherent Drop
//@ file src/skiplist/map.rs as skiplist::map
//@ include skipset.vs
//@ use std::alloc => -
//@ use std::ptr => -
//@ rawptr skiplist::map T, U
//@ heapfield SkipMap heap: Tracked<crate::rp::Heap<T, U>>
//@ heapfield SkipMapIntoIter heap: Tracked<crate::rp::Heap<T, U>>
//@ heapfield SkipMapIter heap: Tracked<&'a crate::rp::Heap<T, U>>
//@ heapfield SkipMapIterMut heap: Tracked<&'a mut crate::rp::Heap<T, U>>
//@ heapparam Node::new Tracked(h): Tracked<&mut crate::rp::Heap<T, U>>
//@ heapparam Node::free Tracked(h): Tracked<&mut crate::rp::Heap<T, U>>
//@ heap Node::new h | h
//@ heap Node::free h | h
//@ rawkeep Node::get_layout
//@ rawkeep Node::allocate
//@ rawkeep Node::deallocate
//@ rawkeep Node::get_pointer
//@ rawkeep Node::get_pointer_mut
//@ heap SkipMap::new &hp | &mut hp | Tracked(hp)
//@ heap SkipMap::union &hp | &mut hp | Tracked(crate::rp::Heap::empty())
//@ heap SkipMap::intersection &hp | &mut hp | Tracked(crate::rp::Heap::empty())
//@ heap SkipMap::map_difference &hp | &mut hp | Tracked(crate::rp::Heap::empty())
//@ heap SkipMap::iter self.heap.borrow() | | Tracked(self.heap.borrow())
//@ heap SkipMap::iter_mut self.heap.borrow() | self.heap.borrow_mut() | Tracked(self.heap.borrow_mut())
//@ heap SkipMap::IntoIterator::into_iter &hp | &mut hp | Tracked(hp.take_rest(self.head))
//@ subst skiplist::map::SkipMapIterMut::Iterator::next `entry_mut` => `entry_lend`
//@ skip skiplist::map::Node::get_layout
//@ skip skiplist::map::Node::allocate
//@ skip skiplist::map::Node::deallocate
//@ skip skiplist::map::Node::get_pointer
//@ skip skiplist::map::Node::get_pointer_mut

//@ prelude
// ---------------------------------------------------------------------------
// A skip list in the heap: s is the head followed by the nodes in order; every node of height
// above l is linked at level l to the next node of height above l.
// ---------------------------------------------------------------------------
pub mod sk {
use vstd::prelude::*;
use crate::rp::*;
use crate::entry::Entry;
pub type M<T, U> = Map<Ptr, NodeV<T, U>>;
pub open spec fn hts<T, U>(m: M<T, U>, s: Seq<Ptr>) -> Seq<int> { Seq::new(s.len(), |i: int| m[s[i]].links.len() as int) }
pub open spec fn ents<T, U>(m: M<T, U>, s: Seq<Ptr>) -> Seq<Entry<T, U>> { Seq::new((s.len() - 1) as nat, |i: int| ent(m, s[i + 1])) }
pub open spec fn tgt(s: Seq<Ptr>, j: int) -> Ptr { if 0 <= j < s.len() { s[j] } else { null() } }
// the first index after i of height above l
pub open spec fn nxt(hs: Seq<int>, i: int, l: int) -> int
    decreases hs.len() - i
{
    if i + 1 >= hs.len() { hs.len() as int } else if hs[i + 1] > l { i + 1 } else { nxt(hs, i + 1, l) }
}
pub open spec fn is_nxt(hs: Seq<int>, i: int, l: int, j: int) -> bool {
    i < j <= hs.len() && (j < hs.len() ==> hs[j] > l) && forall|k: int| i < k < j ==> #[trigger] hs[k] <= l
}
pub open spec fn lvl<T, U>(m: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, l: int) -> bool {
    forall|i: int| 0 <= i < s.len() && hs[i] > l ==> (#[trigger] m[s[i]]).links[l] == tgt(s, nxt(hs, i, l))
}
// nodes, without the links
pub open spec fn base<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>) -> bool {
    &&& s.len() >= 1 && s[0] == head && s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]) && s[i] != null() && 1 <= m[s[i]].links.len() <= 33
    &&& forall|i: int| 1 <= i < s.len() ==> live(m, #[trigger] s[i])
    &&& m[head].links.len() == 33 && m[head].key is None && m[head].value is None
}
#[verifier::opaque]
pub open spec fn repr<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>) -> bool {
    &&& base(m, head, s)
    &&& forall|p: Ptr| m.dom().contains(p) ==> #[trigger] s.contains(p)
    &&& forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l)
}
pub open spec fn ss<T, U>(m: M<T, U>, head: Ptr) -> Seq<Ptr> { choose|s: Seq<Ptr>| repr(m, head, s) }
pub open spec fn ix(s: Seq<Ptr>, p: Ptr) -> int { choose|i: int| 0 <= i < s.len() && s[i] == p }

pub broadcast proof fn b_ix(s: Seq<Ptr>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures ix(s, #[trigger] s[i]) == i,
{}
pub broadcast proof fn b_ix2(s: Seq<Ptr>, p: Ptr)
    requires #[trigger] s.contains(p),
    ensures 0 <= ix(s, p) < s.len(), s[ix(s, p)] == p,
{}
pub broadcast proof fn b_nxt(hs: Seq<int>, i: int, l: int)
    requires -1 <= i < hs.len(),
    ensures is_nxt(hs, i, l, #[trigger] nxt(hs, i, l)),
    decreases hs.len() - i,
{
    if i + 1 >= hs.len() {} else if hs[i + 1] > l {} else {
        b_nxt(hs, i + 1, l);
        let j = nxt(hs, i + 1, l);
        assert forall|k: int| i < k < j implies #[trigger] hs[k] <= l by { if k > i + 1 {} }
    }
}
pub proof fn lemma_nxt(hs: Seq<int>, i: int, l: int, j: int)
    requires -1 <= i < hs.len(), is_nxt(hs, i, l, j),
    ensures nxt(hs, i, l) == j,
{
    b_nxt(hs, i, l);
    let k = nxt(hs, i, l);
    if k < j { assert(hs[k] <= l); }
    if j < k { assert(hs[j] <= l); }
}
// the list is determined by the heap
pub proof fn lemma_unique<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>, t: Seq<Ptr>)
    requires repr(m, head, s), repr(m, head, t),
    ensures s == t,
{
    reveal(repr);
    lemma_prefix(m, head, s, t, s.len() as int - 1);
    lemma_prefix(m, head, t, s, t.len() as int - 1);
    assert(s =~= t);
}
proof fn lemma_prefix<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>, t: Seq<Ptr>, n: int)
    requires repr(m, head, s), repr(m, head, t), 0 <= n < s.len(),
    ensures n < t.len(), forall|i: int| 0 <= i <= n ==> s[i] == t[i],
    decreases n,
{
    reveal(repr);
    if n > 0 {
        lemma_prefix(m, head, s, t, n - 1);
        assert(lvl(m, s, hts(m, s), 0) && lvl(m, t, hts(m, t), 0));
        lemma_nxt(hts(m, s), n - 1, 0, n);
        lemma_nxt(hts(m, t), n - 1, 0, n);
        assert(m[s[n - 1]].links[0] == s[n]);
        assert(m[t[n - 1]].links[0] == tgt(t, n));
    }
}
pub proof fn lemma_ss<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>)
    requires repr(m, head, s),
    ensures repr(m, head, ss(m, head)), ss(m, head) == s,
{
    lemma_unique(m, head, s, ss(m, head));
}
// the next pointer at level l of the node in slot c
pub open spec fn at_l<T, U>(m: M<T, U>, s: Seq<Ptr>, c: Slot, l: int) -> bool {
    c.ok(m) && s.contains(c.val(m)) && hts(m, s)[ix(s, c.val(m))] > l
}
pub broadcast proof fn b_repr<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>)
    requires #[trigger] repr(m, head, s),
    ensures base(m, head, s), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l),
{ reveal(repr); }
pub open spec fn link<T, U>(m: M<T, U>, p: Ptr, l: int) -> Ptr { m[p].links[l] }
pub broadcast proof fn b_step<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>, i: int, l: int)
    requires #[trigger] repr(m, head, s), 0 <= i < s.len(), 0 <= l < hts(m, s)[i],
    ensures
        (#[trigger] m[s[i]].links[l]) == tgt(s, nxt(hts(m, s), i, l)),
        is_nxt(hts(m, s), i, l, nxt(hts(m, s), i, l)),
        l == 0 ==> nxt(hts(m, s), i, l) == i + 1,
{
    reveal(repr);
    assert(lvl(m, s, hts(m, s), l));
    b_nxt(hts(m, s), i, l);
    if l == 0 { lemma_nxt(hts(m, s), i, l, i + 1); }
}
pub broadcast proof fn b_ss<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>)
    requires #[trigger] repr(m, head, s),
    ensures ss(m, head) == s,
{ lemma_ss(m, head, s); }
pub broadcast proof fn b_set_ent<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>, p: Ptr, e: Entry<T, U>)
    requires repr(m, head, s), s.contains(p), p != head,
    ensures
        #![trigger repr(m, head, s), set_ent(m, p, e)]
        repr(set_ent(m, p, e), head, s),
        ents(set_ent(m, p, e), s) == ents(m, s).update(ix(s, p) - 1, e),
{
    reveal(repr);
    let m2 = set_ent(m, p, e);
    assert(hts(m2, s) =~= hts(m, s));
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { assert(lvl(m, s, hts(m, s), l)); }
    assert(ents(m2, s) =~= ents(m, s).update(ix(s, p) - 1, e));
}
// a slot that is not a link of the node it leads to
pub open spec fn off(c: Slot, p: Ptr) -> bool { match c { Slot::Loc(_) => true, Slot::Link(o, _) => o != p } }
// index k removed (0: nothing)
pub open spec fn rmv<A>(s: Seq<A>, k: int) -> Seq<A> { if k > 0 { s.remove(k) } else { s } }
// the nodes of s are as in m0, but for their links
pub open spec fn kept<T, U>(m0: M<T, U>, m: M<T, U>, s: Seq<Ptr>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]) && m[s[i]].key == m0[s[i]].key && m[s[i]].value == m0[s[i]].value && m[s[i]].links.len() == m0[s[i]].links.len()
}
// removing node k (if > 0) at level h, where c is the last node before k that is as high
pub proof fn lemma_rem_level<T, U>(m: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, k: int, c: int, h: int)
    requires
        hs.len() == s.len(), 0 <= c < s.len(), 0 <= k < s.len(), h >= 0,
        lvl(m, s, hs, h), hs[c] > h,
        k > 0 ==> c < k <= nxt(hs, c, h),
        forall|i: int| 0 <= i < s.len() && i != c && i != k && hs[i] > h ==> (#[trigger] m2[s[i]]).links[h] == m[s[i]].links[h],
        m2[s[c]].links[h] == (if k > 0 && hs[k] > h { tgt(s, nxt(hs, k, h)) } else { tgt(s, nxt(hs, c, h)) }),
        k == 0 ==> m2[s[0]].links[h] == m[s[0]].links[h] || c == 0,
    ensures lvl(m2, rmv(s, k), rmv(hs, k), h),
{
    let s2 = rmv(s, k);
    let hs2 = rmv(hs, k);
    assert forall|i: int| 0 <= i < s2.len() && hs2[i] > h implies (#[trigger] m2[s2[i]]).links[h] == tgt(s2, nxt(hs2, i, h)) by {
        let o = if k > 0 && i >= k { i + 1 } else { i };
        assert(s2[i] == s[o]);
        assert(m[s[o]].links[h] == tgt(s, nxt(hs, o, h)));
        b_nxt(hs, o, h); b_nxt(hs, c, h);
        if k > 0 { b_nxt(hs, k, h); }
        let j = if o == c && k > 0 && hs[k] > h { nxt(hs, k, h) } else { nxt(hs, o, h) };
        if k > 0 {
            if o < c { if j > c { assert(hs[c] <= h); } }
            if o > c && o < k { assert(hs[o] <= h); }
            let j2 = if j > k { j - 1 } else { j };
            if j == k { if o == c { assert(hs[k] <= h); } }
            assert(j != k);
            assert forall|x: int| i < x < j2 implies #[trigger] hs2[x] <= h by {
                let y = if x >= k { x + 1 } else { x };
                assert(hs2[x] == hs[y]);
                if o == c && hs[k] > h { if y < k { assert(nxt(hs, c, h) <= k || hs[k] <= h); assert(nxt(hs, c, h) == k); } }
            }
            lemma_nxt(hs2, i, h, j2);
        }
    }
}
// adding node x of height n after node q at level h, where c is the last node up to q that is as high
pub proof fn lemma_add_level<T, U>(m: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, c: int, x: Ptr, n: int, h: int)
    requires
        hs.len() == s.len(), 0 <= c <= q < s.len(), h >= 0, s.no_duplicates(), !s.contains(x),
        lvl(m, s, hs, h), hs[c] > h, nxt(hs, c, h) > q,
        forall|i: int| 0 <= i < s.len() && i != c && hs[i] > h ==> (#[trigger] m2[s[i]]).links[h] == m[s[i]].links[h],
        if n > h { m2[s[c]].links[h] == x && m2[x].links[h] == m[s[c]].links[h] } else { m2[s[c]].links[h] == m[s[c]].links[h] },
    ensures lvl(m2, s.insert(q + 1, x), hs.insert(q + 1, n), h),
{
    let s2 = s.insert(q + 1, x);
    let hs2 = hs.insert(q + 1, n);
    assert forall|i: int| 0 <= i < s2.len() && hs2[i] > h implies (#[trigger] m2[s2[i]]).links[h] == tgt(s2, nxt(hs2, i, h)) by {
        b_nxt(hs, c, h);
        let o = if i == q + 1 { c } else if i > q + 1 { i - 1 } else { i };
        if i != q + 1 { assert(s2[i] == s[o]); }
        assert(m[s[o]].links[h] == tgt(s, nxt(hs, o, h)));
        b_nxt(hs, o, h);
        let j = nxt(hs, o, h);
        if o < c { if j > c { assert(hs[c] <= h); } }
        if o > c && o <= q { assert(hs[o] <= h); }
        let j2 = if i == c && n > h { q + 1 } else if j > q { j + 1 } else { j };
        assert forall|y: int| i < y < j2 implies #[trigger] hs2[y] <= h by {
            let z = if y > q + 1 { y - 1 } else { y };
            if y != q + 1 { assert(hs2[y] == hs[z]); }
        }
        lemma_nxt(hs2, i, h, j2);
    }
}
// ---- the nodes reached from p by the lowest links
pub open spec fn chain0<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>) -> bool {
    &&& p == tgt(s, 0) && s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> live(m, #[trigger] s[i]) && s[i] != null() && 1 <= m[s[i]].links.len() <= 33 && m[s[i]].links[0] == tgt(s, i + 1)
}
#[verifier::opaque]
pub open spec fn chain<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>) -> bool { chain0(m, p, s) }
pub open spec fn cs<T, U>(m: M<T, U>, p: Ptr) -> Seq<Ptr> { choose|s: Seq<Ptr>| chain(m, p, s) }
pub open spec fn ok_chain<T, U>(m: M<T, U>, p: Ptr) -> bool { chain(m, p, cs(m, p)) }
pub open spec fn cents<T, U>(m: M<T, U>, s: Seq<Ptr>) -> Seq<Entry<T, U>> { Seq::new(s.len(), |i: int| ent(m, s[i])) }
proof fn lemma_chain_prefix<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>, t: Seq<Ptr>, n: int)
    requires chain(m, p, s), chain(m, p, t), 0 <= n < s.len(),
    ensures n < t.len(), s[n] == t[n],
    decreases n,
{
    reveal(chain);
    if n > 0 {
        lemma_chain_prefix(m, p, s, t, n - 1);
        assert(m[s[n - 1]].links[0] == s[n]);
        assert(m[t[n - 1]].links[0] == tgt(t, n));
    }
}
pub broadcast proof fn b_cs<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>)
    requires #[trigger] chain(m, p, s),
    ensures cs(m, p) == s,
{
    let t = cs(m, p);
    if s.len() > 0 { lemma_chain_prefix(m, p, s, t, s.len() - 1); }
    if t.len() > 0 { lemma_chain_prefix(m, p, t, s, t.len() - 1); }
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { lemma_chain_prefix(m, p, s, t, i); }
    assert(s =~= t);
}
pub broadcast proof fn b_chain<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>)
    requires #[trigger] chain(m, p, s),
    ensures
        p == null() ==> s.len() == 0,
        p != null() ==> s.len() > 0 && s[0] == p && live(m, p),
        forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]) && live(m, s[i]),
        s.no_duplicates(),
{ reveal(chain); }
pub broadcast proof fn b_chain_step<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>)
    requires chain(m, p, s), p != null(),
    ensures
        #![trigger chain(m, p, s), m[p].links]
        1 <= m[p].links.len() <= 33,
        chain(m, m[p].links[0], s.drop_first()),
        !s.drop_first().contains(p),
        forall|q: Ptr| #![trigger s.contains(q)] #![trigger s.drop_first().contains(q)] s.contains(q) <==> q == p || s.drop_first().contains(q),
        s =~= seq![p] + s.drop_first(),
{
    reveal(chain);
    let t = s.drop_first();
    assert forall|i: int| 0 <= i < t.len() implies live(m, #[trigger] t[i]) && t[i] != null() && 1 <= m[t[i]].links.len() <= 33 && m[t[i]].links[0] == tgt(t, i + 1) by { assert(t[i] == s[i + 1]); }
    assert(m[s[0]].links[0] == tgt(s, 1));
    lemma_drop_first(s);
}
pub broadcast proof fn b_chain_frame<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>, x: Ptr, n: NodeV<T, U>)
    requires chain(m, p, s), !s.contains(x),
    ensures
        #![trigger chain(m, p, s), m.insert(x, n)]
        chain(m.insert(x, n), p, s),
{ reveal(chain); }
pub broadcast proof fn b_chain_rm<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>, x: Ptr)
    requires chain(m, p, s), !s.contains(x),
    ensures
        #![trigger chain(m, p, s), m.remove(x)]
        chain(m.remove(x), p, s),
{ reveal(chain); }
// the same nodes with other entries
#[verifier::opaque]
pub open spec fn same_links<T, U>(m: M<T, U>, m2: M<T, U>) -> bool {
    forall|p: Ptr| (m.dom().contains(p) <==> #[trigger] m2.dom().contains(p)) && (m.dom().contains(p) ==> m[p].links == m2[p].links)
}
pub proof fn lemma_drop_first(s: Seq<Ptr>)
    requires s.len() > 0, s.no_duplicates(),
    ensures !s.drop_first().contains(s[0]), forall|p: Ptr| s.contains(p) <==> p == s[0] || #[trigger] s.drop_first().contains(p),
{
    assert forall|p: Ptr| s.contains(p) implies p == s[0] || #[trigger] s.drop_first().contains(p) by {
        let i = ix(s, p);
        if i > 0 { assert(s.drop_first()[i - 1] == p); }
    }
    assert forall|p: Ptr| #[trigger] s.drop_first().contains(p) implies s.contains(p) by {
        let i = ix(s.drop_first(), p);
        assert(s[i + 1] == p);
    }
}
pub broadcast proof fn b_repr_chain<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>)
    requires #[trigger] repr(m, head, s),
    ensures
        chain(m, m[head].links[0], s.drop_first()), ents(m, s) == cents(m, s.drop_first()),
        !s.drop_first().contains(head),
        only(m.remove(head), s.drop_first()),
        forall|p: Ptr| m.dom().contains(p) ==> p == head || #[trigger] s.drop_first().contains(p),
{
    reveal(repr); reveal(chain); reveal(only);
    let t = s.drop_first();
    lemma_drop_first(s);
    assert(ents(m, s) =~= cents(m, t));
    assert(lvl(m, s, hts(m, s), 0));
    b_step(m, head, s, 0, 0);
    assert forall|i: int| 0 <= i < t.len() implies live(m, #[trigger] t[i]) && t[i] != null() && 1 <= m[t[i]].links.len() <= 33 && m[t[i]].links[0] == tgt(t, i + 1) by {
        assert(t[i] == s[i + 1]); b_step(m, head, s, i + 1, 0);
    }
}
pub broadcast proof fn b_only_head<T, U>(m: M<T, U>, head: Ptr, n: NodeV<T, U>)
    requires
        head != null(), forall|p: Ptr| m.dom().contains(p) ==> p == head,
        n.links.len() == 33, forall|l: int| 0 <= l < 33 ==> #[trigger] n.links[l] == null(), n.key is None, n.value is None,
    ensures
        #![trigger m.insert(head, n)]
        repr(m.insert(head, n), head, seq![head]), ents(m.insert(head, n), seq![head]) == Seq::<Entry<T, U>>::empty(),
{
    reveal(repr);
    let s = seq![head];
    let m2 = m.insert(head, n);
    assert(s.contains(head)) by { assert(s[0] == head); }
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { b_nxt(hts(m2, s), 0, l); }
    assert(ents(m2, s) =~= Seq::<Entry<T, U>>::empty());
}
pub open spec fn s_ins(s: Seq<Ptr>, q: int, k: int, x: Ptr) -> Seq<Ptr> { rmv(s, k).insert(q + 1, x) }
pub open spec fn h_ins(hs: Seq<int>, q: int, k: int, n: int) -> Seq<int> { rmv(hs, k).insert(q + 1, n) }
pub open spec fn at_c<T, U>(m: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, h: int, slot: Slot) -> bool {
    &&& slot.ok(m) && s.contains(slot.val(m)) && ix(s, slot.val(m)) <= q && hs[ix(s, slot.val(m))] > h
    &&& off(slot, slot.val(m))
    &&& (slot matches Slot::Link(o, _) ==> s.contains(o) && 0 <= ix(s, o) <= q)
}
// the level h was changed last, the levels below are as they were
pub open spec fn levels<T, U>(m: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, s3: Seq<Ptr>, hs3: Seq<int>, h: int) -> bool {
    &&& forall|l: int| h < l < 33 ==> #[trigger] lvl(m, s3, hs3, l)
    &&& forall|l: int| 0 <= l <= h ==> #[trigger] lvl(m, s, hs, l)
}
// insertion after node q in place of node k (if > 0): the levels above h are done
#[verifier::opaque]
pub open spec fn ins_state<T, U>(m0: M<T, U>, m: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>, h: int, slot: Slot) -> bool {
    let hs = hts(m0, s);
    &&& kept(m0, m, s) && !m0.dom().contains(x)
    &&& m.dom().contains(x) && x != null() && m[x].links.len() == n && live(m, x) && ent(m, x) == e
    &&& forall|p: Ptr| #[trigger] m.dom().contains(p) ==> p == x || s.contains(p)
    &&& levels(m, s, hs, s_ins(s, q, k, x), h_ins(hs, q, k, n), h)
    &&& at_c(m, s, hs, q, h, slot)
}
// one level: node k is unlinked, node x of height n linked
pub open spec fn level_step<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, k: int, x: Ptr, n: int, c: int, h: int) -> bool {
    let unl = k > 0 && hs[k] > h;
    let t = if unl { m1[s[k]].links[h] } else { m1[s[c]].links[h] };
    &&& forall|p: Ptr| #[trigger] m2.dom().contains(p) <==> m1.dom().contains(p) && !(unl && h == 0 && p == s[k])
    &&& forall|p: Ptr| #[trigger] m2.dom().contains(p) ==> m2[p].key == m1[p].key && m2[p].value == m1[p].value && m2[p].links.len() == m1[p].links.len()
    &&& forall|p: Ptr, l: int| m2.dom().contains(p) && 0 <= l < m1[p].links.len() && !(l == h && (p == s[c] || p == x)) ==> #[trigger] m2[p].links[l] == m1[p].links[l]
    &&& m2[s[c]].links[h] == (if h < n { x } else { t })
    &&& h < n ==> m2[x].links[h] == t
}
// the step as a sequence of writes
pub open spec fn stepped<T, U>(m1: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, k: int, x: Ptr, n: int, c: int, h: int) -> M<T, U> {
    let unl = k > 0 && hs[k] > h;
    let a = if unl { set_link(m1, s[c], h, m1[s[k]].links[h]) } else { m1 };
    let b = if unl && h == 0 { a.remove(s[k]) } else { a };
    if h < n { set_link(set_link(b, s[c], h, x), x, h, b[s[c]].links[h]) } else { b }
}
pub proof fn lemma_stepped<T, U>(m1: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, k: int, x: Ptr, n: int, c: int, h: int)
    requires
        h >= 0, s[c] != x, m1.dom().contains(s[c]), h < m1[s[c]].links.len(),
        h < n ==> m1.dom().contains(x) && h < m1[x].links.len(),
        k > 0 && hs[k] > h ==> s[k] != x && s[c] != s[k] && m1.dom().contains(s[k]) && h < m1[s[k]].links.len(),
    ensures level_step(m1, stepped(m1, s, hs, k, x, n, c, h), s, hs, k, x, n, c, h),
{}
// what the step does to the links of a level other than h
proof fn lemma_other_level<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, h: int, l: int)
    requires
        hs.len() == s.len(), l >= 0, l != h, lvl(m1, s, hs, l),
        forall|i: int| 0 <= i < s.len() ==> m2.dom().contains(#[trigger] s[i]) && m1[s[i]].links.len() == hs[i],
        forall|p: Ptr, j: int| m2.dom().contains(p) && 0 <= j < m1[p].links.len() && j != h ==> #[trigger] m2[p].links[j] == m1[p].links[j],
    ensures lvl(m2, s, hs, l),
{
    assert forall|i: int| 0 <= i < s.len() && hs[i] > l implies (#[trigger] m2[s[i]]).links[l] == tgt(s, nxt(hs, i, l)) by {
        assert(m1[s[i]].links[l] == tgt(s, nxt(hs, i, l)));
        assert(m2[s[i]].links[l] == m1[s[i]].links[l]);
    }
}
// the nodes of s without node k, with node x after node q
proof fn lemma_edit(s: Seq<Ptr>, hs: Seq<int>, q: int, k: int, x: Ptr, n: int)
    requires s.no_duplicates(), hs.len() == s.len(), 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), !s.contains(x),
    ensures
        rmv(s, k).no_duplicates(), !rmv(s, k).contains(x), s_ins(s, q, k, x).no_duplicates(),
        rmv(s, k).len() == rmv(hs, k).len() == s.len() - (if k > 0 { 1int } else { 0 }),
        s_ins(s, q, k, x).len() == h_ins(hs, q, k, n).len() == rmv(s, k).len() + 1,
        forall|i: int| 0 <= i < rmv(s, k).len() ==> {
            let o = if k > 0 && i >= k { i + 1 } else { i };
            &&& (#[trigger] rmv(s, k)[i]) == s[o] && rmv(hs, k)[i] == hs[o] && s.contains(s[o]) && (k > 0 ==> s[o] != s[k])
        },
        forall|i: int| 0 <= i < s_ins(s, q, k, x).len() && i != q + 1 ==> {
            let i2 = if i > q + 1 { i - 1 } else { i };
            let o = if k > 0 && i2 >= k { i2 + 1 } else { i2 };
            &&& (#[trigger] s_ins(s, q, k, x)[i]) == s[o] && h_ins(hs, q, k, n)[i] == hs[o] && s.contains(s[o]) && (k > 0 ==> s[o] != s[k])
        },
        s_ins(s, q, k, x)[q + 1] == x, h_ins(hs, q, k, n)[q + 1] == n,
        forall|p: Ptr| s.contains(p) && (k > 0 ==> p != s[k]) ==> #[trigger] rmv(s, k).contains(p),
        forall|p: Ptr| p == x || s.contains(p) && (k > 0 ==> p != s[k]) ==> #[trigger] s_ins(s, q, k, x).contains(p),
{
    lemma_edit_nodup(s, q, k, x);
    lemma_edit_mem(s, q, k, x);
}
proof fn lemma_edit_nodup(s: Seq<Ptr>, q: int, k: int, x: Ptr)
    requires s.no_duplicates(), 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), !s.contains(x),
    ensures rmv(s, k).no_duplicates(), !rmv(s, k).contains(x), s_ins(s, q, k, x).no_duplicates(),
{
    let s2 = rmv(s, k);
    if s2.contains(x) { let i = ix(s2, x); assert(s2[i] == s[if k > 0 && i >= k { i + 1 } else { i }]); }
}
proof fn lemma_edit_mem(s: Seq<Ptr>, q: int, k: int, x: Ptr)
    requires s.no_duplicates(), 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(),
    ensures
        forall|p: Ptr| s.contains(p) && (k > 0 ==> p != s[k]) ==> #[trigger] rmv(s, k).contains(p),
        forall|p: Ptr| p == x || s.contains(p) && (k > 0 ==> p != s[k]) ==> #[trigger] s_ins(s, q, k, x).contains(p),
{
    let s2 = rmv(s, k);
    let s3 = s_ins(s, q, k, x);
    assert forall|p: Ptr| s.contains(p) && (k > 0 ==> p != s[k]) implies #[trigger] s2.contains(p) by {
        let o = ix(s, p);
        let i = if k > 0 && o > k { o - 1 } else { o };
        assert(s2[i] == p);
    }
    assert forall|p: Ptr| p == x || s.contains(p) && (k > 0 ==> p != s[k]) implies #[trigger] s3.contains(p) by {
        if p == x { assert(s3[q + 1] == p); } else {
            let i2 = ix(s2, p);
            assert(s2.contains(p));
            assert(s3[if i2 > q { i2 + 1 } else { i2 }] == p);
        }
    }
}
// the links of level h after the step
proof fn lemma_level_h<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, k: int, x: Ptr, n: int, c: int, h: int)
    requires
        s.no_duplicates(), !s.contains(x), hs.len() == s.len(), 0 <= c <= q < s.len(), k == 0 || k == q + 1 < s.len(), h >= 0, n >= 0,
        lvl(m1, s, hs, h), hs[c] > h, nxt(hs, c, h) > q,
        forall|i: int| 0 <= i < s.len() ==> m1.dom().contains(#[trigger] s[i]) && m1[s[i]].links.len() == hs[i],
        level_step(m1, m2, s, hs, k, x, n, c, h),
    ensures
        n > 0 ==> lvl(m2, s_ins(s, q, k, x), h_ins(hs, q, k, n), h),
        n == 0 ==> lvl(m2, rmv(s, k), rmv(hs, k), h),
{
    let s2 = rmv(s, k);
    let hs2 = rmv(hs, k);
    lemma_edit(s, hs, q, k, x, n);
    let unl = k > 0 && hs[k] > h;
    let t = if unl { m1[s[k]].links[h] } else { m1[s[c]].links[h] };
    let mr = if unl { set_link(m1, s[c], h, t) } else { m1 };
    b_nxt(hs, c, h);
    assert(m1[s[c]].links[h] == tgt(s, nxt(hs, c, h)));
    if unl { assert(m1[s[k]].links[h] == tgt(s, nxt(hs, k, h))); }
    assert forall|i: int| 0 <= i < s.len() && i != c && i != k && hs[i] > h implies (#[trigger] mr[s[i]]).links[h] == m1[s[i]].links[h] by {}
    assert(mr[s[c]].links[h] == t);
    if k == 0 && c != 0 { assert(s[0] != s[c]); }
    lemma_rem_level(m1, mr, s, hs, k, c, h);
    b_nxt(hs2, c, h);
    let j2 = nxt(hs2, c, h);
    assert(s2[c] == s[c] && hs2[c] == hs[c]);
    assert(j2 > q) by { if j2 <= q { assert(hs2[j2] == hs[j2]); assert(hs[j2] <= h); } }
    assert forall|i: int| 0 <= i < s2.len() && i != c && hs2[i] > h implies (#[trigger] m2[s2[i]]).links[h] == mr[s2[i]].links[h] by {
        let o = if k > 0 && i >= k { i + 1 } else { i };
        assert(s2[i] == s[o]);
        assert(m1.dom().contains(s[o]));
        assert(m2.dom().contains(s[o]));
        assert(s[o] != s[c]);
        assert(m2[s[o]].links[h] == m1[s[o]].links[h]);
    }
    if n > 0 {
        lemma_add_level(mr, m2, s2, hs2, q, c, x, n, h);
    } else {
        assert forall|i: int| 0 <= i < s2.len() && hs2[i] > h implies (#[trigger] m2[s2[i]]).links[h] == tgt(s2, nxt(hs2, i, h)) by {
            assert(mr[s2[i]].links[h] == tgt(s2, nxt(hs2, i, h)));
        }
    }
}
proof fn lemma_slot<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, k: int, x: Ptr, n: int, h: int, slot: Slot)
    requires
        at_c(m1, s, hs, q, h, slot), h > 0, hs.len() == s.len(),
        level_step(m1, m2, s, hs, k, x, n, ix(s, slot.val(m1)), h),
        !s.contains(x),
    ensures at_c(m2, s, hs, q, h - 1, slot), slot.val(m2) == slot.val(m1),
{
    b_ix2(s, slot.val(m1));
    match slot {
        Slot::Loc(_) => {},
        Slot::Link(o, l) => {
            assert(m1.dom().contains(o)); assert(m2.dom().contains(o));
            assert(m2[o].links[l as int] == m1[o].links[l as int]);
        },
    }
}
pub proof fn lemma_ins_start<T, U>(m0: M<T, U>, hd: Ptr, m1: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>)
    requires
        repr(m0, hd, s), 1 <= n <= 33, 0 <= q < s.len(), !m0.dom().contains(x), x != null(),
        m1 == m0.insert(x, NodeV { key: Some(e.key), value: Some(e.value), links: Seq::new(n as nat, |i: int| null()) }),
    ensures ins_state(m0, m1, s, q, k, x, n, e, 32, Slot::Loc(hd)),
{
    reveal(ins_state);
    reveal(repr);
    b_ix(s, 0);
    let hs = hts(m0, s);
    assert forall|l: int| 0 <= l <= 32 implies #[trigger] lvl(m1, s, hs, l) by {
        assert(lvl(m0, s, hs, l));
        assert forall|i: int| 0 <= i < s.len() && hs[i] > l implies (#[trigger] m1[s[i]]).links[l] == tgt(s, nxt(hs, i, l)) by {
            assert(m0[s[i]].links[l] == tgt(s, nxt(hs, i, l)));
        }
    }
}
// where the walk is: node c, at level h
pub proof fn lemma_ins_at<T, U>(m0: M<T, U>, hd: Ptr, m: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>, h: int, slot: Slot)
    requires repr(m0, hd, s), ins_state(m0, m, s, q, k, x, n, e, h, slot), 0 <= h <= 32,
    ensures
        walk(m0, m, s, q, h, slot),
        m.dom().contains(x), m[x].links.len() == n, live(m, x), ent(m, x) == e, !s.contains(x),
{
    reveal(ins_state);
    b_repr(m0, hd, s);
    lemma_walk(m0, hd, m, s, q, h, slot);
}
pub open spec fn walk<T, U>(m0: M<T, U>, m: M<T, U>, s: Seq<Ptr>, q: int, h: int, slot: Slot) -> bool {
    let hs = hts(m0, s);
    let p = slot.val(m);
    let c = ix(s, p);
    let j = nxt(hs, c, h);
    &&& off(slot, p) && (slot matches Slot::Link(o, _) ==> s.contains(o) && 0 <= ix(s, o) <= q && s[ix(s, o)] == o)
    &&& slot.ok(m) && 0 <= c <= q && c < s.len() && s[c] == p && m.dom().contains(p) && h < m[p].links.len() <= 33
    &&& is_nxt(hs, c, h, j)
    &&& m[p].links[h] == tgt(s, j)
    &&& j < s.len() ==> {
        &&& s[j] != null() && s[j] != p && live(m, s[j]) && ent(m, s[j]) == ent(m0, s[j]) && h < m[s[j]].links.len() <= 33 && hs[j] == m[s[j]].links.len() && ix(s, s[j]) == j
    }
}
proof fn lemma_walk<T, U>(m0: M<T, U>, hd: Ptr, m: M<T, U>, s: Seq<Ptr>, q: int, h: int, slot: Slot)
    requires
        repr(m0, hd, s), kept(m0, m, s), 0 <= h <= 32, lvl(m, s, hts(m0, s), h),
        at_c(m, s, hts(m0, s), q, h, slot),
    ensures walk(m0, m, s, q, h, slot),
{
    b_repr(m0, hd, s);
    let hs = hts(m0, s);
    let c = ix(s, slot.val(m));
    b_ix2(s, slot.val(m));
    b_nxt(hs, c, h);
    let j = nxt(hs, c, h);
    assert(m.dom().contains(s[c]));
    assert(m[s[c]].links[h] == tgt(s, j));
    match slot { Slot::Link(o, _) => { b_ix2(s, o); }, _ => {} }
    if j < s.len() { assert(m.dom().contains(s[j])); b_ix(s, j); assert(live(m0, s[j])); }
}
pub proof fn lemma_ins_move<T, U>(m0: M<T, U>, hd: Ptr, m: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>, h: usize, slot: Slot)
    requires
        repr(m0, hd, s), ins_state(m0, m, s, q, k, x, n, e, h as int, slot), 0 <= h <= 32, q < s.len(),
        nxt(hts(m0, s), ix(s, slot.val(m)), h as int) <= q,
    ensures ins_state(m0, m, s, q, k, x, n, e, h as int, Slot::Link(slot.val(m), h)),
{
    lemma_ins_at(m0, hd, m, s, q, k, x, n, e, h as int, slot);
    reveal(ins_state);
    let j = nxt(hts(m0, s), ix(s, slot.val(m)), h as int);
    assert(s.contains(s[j]));
    b_ix2(s, slot.val(m));
    b_repr(m0, hd, s);
    b_ix(s, j);
    assert(s[j] != slot.val(m));
}
pub proof fn lemma_ins_step<T, U>(m0: M<T, U>, hd: Ptr, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>, h: int, slot: Slot)
    requires
        repr(m0, hd, s), ins_state(m0, m1, s, q, k, x, n, e, h, slot), 0 <= h <= 32, 1 <= n <= 33, 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(),
        nxt(hts(m0, s), ix(s, slot.val(m1)), h) > q,
        level_step(m1, m2, s, hts(m0, s), k, x, n, ix(s, slot.val(m1)), h),
    ensures
        h > 0 ==> ins_state(m0, m2, s, q, k, x, n, e, h - 1, slot),
        h == 0 ==> repr(m2, hd, s_ins(s, q, k, x)) && ents(m2, s_ins(s, q, k, x)) == rmv2(ents(m0, s), k).insert(q, e),
{
    hide(level_step); hide(lvl); hide(s_ins); hide(h_ins); hide(hts); hide(ents);
    reveal(ins_state);
    b_repr(m0, hd, s);
    let hs = hts(m0, s);
    let c = ix(s, slot.val(m1));
    assert(!s.contains(x));
    b_ix2(s, slot.val(m1));
    lemma_kept_len(m0, m1, s);
    assert(lvl(m1, s, hs, h));
    lemma_level_h(m1, m2, s, hs, q, k, x, n, c, h);
    lemma_ins_above(m1, m2, s, hs, q, k, x, n, c, h);
    if h > 0 {
        lemma_keep(m0, m1, m2, s, hs, k, x, n, c, h);
        lemma_slot(m1, m2, s, hs, q, k, x, n, h, slot);
        lemma_dom(m1, m2, s, hs, k, x, n, c, h);
        assert(m2.dom().contains(x));
        assert(live(m2, x) && ent(m2, x) == e);
        assert(kept(m0, m2, s));
    } else {
        lemma_ins_end(m0, hd, m1, m2, s, q, k, x, n, e, c);
    }
}
proof fn lemma_kept_len<T, U>(m0: M<T, U>, m1: M<T, U>, s: Seq<Ptr>)
    requires kept(m0, m1, s),
    ensures hts(m0, s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> m1.dom().contains(#[trigger] s[i]) && m1[s[i]].links.len() == hts(m0, s)[i],
{}
proof fn lemma_dom<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, k: int, x: Ptr, n: int, c: int, h: int)
    requires level_step(m1, m2, s, hs, k, x, n, c, h), h > 0,
    ensures
        forall|p: Ptr| #[trigger] m2.dom().contains(p) <==> m1.dom().contains(p),
        forall|p: Ptr| #[trigger] m2.dom().contains(p) ==> m2[p].key == m1[p].key && m2[p].value == m1[p].value && m2[p].links.len() == m1[p].links.len(),
{}
proof fn lemma_ins_above<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, k: int, x: Ptr, n: int, c: int, h: int)
    requires
        s.no_duplicates(), !s.contains(x), hs.len() == s.len(), 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), 0 <= h <= 32, n >= 1,
        forall|i: int| 0 <= i < s.len() ==> m1.dom().contains(#[trigger] s[i]) && m1[s[i]].links.len() == hs[i],
        m1.dom().contains(x), m1[x].links.len() == n,
        level_step(m1, m2, s, hs, k, x, n, c, h),
        forall|l: int| h < l < 33 ==> #[trigger] lvl(m1, s_ins(s, q, k, x), h_ins(hs, q, k, n), l),
        lvl(m2, s_ins(s, q, k, x), h_ins(hs, q, k, n), h),
    ensures
        forall|l: int| h - 1 < l < 33 ==> #[trigger] lvl(m2, s_ins(s, q, k, x), h_ins(hs, q, k, n), l),
{
    let s3 = s_ins(s, q, k, x);
    let hs3 = h_ins(hs, q, k, n);
    lemma_edit(s, hs, q, k, x, n);
    assert forall|i: int| 0 <= i < s3.len() implies m2.dom().contains(#[trigger] s3[i]) && m1[s3[i]].links.len() == hs3[i] by {
        if i == q + 1 { assert(s3[i] == x); } else {
            let i2 = if i > q + 1 { i - 1 } else { i };
            let o = if k > 0 && i2 >= k { i2 + 1 } else { i2 };
            assert(s3[i] == s[o]);
            assert(m1.dom().contains(s[o]));
        }
    }
    assert forall|l: int| h - 1 < l < 33 implies #[trigger] lvl(m2, s3, hs3, l) by {
        if l > h {
            assert(lvl(m1, s3, hs3, l));
            lemma_other_level(m1, m2, s3, hs3, h, l);
        }
    }
}
// below the level of the step
proof fn lemma_keep<T, U>(m0: M<T, U>, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, k: int, x: Ptr, n: int, c: int, h: int)
    requires
        h > 0, hs == hts(m0, s), kept(m0, m1, s), forall|l: int| 0 <= l <= h ==> #[trigger] lvl(m1, s, hs, l),
        level_step(m1, m2, s, hs, k, x, n, c, h),
    ensures kept(m0, m2, s), forall|l: int| 0 <= l <= h - 1 ==> #[trigger] lvl(m2, s, hs, l),
{
    assert forall|i: int| 0 <= i < s.len() implies m2.dom().contains(#[trigger] s[i]) && m1[s[i]].links.len() == hs[i] by { assert(m1.dom().contains(s[i])); }
    assert forall|l: int| 0 <= l <= h - 1 implies #[trigger] lvl(m2, s, hs, l) by {
        assert(lvl(m1, s, hs, l));
        lemma_other_level(m1, m2, s, hs, h, l);
    }
    assert forall|i: int| 0 <= i < s.len() implies m2.dom().contains(#[trigger] s[i]) && m2[s[i]].key == m0[s[i]].key && m2[s[i]].value == m0[s[i]].value && m2[s[i]].links.len() == m0[s[i]].links.len() by {
        assert(m1.dom().contains(s[i]));
        assert(m2.dom().contains(s[i]));
    }
}
proof fn lemma_ins_end<T, U>(m0: M<T, U>, hd: Ptr, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>, c: int)
    requires
        repr(m0, hd, s), 1 <= n <= 33, 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), !s.contains(x),
        kept(m0, m1, s), m1.dom().contains(x), x != null(), m1[x].links.len() == n, live(m1, x), ent(m1, x) == e,
        forall|p: Ptr| #[trigger] m1.dom().contains(p) ==> p == x || s.contains(p),
        level_step(m1, m2, s, hts(m0, s), k, x, n, c, 0),
        forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m2, s_ins(s, q, k, x), h_ins(hts(m0, s), q, k, n), l),
    ensures
        repr(m2, hd, s_ins(s, q, k, x)), ents(m2, s_ins(s, q, k, x)) == rmv2(ents(m0, s), k).insert(q, e),
{
    let hs = hts(m0, s);
    let s3 = s_ins(s, q, k, x);
    let hs3 = h_ins(hs, q, k, n);
    b_repr(m0, hd, s);
    lemma_edit(s, hs, q, k, x, n);
    assert(s3[0] == s[0]);
    assert forall|i: int| 0 <= i < s3.len() implies m1.dom().contains(#[trigger] s3[i]) && m2.dom().contains(s3[i])
        && m2[s3[i]].links.len() == hs3[i] && m2[s3[i]].key == m1[s3[i]].key && m2[s3[i]].value == m1[s3[i]].value && s3[i] != null()
        && 1 <= hs3[i] <= 33 && (i > 0 ==> live(m2, s3[i])) by {
        lemma_end_node(m0, hd, m1, m2, s, q, k, x, n, c, i);
    }
    assert forall|p: Ptr| m2.dom().contains(p) implies #[trigger] s3.contains(p) by {
        assert(m1.dom().contains(p));
    }
    lemma_end_ents(m0, m1, m2, s, hs, q, k, x, n, e);
    lemma_end_repr(m0, hd, m2, s, s3, hs3);
}
proof fn lemma_end_repr<T, U>(m0: M<T, U>, hd: Ptr, m2: M<T, U>, s: Seq<Ptr>, s3: Seq<Ptr>, hs3: Seq<int>)
    requires
        s3.len() >= 1, s3[0] == hd, s3.no_duplicates(), hs3.len() == s3.len(),
        forall|i: int| 0 <= i < s3.len() ==> m2.dom().contains(#[trigger] s3[i]) && m2[s3[i]].links.len() == hs3[i] && s3[i] != null() && 1 <= hs3[i] <= 33 && (i > 0 ==> live(m2, s3[i])),
        m2[hd].links.len() == 33, m2[hd].key is None, m2[hd].value is None,
        forall|p: Ptr| m2.dom().contains(p) ==> #[trigger] s3.contains(p),
        forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m2, s3, hs3, l),
    ensures repr(m2, hd, s3),
{
    reveal(repr);
    assert(hts(m2, s3) =~= hs3);
}
proof fn lemma_end_node<T, U>(m0: M<T, U>, hd: Ptr, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, q: int, k: int, x: Ptr, n: int, c: int, i: int)
    requires
        repr(m0, hd, s), 1 <= n <= 33, 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), !s.contains(x),
        kept(m0, m1, s), m1.dom().contains(x), x != null(), m1[x].links.len() == n, live(m1, x),
        level_step(m1, m2, s, hts(m0, s), k, x, n, c, 0),
        0 <= i < s_ins(s, q, k, x).len(),
    ensures ({
        let s3 = s_ins(s, q, k, x);
        let hs3 = h_ins(hts(m0, s), q, k, n);
        &&& m1.dom().contains(s3[i]) && m2.dom().contains(s3[i])
        &&& m2[s3[i]].links.len() == hs3[i] && m2[s3[i]].key == m1[s3[i]].key && m2[s3[i]].value == m1[s3[i]].value && s3[i] != null()
        &&& 1 <= hs3[i] <= 33 && (i > 0 ==> live(m2, s3[i])) && (i == 0 ==> m2[s3[i]].key is None && m2[s3[i]].value is None && hs3[i] == 33)
    }),
{
    let s3 = s_ins(s, q, k, x);
    let hs3 = h_ins(hts(m0, s), q, k, n);
    b_repr(m0, hd, s);
    if i == q + 1 { assert(s3[i] == x); assert(hs3[i] == n); } else {
        let i2 = if i > q + 1 { i - 1 } else { i };
        let o = if k > 0 && i2 >= k { i2 + 1 } else { i2 };
        assert(s3[i] == s[o] && hs3[i] == hts(m0, s)[o]);
        assert(m1.dom().contains(s[o]));
        if k > 0 { assert(s[o] != s[k]); }
        if i > 0 { assert(live(m0, s[o])); }
    }
    assert(m2.dom().contains(s3[i]));
}
proof fn lemma_end_ents<T, U>(m0: M<T, U>, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, k: int, x: Ptr, n: int, e: Entry<T, U>)
    requires
        0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), kept(m0, m1, s), ent(m1, x) == e,
        forall|i: int| 0 <= i < s_ins(s, q, k, x).len() ==> m2.dom().contains(#[trigger] s_ins(s, q, k, x)[i]) && m2[s_ins(s, q, k, x)[i]].key == m1[s_ins(s, q, k, x)[i]].key && m2[s_ins(s, q, k, x)[i]].value == m1[s_ins(s, q, k, x)[i]].value,
    ensures ents(m2, s_ins(s, q, k, x)) == rmv2(ents(m0, s), k).insert(q, e),
{
    let s3 = s_ins(s, q, k, x);
    let a = ents(m2, s3);
    let b = rmv2(ents(m0, s), k).insert(q, e);
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(m2.dom().contains(s3[i + 1]));
        if i != q {
            let i2 = if i > q { i - 1 } else { i };
            let o = if k > 0 && i2 >= k - 1 { i2 + 1 } else { i2 };
            assert(s3[i + 1] == s[o + 1]);
            assert(b[i] == ents(m0, s)[o]);
        } else { assert(s3[i + 1] == x); }
    }
    assert(a =~= b);
}
// the same removal on the entries, which do not count the head
pub open spec fn rmv2<A>(s: Seq<A>, k: int) -> Seq<A> { if k > 0 { s.remove(k - 1) } else { s } }
#[verifier::opaque]
pub open spec fn rem_state<T, U>(m0: M<T, U>, m: M<T, U>, s: Seq<Ptr>, q: int, k: int, h: int, slot: Slot) -> bool {
    let hs = hts(m0, s);
    &&& kept(m0, m, s)
    &&& forall|p: Ptr| #[trigger] m.dom().contains(p) ==> s.contains(p)
    &&& levels(m, s, hs, rmv(s, k), rmv(hs, k), h)
    &&& at_c(m, s, hs, q, h, slot)
}
pub proof fn lemma_rem_start<T, U>(m0: M<T, U>, hd: Ptr, s: Seq<Ptr>, q: int, k: int)
    requires repr(m0, hd, s), 0 <= q < s.len(),
    ensures rem_state(m0, m0, s, q, k, 32, Slot::Loc(hd)),
{
    reveal(rem_state);
    reveal(repr);
    b_ix(s, 0);
}
pub proof fn lemma_rem_at<T, U>(m0: M<T, U>, hd: Ptr, m: M<T, U>, s: Seq<Ptr>, q: int, k: int, h: int, slot: Slot)
    requires repr(m0, hd, s), rem_state(m0, m, s, q, k, h, slot), 0 <= h <= 32,
    ensures walk(m0, m, s, q, h, slot), !m.dom().contains(null()),
{
    reveal(rem_state);
    b_repr(m0, hd, s);
    lemma_walk(m0, hd, m, s, q, h, slot);
    if m.dom().contains(null()) { let i = ix(s, null()); assert(s[i] == null()); }
}
pub proof fn lemma_rem_move<T, U>(m0: M<T, U>, hd: Ptr, m: M<T, U>, s: Seq<Ptr>, q: int, k: int, h: usize, slot: Slot)
    requires
        repr(m0, hd, s), rem_state(m0, m, s, q, k, h as int, slot), 0 <= h <= 32, q < s.len(),
        nxt(hts(m0, s), ix(s, slot.val(m)), h as int) <= q,
    ensures rem_state(m0, m, s, q, k, h as int, Slot::Link(slot.val(m), h)),
{
    lemma_rem_at(m0, hd, m, s, q, k, h as int, slot);
    reveal(rem_state);
    let j = nxt(hts(m0, s), ix(s, slot.val(m)), h as int);
    assert(s.contains(s[j]));
    b_ix2(s, slot.val(m));
    b_repr(m0, hd, s);
    b_ix(s, j);
    assert(s[j] != slot.val(m));
}
pub proof fn lemma_rem_step<T, U>(m0: M<T, U>, hd: Ptr, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, q: int, k: int, h: int, slot: Slot)
    requires
        repr(m0, hd, s), rem_state(m0, m1, s, q, k, h, slot), 0 <= h <= 32, 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(),
        nxt(hts(m0, s), ix(s, slot.val(m1)), h) > q,
        level_step(m1, m2, s, hts(m0, s), k, null(), 0, ix(s, slot.val(m1)), h),
    ensures
        h > 0 ==> rem_state(m0, m2, s, q, k, h - 1, slot),
        h == 0 ==> repr(m2, hd, rmv(s, k)) && ents(m2, rmv(s, k)) == rmv2(ents(m0, s), k),
{
    hide(level_step); hide(lvl); hide(rmv); hide(hts); hide(ents);
    reveal(rem_state);
    b_repr(m0, hd, s);
    let hs = hts(m0, s);
    let c = ix(s, slot.val(m1));
    if s.contains(null()) { let i = ix(s, null()); assert(s[i] == null()); }
    b_ix2(s, slot.val(m1));
    lemma_kept_len(m0, m1, s);
    assert(lvl(m1, s, hs, h));
    lemma_level_h(m1, m2, s, hs, q, k, null(), 0, c, h);
    lemma_rem_above(m1, m2, s, hs, q, k, c, h);
    if h > 0 {
        lemma_keep(m0, m1, m2, s, hs, k, null(), 0, c, h);
        lemma_slot(m1, m2, s, hs, q, k, null(), 0, h, slot);
        lemma_dom(m1, m2, s, hs, k, null(), 0, c, h);
    } else {
        lemma_rem_end(m0, hd, m1, m2, s, q, k, c);
    }
}
proof fn lemma_rem_above<T, U>(m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, hs: Seq<int>, q: int, k: int, c: int, h: int)
    requires
        s.no_duplicates(), !s.contains(null()), hs.len() == s.len(), 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(), 0 <= h <= 32,
        forall|i: int| 0 <= i < s.len() ==> m1.dom().contains(#[trigger] s[i]) && m1[s[i]].links.len() == hs[i],
        level_step(m1, m2, s, hs, k, null(), 0, c, h),
        forall|l: int| h < l < 33 ==> #[trigger] lvl(m1, rmv(s, k), rmv(hs, k), l),
        lvl(m2, rmv(s, k), rmv(hs, k), h),
    ensures
        forall|l: int| h - 1 < l < 33 ==> #[trigger] lvl(m2, rmv(s, k), rmv(hs, k), l),
{
    let s3 = rmv(s, k);
    let hs3 = rmv(hs, k);
    lemma_edit(s, hs, q, k, null(), 0);
    assert forall|i: int| 0 <= i < s3.len() implies m2.dom().contains(#[trigger] s3[i]) && m1[s3[i]].links.len() == hs3[i] by {
        let o = if k > 0 && i >= k { i + 1 } else { i };
        assert(s3[i] == s[o]);
        assert(m1.dom().contains(s[o]));
    }
    assert forall|l: int| h - 1 < l < 33 implies #[trigger] lvl(m2, s3, hs3, l) by {
        if l > h {
            assert(lvl(m1, s3, hs3, l));
            lemma_other_level(m1, m2, s3, hs3, h, l);
        }
    }
}
proof fn lemma_rem_end<T, U>(m0: M<T, U>, hd: Ptr, m1: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, q: int, k: int, c: int)
    requires
        repr(m0, hd, s), 0 <= q < s.len(), k == 0 || k == q + 1 < s.len(),
        kept(m0, m1, s),
        forall|p: Ptr| #[trigger] m1.dom().contains(p) ==> s.contains(p),
        level_step(m1, m2, s, hts(m0, s), k, null(), 0, c, 0),
        forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m2, rmv(s, k), rmv(hts(m0, s), k), l),
    ensures repr(m2, hd, rmv(s, k)), ents(m2, rmv(s, k)) == rmv2(ents(m0, s), k),
{
    reveal(repr);
    let hs = hts(m0, s);
    let s2 = rmv(s, k);
    let hs2 = rmv(hs, k);
    if s.contains(null()) { let i = ix(s, null()); assert(s[i] == null()); }
    lemma_edit(s, hs, q, k, null(), 0);
    assert(s2[0] == s[0]);
    assert forall|i: int| 0 <= i < s2.len() implies m1.dom().contains(#[trigger] s2[i]) && m2.dom().contains(s2[i])
        && m2[s2[i]].links.len() == hs2[i] && m2[s2[i]].key == m1[s2[i]].key && m2[s2[i]].value == m1[s2[i]].value && s2[i] != null()
        && 1 <= hs2[i] <= 33 && (i > 0 ==> live(m2, s2[i])) by {
        let o = ix(s, s2[i]); b_ix2(s, s2[i]); assert(s[o] == s2[i]); if i > 0 && o == 0 { assert(s2[0] == s2[i]); }
        assert(m1.dom().contains(s2[i]));
        assert(m2.dom().contains(s2[i]));
    }
    assert(hts(m2, s2) =~= hs2);
    assert(m2.dom().contains(hd)) by { assert(m2.dom().contains(s2[0])); }
    assert(base(m2, hd, s2));
    assert forall|p: Ptr| m2.dom().contains(p) implies #[trigger] s2.contains(p) by {
        assert(m1.dom().contains(p));
        if k > 0 { assert(hs[k] > 0) by { assert(m0.dom().contains(s[k])); } }
    }
    let a = ents(m2, s2);
    let b = rmv2(ents(m0, s), k);
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(m2.dom().contains(s2[i + 1]));
        let o = if k > 0 && i >= k - 1 { i + 1 } else { i };
        assert(s2[i + 1] == s[o + 1]);
        assert(b[i] == ents(m0, s)[o]);
    }
    assert(a =~= b);
}
pub broadcast group group_sk { b_ix, b_ix2, b_repr, b_step, b_ss, b_set_ent, b_cs, b_chain, b_nxt }
// nothing else is in the heap
#[verifier::opaque]
pub open spec fn only<T, U>(m: M<T, U>, s: Seq<Ptr>) -> bool { forall|p: Ptr| m.dom().contains(p) ==> #[trigger] s.contains(p) }
pub broadcast proof fn b_only_rm<T, U>(m: M<T, U>, p: Ptr, s: Seq<Ptr>, n: NodeV<T, U>)
    requires chain(m, p, s), p != null(), only(m, s),
    ensures
        #![trigger chain(m, p, s), m.insert(p, n).remove(p)]
        only(m.insert(p, n).remove(p), s.drop_first()),
{ reveal(only); b_chain_step(m, p, s);
    assert forall|q: Ptr| m.insert(p, n).remove(p).dom().contains(q) implies #[trigger] s.drop_first().contains(q) by { assert(m.dom().contains(q)); assert(s.contains(q)); }
}
// from m to m2 only the entries of s change, and they stay in place
#[verifier::opaque]
pub open spec fn keeps0<T, U>(m: M<T, U>, m2: M<T, U>, s: Seq<Ptr>) -> bool {
    &&& same_links(m, m2)
    &&& forall|p: Ptr| #[trigger] s.contains(p) ==> live(m2, p)
    &&& forall|p: Ptr| m.dom().contains(p) && !(#[trigger] s.contains(p)) ==> m2[p] == m[p]
}
pub broadcast proof fn b_keeps_step<T, U>(m: M<T, U>, m2: M<T, U>, p: Ptr, s: Seq<Ptr>, e: Entry<T, U>)
    requires chain(m, p, s), p != null(), keeps0(clr_ent(m, p), m2, s.drop_first()),
    ensures
        #![trigger chain(m, p, s), set_ent(m2, p, e)]
        keeps0(m, set_ent(m2, p, e), s),
{
    reveal(keeps0);
    b_chain_step(m, p, s);
    b_chain(m, p, s);
    b_same_set(m, m2, p, e);
    let b = set_ent(m2, p, e);
    assert forall|q: Ptr| #[trigger] s.contains(q) implies live(b, q) by { if q != p { assert(s.drop_first().contains(q)); } }
    assert forall|q: Ptr| m.dom().contains(q) && !(#[trigger] s.contains(q)) implies b[q] == m[q] by { assert(!s.drop_first().contains(q)); assert(clr_ent(m, p).dom().contains(q)); assert(q != p); }
}
pub broadcast proof fn b_keeps_repr<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>, m2: M<T, U>)
    requires #[trigger] repr(m, head, s), #[trigger] keeps0(m, m2, s.drop_first()),
    ensures repr(m2, head, s), ents(m2, s) == cents(m2, s.drop_first()), cents(m2, s.drop_first()).len() == ents(m, s).len(),
{
    reveal(keeps0);
    b_repr_chain(m, head, s);
    b_repr(m, head, s);
    assert(m.dom().contains(head)) by { assert(s[0] == head); }
    assert(!s.drop_first().contains(head));
    b_same_repr(m, head, s, m2);
}
pub broadcast proof fn b_same_set<T, U>(m: M<T, U>, m2: M<T, U>, p: Ptr, e: Entry<T, U>)
    requires same_links(clr_ent(m, p), m2), m.dom().contains(p),
    ensures
        #![trigger same_links(clr_ent(m, p), m2), set_ent(m2, p, e)]
        same_links(m, set_ent(m2, p, e)),
{
    reveal(same_links);
    let a = clr_ent(m, p);
    let b = set_ent(m2, p, e);
    assert(a.dom().contains(p));
    assert forall|q: Ptr| (m.dom().contains(q) <==> #[trigger] b.dom().contains(q)) && (m.dom().contains(q) ==> m[q].links == b[q].links) by {
        assert(a.dom().contains(q) <==> m2.dom().contains(q));
        if a.dom().contains(q) { assert(a[q].links == m2[q].links); }
    }
}
pub broadcast proof fn b_same_repr<T, U>(m: M<T, U>, head: Ptr, s: Seq<Ptr>, m2: M<T, U>)
    requires
        #[trigger] repr(m, head, s), #[trigger] same_links(m, m2), m2[head] == m[head],
        forall|p: Ptr| s.drop_first().contains(p) ==> live(m2, p),
    ensures repr(m2, head, s), ents(m2, s) == cents(m2, s.drop_first()),
{
    reveal(same_links); reveal(repr);
    let t = s.drop_first();
    assert forall|i: int| 0 <= i < s.len() implies m2.dom().contains(#[trigger] s[i]) && m2[s[i]].links == m[s[i]].links by {
        assert(m.dom().contains(s[i]));
        if i > 0 { assert(t[i - 1] == s[i]); assert(t.contains(s[i])); }
    }
    assert forall|i: int| 1 <= i < s.len() implies live(m2, #[trigger] s[i]) by { assert(t[i - 1] == s[i]); assert(t.contains(s[i])); }
    assert(hts(m2, s) =~= hts(m, s));
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { assert(lvl(m, s, hts(m, s), l)); }
    assert forall|p: Ptr| m2.dom().contains(p) implies #[trigger] s.contains(p) by { assert(m.dom().contains(p)); }
    assert(ents(m2, s) =~= cents(m2, t));
}
pub broadcast group group_chain { b_chain_step, b_chain_frame, b_chain_rm, b_repr_chain, b_only_head }
}
pub mod sko {
use vstd::prelude::*;
use crate::vp::*;
use crate::omap::*;
use crate::entry::Entry;
use crate::rp::*;
use crate::sk::*;
// all keys up to node c are below r; are at most r
pub open spec fn lt_r<T: Ord, U>(m: M<T, U>, s: Seq<Ptr>, c: int, r: real) -> bool {
    forall|i: int| 1 <= i <= c ==> rk(ent(m, #[trigger] s[i])) < r
}
pub open spec fn le_r<T: Ord, U>(m: M<T, U>, s: Seq<Ptr>, c: int, r: real) -> bool {
    forall|i: int| 1 <= i <= c ==> rk(ent(m, #[trigger] s[i])) <= r
}
pub broadcast proof fn b_lt_r<T: Ord, U>(m: M<T, U>, s: Seq<Ptr>, c: int, r: real)
    requires s.len() >= 1, sorted(ents(m, s)), 0 <= c < s.len(), #[trigger] lt_r(m, s, c, r),
    ensures
        c + 1 < s.len() && rk(ent(m, s[c + 1])) >= r ==> pos(ents(m, s), r) == c,
        c + 1 == s.len() ==> pos(ents(m, s), r) == c,
{
    let e = ents(m, s);
    if c + 1 == s.len() || rk(ent(m, s[c + 1])) >= r {
        assert forall|i: int| 0 <= i < c implies rk(#[trigger] e[i]) < r by { assert(rk(ent(m, s[i + 1])) < r); }
        assert forall|i: int| c <= i < e.len() implies rk(#[trigger] e[i]) >= r by { if i > c { assert(rk(e[c]) < rk(e[i])); } }
        lemma_pos_unique(e, r, c);
    }
}
pub broadcast proof fn b_le_r<T: Ord, U>(m: M<T, U>, s: Seq<Ptr>, c: int, r: real)
    requires s.len() >= 1, sorted(ents(m, s)), 0 <= c < s.len(), #[trigger] le_r(m, s, c, r),
    ensures
        c + 1 < s.len() && rk(ent(m, s[c + 1])) > r || c + 1 == s.len() ==>
            flr(ents(m, s), r) == (if c == 0 { None } else { Some(ent(m, s[c])) }),
{
    let e = ents(m, s);
    if c + 1 == s.len() || rk(ent(m, s[c + 1])) > r {
        let p = if c > 0 && rk(ent(m, s[c])) == r { c - 1 } else { c };
        assert forall|i: int| 0 <= i < p implies rk(#[trigger] e[i]) < r by { assert(rk(ent(m, s[i + 1])) <= r); if i < c - 1 { assert(rk(e[i]) < rk(e[c - 1])); assert(rk(ent(m, s[c])) <= r); } }
        assert forall|i: int| p <= i < e.len() implies rk(#[trigger] e[i]) >= r by { if i > c { assert(rk(e[c]) < rk(e[i])); } }
        lemma_pos_unique(e, r, p);
        if c > 0 { assert(e[c - 1] == ent(m, s[c])); assert(rk(ent(m, s[c])) <= r); }
        if c < e.len() { assert(e[c] == ent(m, s[c + 1])); }
    }
}
pub broadcast proof fn b_hit<T: Ord, U>(m: M<T, U>, s: Seq<Ptr>, j: int)
    requires s.len() >= 1, sorted(ents(m, s)), 0 < j < s.len(),
    ensures
        #![trigger ents(m, s), s[j]]
        pos(ents(m, s), rk(ent(m, s[j]))) == j - 1, hask(ents(m, s), rk(ent(m, s[j]))),
{
    assert(ents(m, s)[j - 1] == ent(m, s[j]));
    lemma_at_mem(ents(m, s), j - 1);
}
// where key rank r goes: after node q, in place of node k if it is there
pub open spec fn ins_ctx<T: Ord, U>(m0: M<T, U>, hd: Ptr, s: Seq<Ptr>, q: int, k: int, r: real) -> bool {
    &&& repr(m0, hd, s) && sorted(ents(m0, s)) && q == pos(ents(m0, s), r) && 0 <= q < s.len()
    &&& k == (if hask(ents(m0, s), r) { q + 1 } else { 0 }) && k < s.len()
}
pub proof fn lemma_ctx<T: Ord, U>(m0: M<T, U>, hd: Ptr, s: Seq<Ptr>, r: real)
    requires repr(m0, hd, s), sorted(ents(m0, s)),
    ensures ({
        let q = pos(ents(m0, s), r);
        ins_ctx(m0, hd, s, q, if hask(ents(m0, s), r) { q + 1 } else { 0 }, r)
    }),
{ lemma_pos(ents(m0, s), r); b_repr(m0, hd, s); }
pub open spec fn ctx_at<T: Ord, U>(m0: M<T, U>, s: Seq<Ptr>, q: int, k: int, r: real, c: int, h: int) -> bool {
        let hs = hts(m0, s);
        let j = nxt(hs, c, h);
        let unl = k > 0 && hs[k] > h;
        &&& j == s.len() ==> j > q && !unl
        &&& j < s.len() ==> (rk(ent(m0, s[j])) < r <==> j <= q)
        &&& j < s.len() && j > q ==> (rk(ent(m0, s[j])) == r <==> unl)
        &&& unl && j > q ==> j == k
        &&& k > 0 ==> at(ents(m0, s), r) == Some(ent(m0, s[k]))
        &&& k == 0 ==> at(ents(m0, s), r) is None
        &&& k > 0 ==> hs[k] >= 1
}
pub proof fn lemma_ctx_cmp<T: Ord, U>(m0: M<T, U>, hd: Ptr, s: Seq<Ptr>, q: int, k: int, r: real, c: int, h: int)
    requires ins_ctx(m0, hd, s, q, k, r), 0 <= c <= q, h >= 0,
    ensures ctx_at(m0, s, q, k, r, c, h),
{
    let hs = hts(m0, s);
    let j = nxt(hs, c, h);
    let e = ents(m0, s);
    b_repr(m0, hd, s);
    b_nxt(hs, c, h);
    lemma_pos(e, r);
    if j < s.len() {
        assert(e[j - 1] == ent(m0, s[j]));
        if j - 1 >= q { assert(rk(e[j - 1]) >= r); } else { assert(rk(e[j - 1]) < r); }
        if rk(e[j - 1]) == r { lemma_at_mem(e, j - 1); }
    }
    if k > 0 {
        assert(e[q] == ent(m0, s[k]));
        assert(m0.dom().contains(s[k]));
        if hs[k] > h && j > k { assert(hs[k] <= h); }
    }
}
pub broadcast group group_sko { b_lt_r, b_le_r, b_hit }
}
// ---- merging two sorted sequences: ka, kb, kc say whether a key is kept that is only on the
// left, only on the right, on both sides (then the left entry)
pub mod skm {
use vstd::prelude::*;
use crate::vp::*;
use crate::omap::*;
use crate::entry::Entry;
pub open spec fn keep<A>(k: bool, x: A, s: Seq<A>) -> Seq<A> { if k { seq![x] + s } else { s } }
pub open spec fn mg<T: Ord, U>(a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>, ka: bool, kb: bool, kc: bool) -> Seq<Entry<T, U>>
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { Seq::empty() }
    else if b.len() == 0 || a.len() > 0 && rk(a[0]) < rk(b[0]) { keep(ka, a[0], mg(a.drop_first(), b, ka, kb, kc)) }
    else if a.len() == 0 || rk(a[0]) > rk(b[0]) { keep(kb, b[0], mg(a, b.drop_first(), ka, kb, kc)) }
    else { keep(kc, a[0], mg(a.drop_first(), b.drop_first(), ka, kb, kc)) }
}
pub open spec fn pick<A>(a: Option<A>, b: Option<A>, ka: bool, kb: bool, kc: bool) -> Option<A> {
    if a is Some { if b is Some { if kc { a } else { None } } else if ka { a } else { None } } else if kb { b } else { None }
}
proof fn lemma_cons<T: Ord, U>(x: Entry<T, U>, s: Seq<Entry<T, U>>)
    requires sorted(s), forall|i: int| 0 <= i < s.len() ==> rk(x) < rk(#[trigger] s[i]),
    ensures sorted(seq![x] + s), forall|k: real| #[trigger] at(seq![x] + s, k) == (if k == rk(x) { Some(x) } else { at(s, k) }),
{
    let e = Seq::<Entry<T, U>>::empty();
    assert(seq![x] + s =~= cat(e, x, s));
    lemma_glue(e, x, s);
    assert forall|k: real| #[trigger] at(seq![x] + s, k) == (if k == rk(x) { Some(x) } else { at(s, k) }) by {
        lemma_cat(e, x, s, k);
        lemma_empty::<T, U>(k);
        lemma_pos(s, k);
    }
}
pub proof fn lemma_uncons<T: Ord, U>(s: Seq<Entry<T, U>>)
    requires sorted(s), s.len() > 0,
    ensures
        sorted(s.drop_first()),
        forall|i: int| 0 <= i < s.drop_first().len() ==> rk(s[0]) < rk(#[trigger] s.drop_first()[i]),
        forall|k: real| #[trigger] at(s, k) == (if k == rk(s[0]) { Some(s[0]) } else { at(s.drop_first(), k) }),
        forall|k: real| #[trigger] at(s.drop_first(), k) is Some ==> k > rk(s[0]),
{
    let t = s.drop_first();
    assert forall|i: int| 0 <= i < t.len() implies rk(s[0]) < rk(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
    assert(sorted(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies rk(#[trigger] t[i]) < rk(#[trigger] t[j]) by { assert(t[i] == s[i + 1] && t[j] == s[j + 1]); }
    }
    assert(s =~= seq![s[0]] + t);
    lemma_cons(s[0], t);
    assert forall|k: real| #[trigger] at(t, k) is Some implies k > rk(s[0]) by { lemma_pos(t, k); }
}
proof fn lemma_keep<T: Ord, U>(k0: bool, x: Entry<T, U>, s: Seq<Entry<T, U>>)
    requires sorted(s), forall|k: real| (#[trigger] at(s, k)) is Some ==> k > rk(x),
    ensures
        sorted(keep(k0, x, s)),
        forall|k: real| #[trigger] at(keep(k0, x, s), k) == (if k == rk(x) { if k0 { Some(x) } else { None } } else { at(s, k) }),
{
    assert forall|i: int| 0 <= i < s.len() implies rk(x) < rk(#[trigger] s[i]) by { lemma_at_mem(s, i); assert(at(s, rk(s[i])) is Some); }
    if k0 { lemma_cons(x, s); } else { assert(at(s, rk(x)) is None); }
}
pub proof fn lemma_mg<T: Ord, U>(a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>, ka: bool, kb: bool, kc: bool)
    requires sorted(a), sorted(b),
    ensures
        sorted(mg(a, b, ka, kb, kc)),
        forall|k: real| #[trigger] at(mg(a, b, ka, kb, kc), k) == pick(at(a, k), at(b, k), ka, kb, kc),
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 {
        assert forall|k: real| #[trigger] at(mg(a, b, ka, kb, kc), k) == pick(at(a, k), at(b, k), ka, kb, kc) by {
            lemma_empty::<T, U>(k);
            assert(a =~= Seq::<Entry<T, U>>::empty() && b =~= Seq::<Entry<T, U>>::empty());
        }
    } else {
        let e = Seq::<Entry<T, U>>::empty();
        assert forall|k: real| #[trigger] at(e, k) is None by { lemma_empty::<T, U>(k); }
        if a.len() > 0 { lemma_uncons(a); } else { assert(a =~= e); }
        if b.len() > 0 { lemma_uncons(b); } else { assert(b =~= e); }
        if b.len() == 0 || a.len() > 0 && rk(a[0]) < rk(b[0]) {
            lemma_mg(a.drop_first(), b, ka, kb, kc);
            let s = mg(a.drop_first(), b, ka, kb, kc);
            assert forall|k: real| (#[trigger] at(s, k)) is Some implies k > rk(a[0]) by { assert(at(a.drop_first(), k) is Some || at(b, k) is Some); }
            lemma_keep(ka, a[0], s);
            assert(at(b, rk(a[0])) is None);
        } else if a.len() == 0 || rk(a[0]) > rk(b[0]) {
            lemma_mg(a, b.drop_first(), ka, kb, kc);
            let s = mg(a, b.drop_first(), ka, kb, kc);
            assert forall|k: real| (#[trigger] at(s, k)) is Some implies k > rk(b[0]) by { assert(at(a, k) is Some || at(b.drop_first(), k) is Some); }
            lemma_keep(kb, b[0], s);
            assert(at(a, rk(b[0])) is None);
        } else {
            lemma_mg(a.drop_first(), b.drop_first(), ka, kb, kc);
            let s = mg(a.drop_first(), b.drop_first(), ka, kb, kc);
            assert forall|k: real| (#[trigger] at(s, k)) is Some implies k > rk(a[0]) by { assert(at(a.drop_first(), k) is Some || at(b.drop_first(), k) is Some); }
            lemma_keep(kc, a[0], s);
        }
    }
}
// with everything kept, the right one of two equal entries may go first
pub proof fn lemma_mg_right<T: Ord, U>(a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>)
    requires sorted(a), sorted(b), a.len() > 0, b.len() > 0, rk(a[0]) == rk(b[0]),
    ensures mg(a, b, true, true, true) == mg(a, b.drop_first(), true, true, true),
{
    lemma_uncons(b);
    if b.len() > 1 { assert(rk(b[0]) < rk(b.drop_first()[0])); }
}
pub proof fn lemma_mg_sets<T: Ord, U>(a: Seq<Entry<T, U>>, b: Seq<Entry<T, U>>)
    requires sorted(a), sorted(b),
    ensures
        is_union(mg(a, b, true, true, true), a, b),
        is_inter(mg(a, b, false, false, true), a, b),
        is_diff(mg(a, b, true, false, false), a, b),
        is_sym(mg(a, b, true, true, false), a, b),
{
    lemma_mg(a, b, true, true, true);
    lemma_mg(a, b, false, false, true);
    lemma_mg(a, b, true, false, false);
    lemma_mg(a, b, true, true, false);
}
}
pub mod skh {
use vstd::prelude::*;
use crate::rp::*;
use crate::sk::*;
use crate::entry::Entry;
pub open spec fn hdr<T, U>(m: M<T, U>, p: Ptr) -> bool {
    m.dom().contains(p) && p != null() && m[p].key is None && m[p].value is None && m[p].links.len() == 33
        && forall|l: int| 0 <= l < 33 ==> #[trigger] m[p].links[l] == null()
}
pub open spec fn disj(a: Seq<Ptr>, b: Seq<Ptr>) -> bool { forall|p: Ptr| #[trigger] a.contains(p) ==> !b.contains(p) }
pub open spec fn cl<T, U>(m: M<T, U>, p: Ptr) -> Seq<Entry<T, U>> { cents(m, cs(m, p)) }
// dom: s, the chains from p and q, the two old heads, and x unless that is null
#[verifier::opaque]
pub open spec fn mst<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr) -> bool {
    let a = cs(m, p);
    let b = cs(m, q);
    &&& base(m, hd, s) && forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l)
    &&& chain(m, p, a) && chain(m, q, b) && disj(s, a) && disj(s, b) && disj(a, b)
    &&& hdr(m, lh) && hdr(m, rh) && lh != rh && lh != x && rh != x
    &&& !s.contains(lh) && !s.contains(rh) && !a.contains(lh) && !a.contains(rh) && !b.contains(lh) && !b.contains(rh)
    &&& !s.contains(x) && !a.contains(x) && !b.contains(x)
    &&& x != null() ==> live(m, x) && 1 <= m[x].links.len() <= 33
    &&& forall|y: Ptr| m.dom().contains(y) ==> #[trigger] s.contains(y) || a.contains(y) || b.contains(y) || y == lh || y == rh || y == x
    &&& !m.dom().contains(null())
}
proof fn lemma_dj(s: Seq<Ptr>, a: Seq<Ptr>, y: Ptr)
    requires disj(s, a), s.contains(y), a.contains(y),
    ensures false,
{}
pub open spec fn at_end(hs: Seq<int>, c: int, l: int) -> bool { 0 <= c < hs.len() && hs[c] > l && nxt(hs, c, l) == hs.len() }
pub open spec fn cnt<T, U>(m: M<T, U>, s: Seq<Ptr>, cn: Seq<Ptr>) -> bool {
    cn.len() == 33 && forall|l: int| 0 <= l < 33 ==> s.contains(#[trigger] cn[l]) && at_end(hts(m, s), ix(s, cn[l]), l)
}
proof fn lemma_chain_eq<T, U>(m: M<T, U>, m2: M<T, U>, p: Ptr, s: Seq<Ptr>)
    requires chain(m, p, s), forall|i: int| 0 <= i < s.len() ==> m2.dom().contains(#[trigger] s[i]) && m2[s[i]] == m[s[i]],
    ensures chain(m2, p, s), cs(m2, p) == s, cents(m2, s) == cents(m, s),
{
    reveal(chain);
    assert forall|i: int| 0 <= i < s.len() implies live(m2, #[trigger] s[i]) && s[i] != null() && 1 <= m2[s[i]].links.len() <= 33 && m2[s[i]].links[0] == tgt(s, i + 1) by {
        assert(live(m, s[i]));
    }
    b_cs(m2, p, s);
    assert(cents(m2, s) =~= cents(m, s));
}
proof fn lemma_list_eq<T, U>(m: M<T, U>, m2: M<T, U>, hd: Ptr, s: Seq<Ptr>)
    requires
        base(m, hd, s), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l),
        forall|i: int| 0 <= i < s.len() ==> m2.dom().contains(#[trigger] s[i]) && m2[s[i]] == m[s[i]],
    ensures
        base(m2, hd, s), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m2, s, hts(m2, s), l), hts(m2, s) == hts(m, s), ents(m2, s) == ents(m, s),
{
    assert(hts(m2, s) =~= hts(m, s));
    assert(ents(m2, s) =~= ents(m, s)) by {
        assert forall|i: int| 0 <= i < s.len() - 1 implies ents(m2, s)[i] == ents(m, s)[i] by { assert(m2[s[i + 1]] == m[s[i + 1]]); }
    }
    assert forall|i: int| 1 <= i < s.len() implies live(m2, #[trigger] s[i]) by { assert(live(m, s[i])); }
    assert(m2[s[0]] == m[s[0]]);
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s, hts(m2, s), l) by { assert(lvl(m, s, hts(m, s), l)); }
}
pub open spec fn same_at<T, U>(m: M<T, U>, m2: M<T, U>, s: Seq<Ptr>) -> bool { forall|i: int| 0 <= i < s.len() ==> m2.dom().contains(#[trigger] s[i]) && m2[s[i]] == m[s[i]] }
// the first node of the chain from p is taken off
proof fn lemma_pull<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, null(), p, q, lh, rh), p != null(),
    ensures
        mst(m, hd, s, p, m[p].links[0], q, lh, rh),
        cl(m, p).len() > 0, cl(m, m[p].links[0]) == cl(m, p).drop_first(), cl(m, p)[0] == ent(m, p), 1 <= m[p].links.len() <= 33, live(m, p),
{
    reveal(mst);
    let a = cs(m, p);
    let b = cs(m, q);
    b_chain(m, p, a);
    b_chain_step(m, p, a);
    let p2 = m[p].links[0];
    let a2 = a.drop_first();
    b_cs(m, p2, a2);
    assert(a[0] == p);
    assert(cl(m, p2) =~= cl(m, p).drop_first());
    assert(a.contains(p));
    assert(lh != p && rh != p);
    assert forall|y: Ptr| #[trigger] s.contains(y) implies !a2.contains(y) by { assert(!a.contains(y)); }
    assert forall|y: Ptr| #[trigger] a2.contains(y) implies !b.contains(y) by { assert(a.contains(y)); }
    assert(!s.contains(p));
    assert(!b.contains(p));
    assert forall|y: Ptr| m.dom().contains(y) implies #[trigger] s.contains(y) || a2.contains(y) || b.contains(y) || y == lh || y == rh || y == p by { assert(a.contains(y) ==> y == p || a2.contains(y)); }
}
proof fn lemma_swap<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, x, p, q, lh, rh),
    ensures mst(m, hd, s, x, q, p, rh, lh),
{
    reveal(mst);
    assert(disj(cs(m, q), cs(m, p)));
    assert forall|y: Ptr| m.dom().contains(y) implies #[trigger] s.contains(y) || cs(m, q).contains(y) || cs(m, p).contains(y) || y == rh || y == lh || y == x by {}
}
proof fn lemma_drop<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, x, p, q, lh, rh), x != null(),
    ensures
        mst(m.remove(x), hd, s, null(), p, q, lh, rh),
        cl(m.remove(x), p) == cl(m, p), cl(m.remove(x), q) == cl(m, q), ents(m.remove(x), s) == ents(m, s), hts(m.remove(x), s) == hts(m, s),
{
    reveal(mst);
    let m2 = m.remove(x);
    let a = cs(m, p);
    let b = cs(m, q);
    lemma_frame(m, m2, hd, s, x, p, q);
    assert forall|y: Ptr| m2.dom().contains(y) implies #[trigger] s.contains(y) || a.contains(y) || b.contains(y) || y == lh || y == rh || y == null() by { assert(m.dom().contains(y)); }
    b_chain(m, p, a); b_chain(m, q, b);
    if s.contains(null()) { let i = ix(s, null()); assert(s[i] != null()); }
    if a.contains(null()) { let i = ix(a, null()); assert(m.dom().contains(a[i])); }
    if b.contains(null()) { let i = ix(b, null()); assert(m.dom().contains(b[i])); }
}
// all but node x stay as they are
proof fn lemma_frame<T, U>(m: M<T, U>, m2: M<T, U>, hd: Ptr, s: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr)
    requires
        base(m, hd, s), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l),
        chain(m, p, cs(m, p)), chain(m, q, cs(m, q)),
        !s.contains(x), !cs(m, p).contains(x), !cs(m, q).contains(x),
        forall|y: Ptr| m.dom().contains(y) && y != x ==> #[trigger] m2.dom().contains(y) && m2[y] == m[y],
    ensures
        base(m2, hd, s), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m2, s, hts(m2, s), l), hts(m2, s) == hts(m, s), ents(m2, s) == ents(m, s),
        chain(m2, p, cs(m, p)), cs(m2, p) == cs(m, p), cl(m2, p) == cl(m, p),
        chain(m2, q, cs(m, q)), cs(m2, q) == cs(m, q), cl(m2, q) == cl(m, q),
{
    let a = cs(m, p);
    let b = cs(m, q);
    b_chain(m, p, a); b_chain(m, q, b);
    assert forall|i: int| 0 <= i < s.len() implies m2.dom().contains(#[trigger] s[i]) && m2[s[i]] == m[s[i]] by { assert(s.contains(s[i])); assert(m.dom().contains(s[i])); }
    assert forall|i: int| 0 <= i < a.len() implies m2.dom().contains(#[trigger] a[i]) && m2[a[i]] == m[a[i]] by { assert(a.contains(a[i])); assert(m.dom().contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies m2.dom().contains(#[trigger] b[i]) && m2[b[i]] == m[b[i]] by { assert(b.contains(b[i])); assert(m.dom().contains(b[i])); }
    lemma_list_eq(m, m2, hd, s);
    lemma_chain_eq(m, m2, p, a);
    lemma_chain_eq(m, m2, q, b);
}
// the node x, its links cleared
proof fn lemma_clear<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr, n: NodeV<T, U>)
    requires mst(m, hd, s, x, p, q, lh, rh), x != null(), n.key == m[x].key, n.value == m[x].value, n.links.len() == m[x].links.len(),
    ensures
        mst(m.insert(x, n), hd, s, x, p, q, lh, rh),
        cl(m.insert(x, n), p) == cl(m, p), cl(m.insert(x, n), q) == cl(m, q), ents(m.insert(x, n), s) == ents(m, s), hts(m.insert(x, n), s) == hts(m, s),
{
    reveal(mst);
    let m2 = m.insert(x, n);
    let a = cs(m, p);
    let b = cs(m, q);
    lemma_frame(m, m2, hd, s, x, p, q);
    assert forall|y: Ptr| m2.dom().contains(y) implies #[trigger] s.contains(y) || a.contains(y) || b.contains(y) || y == lh || y == rh || y == x by { if y != x { assert(m.dom().contains(y)); } }
}
// node x, with no links, is appended at the levels below h; cn are the last nodes of the levels
pub open spec fn linked<T, U>(m: M<T, U>, m2: M<T, U>, cn: Seq<Ptr>, cn2: Seq<Ptr>, x: Ptr, h: int) -> bool {
    &&& forall|y: Ptr| #[trigger] m2.dom().contains(y) <==> m.dom().contains(y)
    &&& forall|y: Ptr| #[trigger] m2.dom().contains(y) ==> m2[y].key == m[y].key && m2[y].value == m[y].value && m2[y].links.len() == m[y].links.len()
    &&& forall|y: Ptr, l: int| m2.dom().contains(y) && 0 <= l < m[y].links.len() ==> #[trigger] m2[y].links[l] == (if l < h && y == cn[l] { x } else { m[y].links[l] })
    &&& cn2.len() == 33 && forall|l: int| 0 <= l < 33 ==> #[trigger] cn2[l] == (if l < h { x } else { cn[l] })
}
pub proof fn lemma_push<T, U>(m: M<T, U>, m2: M<T, U>, hd: Ptr, s: Seq<Ptr>, cn: Seq<Ptr>, cn2: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires
        mst(m, hd, s, x, p, q, lh, rh), x != null(), cnt(m, s, cn),
        forall|l: int| 0 <= l < m[x].links.len() ==> #[trigger] m[x].links[l] == null(),
        linked(m, m2, cn, cn2, x, m[x].links.len() as int),
    ensures
        mst(m2, hd, s.push(x), null(), p, q, lh, rh), cnt(m2, s.push(x), cn2),
        cl(m2, p) == cl(m, p), cl(m2, q) == cl(m, q), ents(m2, s.push(x)) == ents(m, s).push(ent(m, x)),
{
    reveal(mst);
    let n = m[x].links.len() as int;
    let s2 = s.push(x);
    let hs = hts(m, s);
    let hs2 = hts(m2, s2);
    let a = cs(m, p);
    let b = cs(m, q);
    b_chain(m, p, a); b_chain(m, q, b);
    assert forall|y: Ptr| m.dom().contains(y) && !s.contains(y) && y != x implies #[trigger] m2.dom().contains(y) && m2[y] == m[y] by {
        assert(m2.dom().contains(y));
        assert forall|l: int| 0 <= l < m[y].links.len() implies m2[y].links[l] == m[y].links[l] by { if l < n { assert(s.contains(cn[l])); } }
        assert(m2[y].links =~= m[y].links);
    }
    assert forall|i: int| 0 <= i < a.len() implies m2.dom().contains(#[trigger] a[i]) && m2[a[i]] == m[a[i]] by { assert(a.contains(a[i])); assert(m.dom().contains(a[i])); if s.contains(a[i]) { lemma_dj(s, a, a[i]); } assert(a[i] != x); }
    assert forall|i: int| 0 <= i < b.len() implies m2.dom().contains(#[trigger] b[i]) && m2[b[i]] == m[b[i]] by { assert(b.contains(b[i])); assert(m.dom().contains(b[i])); if s.contains(b[i]) { lemma_dj(s, b, b[i]); } assert(b[i] != x); }
    lemma_chain_eq(m, m2, p, a);
    lemma_chain_eq(m, m2, q, b);
    assert(m2[lh] == m[lh] && m2[rh] == m[rh]) by { assert(m2.dom().contains(lh)); assert(m2.dom().contains(rh)); }
    lemma_push_list(m, m2, hd, s, cn, cn2, x);
    assert forall|y: Ptr| m2.dom().contains(y) implies #[trigger] s2.contains(y) || a.contains(y) || b.contains(y) || y == lh || y == rh || y == null() by {
        assert(m.dom().contains(y));
        if y == x { assert(s2[s.len() as int] == x); }
        if s.contains(y) { let i = ix(s, y); assert(s2[i] == y); }
    }
    assert forall|y: Ptr| #[trigger] s2.contains(y) implies y == x || s.contains(y) by { let i = ix(s2, y); assert(s2[i] == y); if i < s.len() { assert(s[i] == y); } }
    assert(!s2.contains(null())) by { if s.contains(null()) { let i = ix(s, null()); assert(s[i] != null()); } }
    if a.contains(null()) { let i = ix(a, null()); assert(m.dom().contains(a[i])); }
    if b.contains(null()) { let i = ix(b, null()); assert(m.dom().contains(b[i])); }
}
proof fn lemma_push_list<T, U>(m: M<T, U>, m2: M<T, U>, hd: Ptr, s: Seq<Ptr>, cn: Seq<Ptr>, cn2: Seq<Ptr>, x: Ptr)
    requires
        base(m, hd, s), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m, s, hts(m, s), l), cnt(m, s, cn),
        !s.contains(x), live(m, x), x != null(), 1 <= m[x].links.len() <= 33,
        forall|l: int| 0 <= l < m[x].links.len() ==> #[trigger] m[x].links[l] == null(),
        linked(m, m2, cn, cn2, x, m[x].links.len() as int),
    ensures
        base(m2, hd, s.push(x)), forall|l: int| 0 <= l < 33 ==> #[trigger] lvl(m2, s.push(x), hts(m2, s.push(x)), l), cnt(m2, s.push(x), cn2),
        ents(m2, s.push(x)) == ents(m, s).push(ent(m, x)),
{
    let n = m[x].links.len() as int;
    let s2 = s.push(x);
    let hs = hts(m, s);
    let hs2 = hts(m2, s2);
    let e = s.len() as int;
    assert forall|i: int| 0 <= i < s2.len() implies m2.dom().contains(#[trigger] s2[i]) && m2[s2[i]].links.len() == m[s2[i]].links.len() && m.dom().contains(s2[i]) && m2[s2[i]].key == m[s2[i]].key && m2[s2[i]].value == m[s2[i]].value by {
        if i < e { assert(s2[i] == s[i]); assert(m.dom().contains(s[i])); }
        assert(m2.dom().contains(s2[i]));
    }
    assert(hs2 =~= hs.push(n)) by {
        assert forall|i: int| 0 <= i < s2.len() implies hs2[i] == hs.push(n)[i] by { assert(m2.dom().contains(s2[i])); if i < e { assert(s2[i] == s[i]); } else { assert(s2[i] == x); } }
    }
    assert(s2.no_duplicates()) by { if s.contains(x) {} }
    assert(s2[0] == hd) by { assert(s2[0] == s[0]); }
    assert(m2.dom().contains(s2[0]));
    assert forall|i: int| 1 <= i < s2.len() implies live(m2, #[trigger] s2[i]) by { assert(m2.dom().contains(s2[i])); if i < e { assert(s2[i] == s[i]); assert(live(m, s[i])); } }
    assert(base(m2, hd, s2)) by {
        assert forall|i: int| 0 <= i < s2.len() implies m2.dom().contains(#[trigger] s2[i]) && s2[i] != null() && 1 <= m2[s2[i]].links.len() <= 33 by { if i < e { assert(s2[i] == s[i]); } }
    }
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m2, s2, hs2, l) && at_end(hs2, ix(s2, cn2[l]), l) && s2.contains(cn2[l]) by {
        lemma_push_level(m, m2, s, cn, cn2, x, l);
    }
    assert forall|l: int| 0 <= l < 33 implies s2.contains(#[trigger] cn2[l]) && at_end(hs2, ix(s2, cn2[l]), l) by { assert(lvl(m2, s2, hs2, l)); }
    assert(ents(m2, s2) =~= ents(m, s).push(ent(m, x))) by {
        assert forall|i: int| 0 <= i < e implies ents(m2, s2)[i] == ents(m, s).push(ent(m, x))[i] by { assert(m2.dom().contains(s2[i + 1])); if i + 1 < e { assert(s2[i + 1] == s[i + 1]); } else { assert(s2[i + 1] == x); } }
    }
}
proof fn lemma_push_level<T, U>(m: M<T, U>, m2: M<T, U>, s: Seq<Ptr>, cn: Seq<Ptr>, cn2: Seq<Ptr>, x: Ptr, l: int)
    requires
        s.len() >= 1, s.no_duplicates(), 0 <= l < 33, forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]), lvl(m, s, hts(m, s), l), cnt(m, s, cn),
        !s.contains(x), m.dom().contains(x), m[x].links.len() <= 33,
        forall|j: int| 0 <= j < m[x].links.len() ==> #[trigger] m[x].links[j] == null(),
        linked(m, m2, cn, cn2, x, m[x].links.len() as int),
        hts(m2, s.push(x)) == hts(m, s).push(m[x].links.len() as int),
    ensures
        lvl(m2, s.push(x), hts(m2, s.push(x)), l), at_end(hts(m2, s.push(x)), ix(s.push(x), cn2[l]), l), s.push(x).contains(cn2[l]),
{
    let n = m[x].links.len() as int;
    let s2 = s.push(x);
    let hs = hts(m, s);
    let hs2 = hts(m2, s2);
    let e = s.len() as int;
    let c = ix(s, cn[l]);
    b_ix2(s, cn[l]);
    b_nxt(hs, c, l);
    assert(s2 =~= s.insert(e, x));
    assert(hs2 =~= hs.insert(e, n));
    assert(m2.dom().contains(s[c]) && m2.dom().contains(x)) by { assert(m.dom().contains(s[c])); }
    assert forall|i: int| 0 <= i < s.len() && i != c && hs[i] > l implies (#[trigger] m2[s[i]]).links[l] == m[s[i]].links[l] by {
        assert(m.dom().contains(s[i])); assert(m2.dom().contains(s[i]));
    }
    assert(m[s[c]].links[l] == tgt(s, nxt(hs, c, l)));
    assert(s[c] == cn[l]);
    if n > l {
        assert(m2[s[c]].links[l] == x);
        assert(m2[x].links[l] == m[x].links[l]) by { assert(x != cn[l]); }
    } else { assert(m2[s[c]].links[l] == m[s[c]].links[l]); }
    lemma_add_level(m, m2, s, hs, e - 1, c, x, n, l);
    assert(s2.no_duplicates());
    if l < n {
        assert(cn2[l] == x && s2[e] == x);
        b_ix(s2, e);
        lemma_nxt(hs2, e, l, e + 1);
    } else {
        assert(cn2[l] == cn[l] && s2[c] == s[c]);
        b_ix(s2, c);
        assert forall|k: int| c < k < e + 1 implies #[trigger] hs2[k] <= l by { if k < e { assert(hs2[k] == hs[k]); assert(hs[k] <= l); } else { assert(hs2[k] == n); } }
        lemma_nxt(hs2, c, l, e + 1);
    }
}
// everything one turn of the loop may need
pub proof fn lemma_turn<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, null(), p, q, lh, rh),
    ensures
        p == null() ==> cl(m, p).len() == 0, q == null() ==> cl(m, q).len() == 0,
        p != null() ==> {
            let p2 = m[p].links[0];
            let m2 = m.remove(p);
            &&& live(m, p) && 1 <= m[p].links.len() <= 33 && cl(m, p).len() > 0 && cl(m, p)[0] == ent(m, p)
            &&& mst(m, hd, s, p, p2, q, lh, rh) && cl(m, p2) == cl(m, p).drop_first()
            &&& mst(m2, hd, s, null(), p2, q, lh, rh) && cl(m2, p2) == cl(m, p).drop_first() && cl(m2, q) == cl(m, q) && ents(m2, s) == ents(m, s) && hts(m2, s) == hts(m, s)
        },
        q != null() ==> {
            let q2 = m[q].links[0];
            let m2 = m.remove(q);
            &&& live(m, q) && 1 <= m[q].links.len() <= 33 && cl(m, q).len() > 0 && cl(m, q)[0] == ent(m, q)
            &&& mst(m, hd, s, q, p, q2, lh, rh) && cl(m, q2) == cl(m, q).drop_first()
            &&& mst(m2, hd, s, null(), p, q2, lh, rh) && cl(m2, q2) == cl(m, q).drop_first() && cl(m2, p) == cl(m, p) && ents(m2, s) == ents(m, s) && hts(m2, s) == hts(m, s)
        },
        p != null() && q != null() ==> {
            let p2 = m[p].links[0];
            let q2 = m[q].links[0];
            let m2 = m.remove(q);
            let m3 = m.remove(p).remove(q);
            &&& p != q && live(m2, p) && m2[p] == m[p]
            &&& mst(m2, hd, s, p, p2, q2, lh, rh) && cl(m2, p2) == cl(m, p).drop_first() && cl(m2, q2) == cl(m, q).drop_first()
            &&& mst(m3, hd, s, null(), p2, q2, lh, rh) && cl(m3, p2) == cl(m, p).drop_first() && cl(m3, q2) == cl(m, q).drop_first() && ents(m3, s) == ents(m, s) && hts(m3, s) == hts(m, s)
        },
{
    lemma_ends(m, hd, s, null(), p, q, lh, rh);
    lemma_swap(m, hd, s, null(), p, q, lh, rh);
    if p != null() {
        lemma_pull(m, hd, s, p, q, lh, rh);
        lemma_drop(m, hd, s, p, m[p].links[0], q, lh, rh);
    }
    if q != null() {
        lemma_pull(m, hd, s, q, p, rh, lh);
        lemma_swap(m, hd, s, q, m[q].links[0], p, rh, lh);
        lemma_drop(m, hd, s, q, p, m[q].links[0], lh, rh);
    }
    if p != null() && q != null() {
        let p2 = m[p].links[0];
        let q2 = m[q].links[0];
        let m2 = m.remove(q);
        lemma_neq(m, hd, s, p, q, lh, rh);
        assert(m2[p] == m[p]);
        lemma_pull(m2, hd, s, p, q2, lh, rh);
        lemma_drop(m2, hd, s, p, p2, q2, lh, rh);
        assert(m.remove(p).remove(q) =~= m2.remove(p));
    }
}
proof fn lemma_ends<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, x, p, q, lh, rh),
    ensures p == null() ==> cl(m, p).len() == 0, q == null() ==> cl(m, q).len() == 0,
{ reveal(mst); b_chain(m, p, cs(m, p)); b_chain(m, q, cs(m, q)); }
proof fn lemma_neq<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, null(), p, q, lh, rh), p != null(), q != null(),
    ensures p != q,
{ reveal(mst); b_chain(m, p, cs(m, p)); b_chain(m, q, cs(m, q)); assert(cs(m, p).contains(p)); assert(cs(m, q).contains(q)); }
// x with its links cleared, and what the linking loop needs
pub proof fn lemma_cleared<T, U>(m: M<T, U>, m2: M<T, U>, hd: Ptr, s: Seq<Ptr>, cn: Seq<Ptr>, x: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr)
    requires
        mst(m, hd, s, x, p, q, lh, rh), x != null(), cnt(m, s, cn),
        m2 == m.insert(x, NodeV { links: m2[x].links, ..m[x] }), m2[x].links.len() == m[x].links.len(),
    ensures
        mst(m2, hd, s, x, p, q, lh, rh), cnt(m2, s, cn), linked(m2, m2, cn, cn, x, 0), ent(m2, x) == ent(m, x),
        cl(m2, p) == cl(m, p), cl(m2, q) == cl(m, q), ents(m2, s) == ents(m, s), m2.dom().contains(x), 1 <= m2[x].links.len() <= 33,
        forall|l: int| 0 <= l < 33 ==> m2.dom().contains(#[trigger] cn[l]) && l < m2[cn[l]].links.len() && cn[l] != x,
{
    lemma_clear(m, hd, s, x, p, q, lh, rh, NodeV { links: m2[x].links, ..m[x] });
    reveal(mst);
    assert(hts(m2, s) == hts(m, s));
    assert forall|l: int| 0 <= l < 33 implies m2.dom().contains(#[trigger] cn[l]) && l < m2[cn[l]].links.len() && cn[l] != x by {
        b_ix2(s, cn[l]);
        let c = ix(s, cn[l]);
        assert(m2.dom().contains(s[c]));
        assert(hts(m2, s)[c] == m2[s[c]].links.len());
    }
}
// (a variable that is assigned after its declaration carries no type invariant into a loop)
pub proof fn lemma_typed(p: Ptr) -> (q: Ptr)
    ensures q == p,
{ p }
// one turn of the linking loop
pub proof fn lemma_link_step<T, U>(m: M<T, U>, m1: M<T, U>, m2: M<T, U>, cn: Seq<Ptr>, cn1: Seq<Ptr>, x: Ptr, i: int)
    requires
        linked(m, m1, cn, cn1, x, i), 0 <= i < 33, i < m[cn[i]].links.len(), m.dom().contains(cn[i]), cn.len() == 33,
        m2 == set_link(m1, cn[i], i, x),
    ensures linked(m, m2, cn, cn1.update(i, x), x, i + 1),
{
    assert(m1.dom().contains(cn[i]));
    assert forall|y: Ptr| #[trigger] m2.dom().contains(y) <==> m.dom().contains(y) by { assert(m1.dom().contains(y) <==> m.dom().contains(y)); }
    assert forall|y: Ptr| #[trigger] m2.dom().contains(y) implies m2[y].key == m[y].key && m2[y].value == m[y].value && m2[y].links.len() == m[y].links.len() by { assert(m1.dom().contains(y)); }
    assert forall|y: Ptr, l: int| m2.dom().contains(y) && 0 <= l < m[y].links.len() implies #[trigger] m2[y].links[l] == (if l < i + 1 && y == cn[l] { x } else { m[y].links[l] }) by {
        assert(m1.dom().contains(y));
        assert(m1[y].links[l] == (if l < i && y == cn[l] { x } else { m[y].links[l] }));
    }
}
// the start: two lists, their heads cut off, and a new head
pub proof fn lemma_m_start<T, U>(lm: M<T, U>, rm: M<T, U>, m: M<T, U>, hd: Ptr, p: Ptr, q: Ptr, lh: Ptr, rh: Ptr, sl: Seq<Ptr>, sr: Seq<Ptr>)
    requires
        repr(lm, lh, sl), repr(rm, rh, sr), forall|y: Ptr| lm.dom().contains(y) ==> !rm.dom().contains(y),
        hd != null(), !lm.dom().contains(hd), !rm.dom().contains(hd),
        p == lm[lh].links[0], q == rm[rh].links[0],
        forall|y: Ptr| #[trigger] m.dom().contains(y) <==> lm.dom().contains(y) || rm.dom().contains(y) || y == hd,
        forall|y: Ptr| #[trigger] lm.dom().contains(y) && y != lh ==> m[y] == lm[y],
        forall|y: Ptr| #[trigger] rm.dom().contains(y) && y != rh ==> m[y] == rm[y],
        hdr(m, hd), hdr(m, lh), hdr(m, rh),
    ensures
        mst(m, hd, seq![hd], null(), p, q, lh, rh), ents(m, seq![hd]).len() == 0,
        cl(m, p) == ents(lm, sl), cl(m, q) == ents(rm, sr),
        cnt(m, seq![hd], Seq::new(33, |i: int| hd)),
{
    reveal(mst);
    b_repr(lm, lh, sl); b_repr(rm, rh, sr);
    b_repr_chain(lm, lh, sl); b_repr_chain(rm, rh, sr);
    let a = sl.drop_first();
    let b = sr.drop_first();
    let s = seq![hd];
    let cn = Seq::new(33, |i: int| hd);
    lemma_sub(lm, lh, a, p); lemma_sub(rm, rh, b, q);
    assert forall|i: int| 0 <= i < a.len() implies m.dom().contains(#[trigger] a[i]) && m[a[i]] == lm[a[i]] by { assert(a.contains(a[i])); assert(lm.dom().contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies m.dom().contains(#[trigger] b[i]) && m[b[i]] == rm[b[i]] by { assert(b.contains(b[i])); assert(rm.dom().contains(b[i])); }
    lemma_chain_eq(lm, m, p, a);
    lemma_chain_eq(rm, m, q, b);
    assert(lm.dom().contains(lh) && rm.dom().contains(rh)) by { assert(sl[0] == lh && sr[0] == rh); }
    assert(s[0] == hd);
    assert forall|y: Ptr| #[trigger] s.contains(y) implies y == hd by {}
    assert forall|y: Ptr| #[trigger] a.contains(y) implies lm.dom().contains(y) && y != lh by {}
    assert forall|y: Ptr| #[trigger] b.contains(y) implies rm.dom().contains(y) && y != rh by {}
    assert(hts(m, s) =~= seq![33int]);
    assert forall|l: int| 0 <= l < 33 implies #[trigger] lvl(m, s, hts(m, s), l) by { b_nxt(hts(m, s), 0, l); }
    assert forall|l: int| 0 <= l < 33 implies s.contains(#[trigger] cn[l]) && at_end(hts(m, s), ix(s, cn[l]), l) by { b_ix(s, 0); b_nxt(hts(m, s), 0, l); }
    assert(!lm.dom().contains(null())) by { lemma_no_null(lm, lh, sl); }
    assert(!rm.dom().contains(null())) by { lemma_no_null(rm, rh, sr); }
    assert forall|y: Ptr| m.dom().contains(y) implies #[trigger] s.contains(y) || a.contains(y) || b.contains(y) || y == lh || y == rh || y == null() by {
        if lm.dom().contains(y) { } else if rm.dom().contains(y) { } else { assert(s[0] == y); }
    }
}
proof fn lemma_sub<T, U>(m: M<T, U>, hd: Ptr, a: Seq<Ptr>, p: Ptr)
    requires chain(m, p, a), !a.contains(hd),
    ensures forall|y: Ptr| #[trigger] a.contains(y) ==> m.dom().contains(y) && y != hd,
{
    b_chain(m, p, a);
    assert forall|y: Ptr| #[trigger] a.contains(y) implies m.dom().contains(y) && y != hd by { let i = ix(a, y); assert(m.dom().contains(a[i])); }
}
pub proof fn lemma_no_null<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>)
    requires repr(m, hd, s),
    ensures !m.dom().contains(null()), m.dom().contains(hd), hd != null(),
{
    reveal(repr);
    if m.dom().contains(null()) { let i = ix(s, null()); assert(s.contains(null())); assert(s[i] != null()); }
    assert(s[0] == hd);
}
// the end: the new list, and the two heads
pub proof fn lemma_m_end<T, U>(m: M<T, U>, hd: Ptr, s: Seq<Ptr>, lh: Ptr, rh: Ptr)
    requires mst(m, hd, s, null(), null(), null(), lh, rh),
    ensures
        repr(m.remove(lh).remove(rh), hd, s), ents(m.remove(lh).remove(rh), s) == ents(m, s),
        hdr(m, lh), hdr(m, rh), lh != rh, cl(m, null()).len() == 0,
{
    reveal(mst); reveal(repr);
    let m2 = m.remove(lh).remove(rh);
    b_chain(m, null(), cs(m, null()));
    assert forall|i: int| 0 <= i < s.len() implies m2.dom().contains(#[trigger] s[i]) && m2[s[i]] == m[s[i]] by { assert(s.contains(s[i])); assert(m.dom().contains(s[i])); }
    lemma_list_eq(m, m2, hd, s);
    assert forall|y: Ptr| m2.dom().contains(y) implies #[trigger] s.contains(y) by { assert(m.dom().contains(y)); }
}
// ---- releasing a list: what is left are the nodes from p on, and h
#[verifier::opaque]
pub open spec fn rest<T, U>(m: M<T, U>, h: Ptr, p: Ptr) -> bool {
    &&& ok_chain(m, p) && !cs(m, p).contains(h) && !m.dom().contains(null())
    &&& forall|y: Ptr| m.dom().contains(y) ==> y == h || #[trigger] cs(m, p).contains(y)
}
pub proof fn lemma_rest<T, U>(m: M<T, U>, h: Ptr, p: Ptr)
    requires rest(m, h, p),
    ensures
        p == null() ==> forall|y: Ptr| m.dom().contains(y) ==> y == h,
        p != null() ==> {
            &&& live(m, p) && 1 <= m[p].links.len() <= 33 && p != h
            &&& rest(m.remove(p), h, m[p].links[0])
            &&& cs(m.remove(p), m[p].links[0]).len() < cs(m, p).len()
        },
{
    reveal(rest);
    let s = cs(m, p);
    b_chain(m, p, s);
    if p == null() {
        assert forall|y: Ptr| m.dom().contains(y) implies y == h by { assert(!s.contains(y)); }
    } else {
        assert(s.contains(p));
        b_chain_step(m, p, s);
        b_chain_rm(m, m[p].links[0], s.drop_first(), p);
        let m2 = m.remove(p);
        b_cs(m2, m[p].links[0], s.drop_first());
        assert forall|y: Ptr| m2.dom().contains(y) implies y == h || #[trigger] s.drop_first().contains(y) by { assert(m.dom().contains(y)); assert(y == h || s.contains(y)); }
        assert(!s.drop_first().contains(h)) by { if s.drop_first().contains(h) { assert(s.contains(h)); } }
    }
}
pub proof fn lemma_rest_null<T, U>(m: M<T, U>, p: Ptr)
    requires rest(m, null(), p), p == null(),
    ensures forall|y: Ptr| !m.dom().contains(y),
{ lemma_rest(m, null(), p); reveal(rest); }
pub proof fn lemma_rest_start<T, U>(m: M<T, U>, h: Ptr, s: Seq<Ptr>)
    requires repr(m, h, s),
    ensures rest(m, h, m[h].links[0]), rest(m.remove(h), null(), m[h].links[0]), m.dom().contains(h), h != null(), m[h].key is None, m[h].value is None, m[h].links.len() == 33,
{
    reveal(rest);
    b_repr(m, h, s);
    b_repr_chain(m, h, s);
    lemma_no_null(m, h, s);
    let t = s.drop_first();
    b_cs(m, m[h].links[0], t);
    b_chain_rm(m, m[h].links[0], t, h);
    b_cs(m.remove(h), m[h].links[0], t);
    b_chain(m, m[h].links[0], t);
    if t.contains(null()) { let i = ix(t, null()); assert(m.dom().contains(t[i])); }
    assert forall|y: Ptr| m.remove(h).dom().contains(y) implies y == null() || #[trigger] t.contains(y) by { assert(m.dom().contains(y)); }
}
pub proof fn lemma_rest_iter<T, U>(m: M<T, U>, p: Ptr)
    requires ok_chain(m, p), only(m, cs(m, p)),
    ensures rest(m, null(), p),
{
    reveal(rest); reveal(only);
    let t = cs(m, p);
    b_chain(m, p, t);
    if m.dom().contains(null()) { assert(t.contains(null())); }
    if t.contains(null()) { let i = ix(t, null()); lemma_chain_null(m, p, t, i); }
}
proof fn lemma_chain_null<T, U>(m: M<T, U>, p: Ptr, t: Seq<Ptr>, i: int)
    requires chain(m, p, t), 0 <= i < t.len(),
    ensures t[i] != null(),
{ reveal(chain); }
}
//@ spec skiplist::map
use crate::omap::*;
use crate::rp::*;
use crate::sk::*;
use crate::sko::*;
use crate::skm::*;
use crate::skh::*;
broadcast use { crate::sk::group_sk, crate::sko::group_sko };
impl<T, U> Node<T, U> {
    pub fn allocate(n: usize, Tracked(h): Tracked<&mut Heap<T, U>>) -> (r: Ptr)
        ensures
            r != null(), !old(h)@.dom().contains(r),
            final(h)@ == old(h)@.insert(r, NodeV { key: None, value: None, links: Seq::new(n as nat, |i: int| null()) }),
    { alloc::<T, U>(n, Tracked(h)) }
    pub fn deallocate(p: Ptr, Tracked(h): Tracked<&mut Heap<T, U>>)
        requires old(h)@.dom().contains(p), old(h)@[p].key is None, old(h)@[p].value is None,
        ensures final(h)@ == old(h)@.remove(p),
    { dealloc::<T, U>(p, Tracked(h)) }
}
impl<T, U> SkipMap<T, U> {
    pub open spec fn m(&self) -> M<T, U> { self.heap@@ }
    pub open spec fn ss(&self) -> Seq<Ptr> { ss(self.m(), self.head) }
    pub open spec fn wf(&self) -> bool { repr(self.m(), self.head, self.ss()) }
    pub open spec fn inv0(&self) -> bool { self.wf() && self.len == self@.len() }
    // nothing but an empty head is left: what dropping the map may assume
    pub open spec fn done(&self) -> bool { self.wf() && self@.len() == 0 }
}
impl<T, U> View for SkipMap<T, U> {
    type V = Seq<Entry<T, U>>;
    open spec fn view(&self) -> Seq<Entry<T, U>> { ents(self.m(), self.ss()) }
}
impl<T: Ord, U> SkipMap<T, U> {
    pub open spec fn inv(&self) -> bool { self.inv0() && sorted(self@) }
}
//@ fn skiplist::map::Node::new
    ensures
        ret != null(), !old(h)@.dom().contains(ret),
        final(h)@ == old(h)@.insert(ret, NodeV { key: Some(key), value: Some(value), links: Seq::new(links_len as nat, |i: int| null()) }),
//@ fn skiplist::map::Node::free
    requires live(old(h)@, ptr),
    ensures final(h)@ == old(h)@.remove(ptr),
//@ fn skiplist::map::SkipMap::new
    ensures ret@ == Seq::<Entry<T, U>>::empty(), ret.inv0(),
//@ entry
    let tracked mut hp = Heap::<T, U>::empty();
    broadcast use { b_only_head };
//@ fn skiplist::map::SkipMap::get_starting_height
    ensures ret <= 32,
//@ fn skiplist::map::SkipMap::gen_random_height
    ensures ret <= 32, final(self).heap == old(self).heap, final(self).head == old(self).head, final(self).len == old(self).len,
//@ fn skiplist::map::SkipMap::contains_key
    requires self.inv(),
    ensures ret == hask(self@, key.rank()),
//@ fn skiplist::map::SkipMap::get
    requires self.inv(),
    ensures oref(ret) == oval(at(self@, key.rank())),
//@ loop 0
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        lt_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
    ensures !hask(self@, key.rank()),
    decreases curr_height,
//@ loop 1
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        lt_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
        next_node == Slot::Link(curr_node.val(self.m()), curr_height),
    decreases self.ss().len() - ix(self.ss(), curr_node.val(self.m())),
//@ fn skiplist::map::SkipMap::get_mut
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(r) => {
                let s = old(self)@;
                let p = pos(s, key.rank());
                &&& hask(s, key.rank())
                &&& *r == s[p].value
                &&& final(self)@ == s.update(p, Entry { key: s[p].key, value: *final(r) })
            },
            None => !hask(old(self)@, key.rank()) && final(self)@ == old(self)@,
        },
//@ loop 0
    invariant
        *self == *old(self),
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        lt_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
    ensures !hask(self@, key.rank()),
    decreases curr_height,
//@ loop 1
    invariant
        *self == *old(self),
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        lt_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
        next_node == Slot::Link(curr_node.val(self.m()), curr_height),
    decreases self.ss().len() - ix(self.ss(), curr_node.val(self.m())),
//@ fn skiplist::map::SkipMap::len
    requires self.inv0(),
    ensures ret == self@.len(),
//@ fn skiplist::map::SkipMap::is_empty
    requires self.inv0(),
    ensures ret == (self@.len() == 0),
//@ fn skiplist::map::SkipMap::floor
    requires self.inv(),
    ensures oref(ret) == okey(flr(self@, key.rank())),
//@ loop 0
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        le_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
    decreases curr_height,
//@ loop 1
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        le_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
        next_node == Slot::Link(curr_node.val(self.m()), curr_height),
    decreases self.ss().len() - ix(self.ss(), curr_node.val(self.m())),
//@ fn skiplist::map::SkipMap::ceil
    requires self.inv(),
    ensures oref(ret) == okey(cil(self@, key.rank())),
//@ loop 0
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        lt_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
    decreases curr_height,
//@ loop 1
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        lt_r(self.m(), self.ss(), ix(self.ss(), curr_node.val(self.m())), key.rank()),
        next_node == Slot::Link(curr_node.val(self.m()), curr_height),
    decreases self.ss().len() - ix(self.ss(), curr_node.val(self.m())),
//@ fn skiplist::map::SkipMap::min
    requires self.inv(),
    ensures oref(ret) == okey(first(self@)),
//@ fn skiplist::map::SkipMap::max
    requires self.inv(),
    ensures oref(ret) == okey(last(self@)),
//@ loop 0
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
    decreases curr_height,
//@ loop 1
    invariant
        self.inv(), curr_height <= 32, at_l(self.m(), self.ss(), curr_node, curr_height as int),
        next_node == Slot::Link(curr_node.val(self.m()), curr_height),
    decreases self.ss().len() - ix(self.ss(), curr_node.val(self.m())),
//@ fn skiplist::map::SkipMap::Index::index
    requires self.inv(), hask(self@, key.rank()),
    ensures Some(*ret) == oval(at(self@, key.rank())),
//@ fn skiplist::map::SkipMap::IndexMut::index_mut
    requires old(self).inv(), hask(old(self)@, key.rank()),
    ensures
        final(self).inv(),
        ({
            let s = old(self)@;
            let p = pos(s, key.rank());
            &&& *ret == s[p].value
            &&& final(self)@ == s.update(p, Entry { key: s[p].key, value: *final(ret) })
        }),
//@ fn skiplist::map::SkipMap::Default::default
    ensures ret@ == Seq::<Entry<T, U>>::empty(), ret.inv0(),
//@ fn skiplist::map::SkipMap::insert
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures
        final(self).inv(),
        final(self)@ == ins(old(self)@, Entry { key, value }),
        ret == opair(at(old(self)@, key.rank())),
//@ entry
    let ghost m0 = self.heap@@;
    let ghost hd = self.head;
    let ghost s1 = self.ss();
    let ghost e = Entry { key, value };
    let ghost r = key.rank();
    let ghost q = pos(self@, r);
    let ghost k = if hask(self@, r) { q + 1 } else { 0 };
    proof { lemma_ctx(m0, hd, s1, r); lemma_pos(self@, r); lemma_ins(self@, e);  }
//@ before 0 `let mut curr_height = MAX_HEIGHT ;`
    proof { lemma_ins_start(m0, hd, self.heap@@, s1, q, k, new_node, new_height + 1, e); }
//@ loop 0
    invariant_except_break
        ins_state(m0, self.heap@@, s1, q, k, new_node, new_height + 1, e, curr_height as int, curr_node),
        self.len == old(self).len + 1, ret is None,
    invariant
        ins_ctx(m0, hd, s1, q, k, r), curr_height <= 32, self.head == hd, old(self).len == s1.len() - 1, old(self).len < usize::MAX,
        e.key.rank() == r, new_height <= 32, new_node != null(),
    ensures
        self.head == hd,
        repr(self.heap@@, hd, s_ins(s1, q, k, new_node)), ents(self.heap@@, s_ins(s1, q, k, new_node)) == rmv2(ents(m0, s1), k).insert(q, e),
        ret == opair(at(ents(m0, s1), r)),
        self.len == old(self).len + 1 - (if k > 0 { 1int } else { 0 }),
    decreases curr_height,
//@ body 0
    let ghost m1 = self.heap@@;
    proof { lemma_ins_at(m0, hd, m1, s1, q, k, new_node, new_height + 1, e, curr_height as int, curr_node); lemma_ctx_cmp(m0, hd, s1, q, k, r, ix(s1, curr_node.val(m1)), curr_height as int); }
//@ loop 1
    invariant
        ins_ctx(m0, hd, s1, q, k, r), curr_height <= 32, self.head == hd, self.heap@@ == m1,
        e.key.rank() == r, new_height <= 32, new_node != null(),
        ins_state(m0, m1, s1, q, k, new_node, new_height + 1, e, curr_height as int, curr_node),
        walk(m0, m1, s1, q, curr_height as int, curr_node),
        live(m1, new_node), ent(m1, new_node) == e,
        next_node == Slot::Link(curr_node.val(m1), curr_height),
        ctx_at(m0, s1, q, k, r, ix(s1, curr_node.val(m1)), curr_height as int),
    decreases s1.len() - ix(s1, curr_node.val(m1)),
//@ body 1
    proof {
        lemma_ins_move(m0, hd, m1, s1, q, k, new_node, new_height + 1, e, curr_height, curr_node);
        lemma_ins_at(m0, hd, m1, s1, q, k, new_node, new_height + 1, e, curr_height as int, next_node);
        lemma_ctx_cmp(m0, hd, s1, q, k, r, ix(s1, next_node.val(m1)), curr_height as int);
    }
//@ before 0 `if curr_height == 0 { break ; }`
    proof {
        let c = ix(s1, curr_node.val(m1));
        lemma_stepped(m1, s1, hts(m0, s1), k, new_node, new_height + 1, c, curr_height as int);
        assert(self.heap@@ =~= stepped(m1, s1, hts(m0, s1), k, new_node, new_height + 1, c, curr_height as int));
        lemma_ins_step(m0, hd, m1, self.heap@@, s1, q, k, new_node, new_height + 1, e, curr_height as int, curr_node);
    }
//@ fn skiplist::map::SkipMap::remove
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self)@ == rem(old(self)@, key.rank()),
        ret == opair(at(old(self)@, key.rank())),
//@ entry
    let ghost m0 = self.heap@@;
    let ghost hd = self.head;
    let ghost s1 = self.ss();
    let ghost r = key.rank();
    let ghost q = pos(self@, r);
    let ghost k = if hask(self@, r) { q + 1 } else { 0 };
    proof { lemma_ctx(m0, hd, s1, r); lemma_pos(self@, r); lemma_rem(self@, r); lemma_rem_start(m0, hd, s1, q, k); }
//@ loop 0
    invariant_except_break
        rem_state(m0, self.heap@@, s1, q, k, curr_height as int, curr_node),
        self.len == old(self).len, ret is None,
    invariant
        ins_ctx(m0, hd, s1, q, k, r), curr_height <= 32, self.head == hd, old(self).len == s1.len() - 1, 
        key.rank() == r,
    ensures
        self.head == hd,
        repr(self.heap@@, hd, rmv(s1, k)), ents(self.heap@@, rmv(s1, k)) == rmv2(ents(m0, s1), k),
        ret == opair(at(ents(m0, s1), r)),
        self.len == old(self).len - (if k > 0 { 1int } else { 0 }),
    decreases curr_height,
//@ body 0
    let ghost m1 = self.heap@@;
    proof { lemma_rem_at(m0, hd, m1, s1, q, k, curr_height as int, curr_node); lemma_ctx_cmp(m0, hd, s1, q, k, r, ix(s1, curr_node.val(m1)), curr_height as int); }
//@ loop 1
    invariant
        ins_ctx(m0, hd, s1, q, k, r), curr_height <= 32, self.head == hd, self.heap@@ == m1,
        key.rank() == r,
        rem_state(m0, m1, s1, q, k, curr_height as int, curr_node),
        walk(m0, m1, s1, q, curr_height as int, curr_node),
        
        next_node == Slot::Link(curr_node.val(m1), curr_height),
        ctx_at(m0, s1, q, k, r, ix(s1, curr_node.val(m1)), curr_height as int),
    decreases s1.len() - ix(s1, curr_node.val(m1)),
//@ body 1
    proof {
        lemma_rem_move(m0, hd, m1, s1, q, k, curr_height, curr_node);
        lemma_rem_at(m0, hd, m1, s1, q, k, curr_height as int, next_node);
        lemma_ctx_cmp(m0, hd, s1, q, k, r, ix(s1, next_node.val(m1)), curr_height as int);
    }
//@ before 0 `if curr_height == 0 { break ; }`
    proof {
        let c = ix(s1, curr_node.val(m1));
        lemma_stepped(m1, s1, hts(m0, s1), k, null(), 0, c, curr_height as int);
        assert(self.heap@@ =~= stepped(m1, s1, hts(m0, s1), k, null(), 0, c, curr_height as int));
        lemma_rem_step(m0, hd, m1, self.heap@@, s1, q, k, curr_height as int, curr_node);
    }
//@ fn skiplist::map::SkipMap::union
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures
        ret.inv(),
        is_union(ret@, left@, right@),
//@ entry
    let ghost lm = left.m();
    let ghost rm = right.m();
    let ghost lh = left.head;
    let ghost rh = right.head;
    let ghost a0 = left@;
    let ghost b0 = right@;
    let ghost sl = left.ss();
    let ghost sr = right.ss();
    let tracked mut hp = left.heap.borrow_mut().take();
    proof {
        hp.join(right.heap.borrow_mut().take());
        lemma_no_null(lm, lh, sl); lemma_no_null(rm, rh, sr);
        lemma_rest_start(lm, lh, sl); lemma_rest_start(rm, rh, sr);
        lemma_mg_sets(a0, b0);
    }
    let ghost mut s: Seq<Ptr> = Seq::empty();
    let ghost mut hd: Ptr = null();
//@ before 0 `loop`
    proof {
        hd = ret.head;
        s = seq![hd];
        lemma_m_start(lm, rm, hp@, hd, left.head, right.head, lh, rh, sl, sr);
        assert(curr_nodes@ =~= Seq::new(33, |i: int| hd));
        assert(ents(hp@, s) + mg(cl(hp@, left.head), cl(hp@, right.head), true, true, true) =~= mg(a0, b0, true, true, true));
    }
//@ loop 0
    invariant
        ret.head == hd, left_head == lh, right_head == rh,
        mst(hp@, hd, s, null(), left.head, right.head, lh, rh), cnt(hp@, s, curr_nodes@),
        ents(hp@, s) + mg(cl(hp@, left.head), cl(hp@, right.head), true, true, true) == mg(a0, b0, true, true, true),
        sorted(cl(hp@, left.head)), sorted(cl(hp@, right.head)),
        ret.len == ents(hp@, s).len(), ret.len + cl(hp@, left.head).len() + cl(hp@, right.head).len() <= usize::MAX,
    ensures
        left.head == null(), right.head == null(),
    decreases cl(hp@, left.head).len() + cl(hp@, right.head).len(),
//@ body 0
    let ghost m1 = hp@;
    let ghost p1 = left.head;
    let ghost q1 = right.head;
    let ghost a1 = cl(m1, p1);
    let ghost b1 = cl(m1, q1);
    proof {
        lemma_turn(m1, hd, s, p1, q1, lh, rh);
        if a1.len() > 0 { lemma_uncons(a1); }
        if b1.len() > 0 { lemma_uncons(b1); }
        if a1.len() > 0 && b1.len() > 0 && rk(a1[0]) == rk(b1[0]) { lemma_mg_right(a1, b1); }
    }
//@ before 0 `ret . len`
    let ghost m2 = hp@;
    proof {
        assert(mst(m2, hd, s, next_node, left.head, right.head, lh, rh));
        assert(ents(m1, s) + keep(true, ent(m2, next_node), mg(cl(m2, left.head), cl(m2, right.head), true, true, true)) =~= ents(m1, s).push(ent(m2, next_node)) + mg(cl(m2, left.head), cl(m2, right.head), true, true, true));
    }
//@ before 0 `for`
    let ghost m3 = hp@;
    let ghost cn = curr_nodes@;
    proof { lemma_cleared(m2, m3, hd, s, cn, next_node, left.head, right.head, lh, rh); }
//@ loop 1
    invariant
        links_len == m3[next_node].links.len(), 1 <= links_len <= 33, cn.len() == 33, curr_nodes@.len() == 33,
        forall|l: int| 0 <= l < 33 ==> m3.dom().contains(#[trigger] cn[l]) && l < m3[cn[l]].links.len() && cn[l] != next_node,
        linked(m3, hp@, cn, curr_nodes@, next_node, i as int),
//@ body 1
    let ghost m4 = hp@;
    let ghost cn4 = curr_nodes@;
    proof {
        let nn = lemma_typed(next_node);
        assert(curr_nodes@[i as int] == cn[i as int]);
        assert(hp@.dom().contains(cn[i as int]));
    }
//@ bodyend 1
    proof {
        lemma_link_step(m3, m4, hp@, cn, cn4, next_node, i as int);
        assert(curr_nodes@ =~= cn4.update(i as int, next_node));
    }
//@ after 0 `for`
    proof {
        lemma_push(m3, hp@, hd, s, cn, curr_nodes@, next_node, left.head, right.head, lh, rh);
        s = s.push(next_node);
    }
//@ before 0 `ret`
    proof {
        lemma_m_end(hp@, hd, s, lh, rh);
        assert(mg(cl(hp@, null()), cl(hp@, null()), true, true, true) =~= Seq::empty());
        assert(ents(hp@, s) =~= mg(a0, b0, true, true, true));
        assert(hp@.remove(lh).remove(rh).dom().contains(hd));
        let ghost nl = hp@[lh];
        let ghost nr = hp@[rh];
        let tracked mut hp2 = hp.take_rest(lh);
        let tracked mut hp3 = hp2.take_rest(rh);
        *left.heap.borrow_mut() = hp;
        *right.heap.borrow_mut() = hp2;
        *ret.heap.borrow_mut() = hp3;
        b_only_head(Map::empty(), lh, nl);
        b_only_head(Map::empty(), rh, nr);
        // what dropping the two maps may assume
        assert(left.done() && right.done());
    }
//@ fn skiplist::map::SkipMap::intersection
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures
        ret.inv(),
        is_inter(ret@, left@, right@),
//@ entry
    let ghost lm = left.m();
    let ghost rm = right.m();
    let ghost lh = left.head;
    let ghost rh = right.head;
    let ghost a0 = left@;
    let ghost b0 = right@;
    let ghost sl = left.ss();
    let ghost sr = right.ss();
    let tracked mut hp = left.heap.borrow_mut().take();
    proof {
        hp.join(right.heap.borrow_mut().take());
        lemma_no_null(lm, lh, sl); lemma_no_null(rm, rh, sr);
        lemma_rest_start(lm, lh, sl); lemma_rest_start(rm, rh, sr);
        lemma_mg_sets(a0, b0);
    }
    let ghost mut s: Seq<Ptr> = Seq::empty();
    let ghost mut hd: Ptr = null();
//@ before 0 `loop`
    proof {
        hd = ret.head;
        s = seq![hd];
        lemma_m_start(lm, rm, hp@, hd, left.head, right.head, lh, rh, sl, sr);
        assert(curr_nodes@ =~= Seq::new(33, |i: int| hd));
        assert(ents(hp@, s) + mg(cl(hp@, left.head), cl(hp@, right.head), false, false, true) =~= mg(a0, b0, false, false, true));
    }
//@ loop 0
    invariant
        ret.head == hd, left_head == lh, right_head == rh,
        mst(hp@, hd, s, null(), left.head, right.head, lh, rh), cnt(hp@, s, curr_nodes@),
        ents(hp@, s) + mg(cl(hp@, left.head), cl(hp@, right.head), false, false, true) == mg(a0, b0, false, false, true),
        sorted(cl(hp@, left.head)), sorted(cl(hp@, right.head)),
        ret.len == ents(hp@, s).len(), ret.len + cl(hp@, left.head).len() + cl(hp@, right.head).len() <= usize::MAX,
    ensures
        left.head == null(), right.head == null(),
    decreases cl(hp@, left.head).len() + cl(hp@, right.head).len(),
//@ body 0
    let ghost m1 = hp@;
    let ghost p1 = left.head;
    let ghost q1 = right.head;
    let ghost a1 = cl(m1, p1);
    let ghost b1 = cl(m1, q1);
    proof {
        lemma_turn(m1, hd, s, p1, q1, lh, rh);
        if a1.len() > 0 { lemma_uncons(a1); }
        if b1.len() > 0 { lemma_uncons(b1); }
        
    }
//@ before 0 `ret . len`
    let ghost m2 = hp@;
    proof {
        assert(mst(m2, hd, s, next_node, left.head, right.head, lh, rh));
        assert(ents(m1, s) + keep(true, ent(m2, next_node), mg(cl(m2, left.head), cl(m2, right.head), false, false, true)) =~= ents(m1, s).push(ent(m2, next_node)) + mg(cl(m2, left.head), cl(m2, right.head), false, false, true));
    }
//@ before 0 `for`
    let ghost m3 = hp@;
    let ghost cn = curr_nodes@;
    proof { lemma_cleared(m2, m3, hd, s, cn, next_node, left.head, right.head, lh, rh); }
//@ loop 1
    invariant
        links_len == m3[next_node].links.len(), 1 <= links_len <= 33, cn.len() == 33, curr_nodes@.len() == 33,
        forall|l: int| 0 <= l < 33 ==> m3.dom().contains(#[trigger] cn[l]) && l < m3[cn[l]].links.len() && cn[l] != next_node,
        linked(m3, hp@, cn, curr_nodes@, next_node, i as int),
//@ body 1
    let ghost m4 = hp@;
    let ghost cn4 = curr_nodes@;
    proof {
        let nn = lemma_typed(next_node);
        assert(curr_nodes@[i as int] == cn[i as int]);
        assert(hp@.dom().contains(cn[i as int]));
    }
//@ bodyend 1
    proof {
        lemma_link_step(m3, m4, hp@, cn, cn4, next_node, i as int);
        assert(curr_nodes@ =~= cn4.update(i as int, next_node));
    }
//@ after 0 `for`
    proof {
        lemma_push(m3, hp@, hd, s, cn, curr_nodes@, next_node, left.head, right.head, lh, rh);
        s = s.push(next_node);
    }
//@ before 0 `ret`
    proof {
        lemma_m_end(hp@, hd, s, lh, rh);
        assert(mg(cl(hp@, null()), cl(hp@, null()), false, false, true) =~= Seq::empty());
        assert(ents(hp@, s) =~= mg(a0, b0, false, false, true));
        assert(hp@.remove(lh).remove(rh).dom().contains(hd));
        let ghost nl = hp@[lh];
        let ghost nr = hp@[rh];
        let tracked mut hp2 = hp.take_rest(lh);
        let tracked mut hp3 = hp2.take_rest(rh);
        *left.heap.borrow_mut() = hp;
        *right.heap.borrow_mut() = hp2;
        *ret.heap.borrow_mut() = hp3;
        b_only_head(Map::empty(), lh, nl);
        b_only_head(Map::empty(), rh, nr);
        // what dropping the two maps may assume
        assert(left.done() && right.done());
    }
//@ fn skiplist::map::SkipMap::map_difference
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures
        ret.inv(),
        symmetric ==> is_sym(ret@, left@, right@), !symmetric ==> is_diff(ret@, left@, right@),
//@ entry
    let ghost lm = left.m();
    let ghost rm = right.m();
    let ghost lh = left.head;
    let ghost rh = right.head;
    let ghost a0 = left@;
    let ghost b0 = right@;
    let ghost sl = left.ss();
    let ghost sr = right.ss();
    let tracked mut hp = left.heap.borrow_mut().take();
    proof {
        hp.join(right.heap.borrow_mut().take());
        lemma_no_null(lm, lh, sl); lemma_no_null(rm, rh, sr);
        lemma_rest_start(lm, lh, sl); lemma_rest_start(rm, rh, sr);
        lemma_mg_sets(a0, b0);
    }
    let ghost mut s: Seq<Ptr> = Seq::empty();
    let ghost mut hd: Ptr = null();
//@ before 0 `loop`
    proof {
        hd = ret.head;
        s = seq![hd];
        lemma_m_start(lm, rm, hp@, hd, left.head, right.head, lh, rh, sl, sr);
        assert(curr_nodes@ =~= Seq::new(33, |i: int| hd));
        assert(ents(hp@, s) + mg(cl(hp@, left.head), cl(hp@, right.head), true, symmetric, false) =~= mg(a0, b0, true, symmetric, false));
    }
//@ loop 0
    invariant
        ret.head == hd, left_head == lh, right_head == rh,
        mst(hp@, hd, s, null(), left.head, right.head, lh, rh), cnt(hp@, s, curr_nodes@),
        ents(hp@, s) + mg(cl(hp@, left.head), cl(hp@, right.head), true, symmetric, false) == mg(a0, b0, true, symmetric, false),
        sorted(cl(hp@, left.head)), sorted(cl(hp@, right.head)),
        ret.len == ents(hp@, s).len(), ret.len + cl(hp@, left.head).len() + cl(hp@, right.head).len() <= usize::MAX,
    ensures
        left.head == null(), right.head == null(),
    decreases cl(hp@, left.head).len() + cl(hp@, right.head).len(),
//@ body 0
    let ghost m1 = hp@;
    let ghost p1 = left.head;
    let ghost q1 = right.head;
    let ghost a1 = cl(m1, p1);
    let ghost b1 = cl(m1, q1);
    proof {
        lemma_turn(m1, hd, s, p1, q1, lh, rh);
        if a1.len() > 0 { lemma_uncons(a1); }
        if b1.len() > 0 { lemma_uncons(b1); }
        
    }
//@ before 0 `ret . len`
    let ghost m2 = hp@;
    proof {
        assert(mst(m2, hd, s, next_node, left.head, right.head, lh, rh));
        assert(ents(m1, s) + keep(true, ent(m2, next_node), mg(cl(m2, left.head), cl(m2, right.head), true, symmetric, false)) =~= ents(m1, s).push(ent(m2, next_node)) + mg(cl(m2, left.head), cl(m2, right.head), true, symmetric, false));
    }
//@ before 0 `for`
    let ghost m3 = hp@;
    let ghost cn = curr_nodes@;
    proof { lemma_cleared(m2, m3, hd, s, cn, next_node, left.head, right.head, lh, rh); }
//@ loop 1
    invariant
        links_len == m3[next_node].links.len(), 1 <= links_len <= 33, cn.len() == 33, curr_nodes@.len() == 33,
        forall|l: int| 0 <= l < 33 ==> m3.dom().contains(#[trigger] cn[l]) && l < m3[cn[l]].links.len() && cn[l] != next_node,
        linked(m3, hp@, cn, curr_nodes@, next_node, i as int),
//@ body 1
    let ghost m4 = hp@;
    let ghost cn4 = curr_nodes@;
    proof {
        let nn = lemma_typed(next_node);
        assert(curr_nodes@[i as int] == cn[i as int]);
        assert(hp@.dom().contains(cn[i as int]));
    }
//@ bodyend 1
    proof {
        lemma_link_step(m3, m4, hp@, cn, cn4, next_node, i as int);
        assert(curr_nodes@ =~= cn4.update(i as int, next_node));
    }
//@ after 0 `for`
    proof {
        lemma_push(m3, hp@, hd, s, cn, curr_nodes@, next_node, left.head, right.head, lh, rh);
        s = s.push(next_node);
    }
//@ before 0 `ret`
    proof {
        lemma_m_end(hp@, hd, s, lh, rh);
        assert(mg(cl(hp@, null()), cl(hp@, null()), true, symmetric, false) =~= Seq::empty());
        assert(ents(hp@, s) =~= mg(a0, b0, true, symmetric, false));
        assert(hp@.remove(lh).remove(rh).dom().contains(hd));
        let ghost nl = hp@[lh];
        let ghost nr = hp@[rh];
        let tracked mut hp2 = hp.take_rest(lh);
        let tracked mut hp3 = hp2.take_rest(rh);
        *left.heap.borrow_mut() = hp;
        *right.heap.borrow_mut() = hp2;
        *ret.heap.borrow_mut() = hp3;
        b_only_head(Map::empty(), lh, nl);
        b_only_head(Map::empty(), rh, nr);
        // what dropping the two maps may assume
        assert(left.done() && right.done());
    }
//@ fn skiplist::map::SkipMap::difference
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures ret.inv(), is_diff(ret@, left@, right@),
//@ fn skiplist::map::SkipMap::symmetric_difference
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures ret.inv(), is_sym(ret@, left@, right@),
//@ fn skiplist::map::SkipMap::Add::add
    requires self.inv(), other.inv(), self@.len() + other@.len() <= usize::MAX,
    ensures ret.inv(), is_union(ret@, self@, other@),
//@ fn skiplist::map::SkipMap::Sub::sub
    requires self.inv(), other.inv(), self@.len() + other@.len() <= usize::MAX,
    ensures ret.inv(), is_diff(ret@, self@, other@),
//@ fn skiplist::map::SkipMap::clear
    requires old(self).inv0(),
    ensures final(self).inv0(), final(self)@ == Seq::<Entry<T, U>>::empty(),
//@ entry
    let ghost hd = self.head;
    proof { lemma_rest_start(self.heap@@, hd, self.ss()); }
    broadcast use { b_only_head };
//@ loop 0
    invariant
        self.head == hd, self.len == 0, rest(self.heap@@, hd, curr_node), hd != null(),
        self.heap@@.dom().contains(hd), self.heap@@[hd].key is None, self.heap@@[hd].value is None, self.heap@@[hd].links.len() == 33,
    ensures curr_node == null(),
    decreases cs(self.heap@@, curr_node).len(),
//@ body 0
    proof { lemma_rest(self.heap@@, hd, curr_node); }
//@ after 0 `while`
    proof { lemma_rest(self.heap@@, hd, curr_node); }
//@ fn skiplist::map::SkipMap::Drop::drop
    requires old(self).wf(),
    ensures forall|p: Ptr| !final(self).heap@@.dom().contains(p),
//@ entry
    proof { lemma_rest_start(self.heap@@, self.head, self.ss()); }
//@ loop 0
    invariant rest(self.heap@@, null(), self.head),
    ensures self.head == null(),
    decreases cs(self.heap@@, self.head).len(),
//@ body 0
    proof { lemma_rest(self.heap@@, null(), self.head); }
//@ after 0 `while`
    proof { lemma_rest(self.heap@@, null(), self.head); lemma_rest_null(self.heap@@, self.head); }
//@ inherent Ord
//@ spec entry
use crate::omap::rk;
//@ fn entry::Entry::Ord::cmp
    ensures
        ret == Ordering::Less <==> rk(*self) < rk(*other),
        ret == Ordering::Greater <==> rk(*self) > rk(*other),
        ret == Ordering::Equal <==> rk(*self) == rk(*other),


//@ spec skiplist::map
impl<T, U> SkipMapIntoIter<T, U> {
    pub open spec fn m(&self) -> M<T, U> { self.heap@@ }
    pub open spec fn cs(&self) -> Seq<Ptr> { cs(self.m(), self.current) }
    pub open spec fn inv(&self) -> bool {
        ok_chain(self.m(), self.current) && only(self.m(), self.cs())
    }
}
impl<T, U> View for SkipMapIntoIter<T, U> {
    type V = Seq<Entry<T, U>>;
    open spec fn view(&self) -> Seq<Entry<T, U>> { cents(self.m(), self.cs()) }
}
impl<'a, T, U> SkipMapIter<'a, T, U> {
    pub open spec fn m(&self) -> M<T, U> { self.heap@@ }
    pub open spec fn p(&self) -> Ptr { self.current.val(self.m()) }
    pub open spec fn inv(&self) -> bool { self.current.ok(self.m()) && ok_chain(self.m(), self.p()) }
}
impl<'a, T, U> View for SkipMapIter<'a, T, U> {
    type V = Seq<Entry<T, U>>;
    open spec fn view(&self) -> Seq<Entry<T, U>> { cents(self.m(), cs(self.m(), self.p())) }
}
impl<'a, T, U> SkipMapIterMut<'a, T, U> {
    pub open spec fn m(&self) -> M<T, U> { (*self.heap@)@ }
    // the heap as it will be when the borrow ends
    #[verifier::prophetic]
    pub open spec fn fm(&self) -> M<T, U> { final(self.heap@)@ }
    pub open spec fn p(&self) -> Ptr { self.current.val(self.m()) }
    pub open spec fn cs(&self) -> Seq<Ptr> { cs(self.m(), self.p()) }
    pub open spec fn inv(&self) -> bool {
        self.current.ok(self.m()) && ok_chain(self.m(), self.p())
    }
    pub open spec fn cur(&self) -> Seq<Entry<T, U>> { cents(self.m(), self.cs()) }
    #[verifier::prophetic]
    pub open spec fn fut(&self) -> Seq<Entry<T, U>> { cents(self.fm(), self.cs()) }
    // nothing but the entries still to come changes until the borrow ends
    #[verifier::prophetic]
    pub open spec fn keeps(&self) -> bool {
        keeps0(self.m(), self.fm(), self.cs())
    }
}
// when the iterator is dropped
proof fn lemma_iter_mut_dropped<T, U>(it: SkipMapIterMut<'_, T, U>)
    requires it.inv(), final(it.heap@)@ == (*it.heap@)@,
    ensures it.keeps(), it.fut() == it.cur(),
{
    reveal(same_links); reveal(keeps0);
    assert forall|p: Ptr| #[trigger] it.cs().contains(p) implies live(it.fm(), p) by { let i = ix(it.cs(), p); assert(it.cs()[i] == p); }
}
//@ fn skiplist::map::SkipMap::iter
    requires self.wf(),
    ensures ret.inv(), ret@ == self@,
//@ entry
    broadcast use { b_repr_chain };
//@ fn skiplist::map::SkipMapIter::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some((k, v)) => old(self)@ =~= seq![Entry { key: *k, value: *v }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ entry
    broadcast use { b_chain_step };
//@ fn skiplist::map::SkipMap::IntoIterator::into_iter
    requires self.wf(),
    ensures ret.inv(), ret@ == self@,
//@ entry
    let ghost m0 = self.heap@@;
    let tracked mut hp = self.heap.get();
    proof { assert(m0.dom().contains(self.head)); }
    broadcast use { b_repr_chain, b_chain_rm, b_only_head };
//@ before 0 `ret`
    // what is left is an empty head: dropping the rest of the map releases it and nothing else
    assert(repr(hp@, self.head, seq![self.head]));
//@ fn skiplist::map::SkipMapIntoIter::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some((k, v)) => old(self)@ =~= seq![Entry { key: k, value: v }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ entry
    broadcast use { b_chain_step, b_chain_frame, b_chain_rm, b_only_rm };
//@ fn skiplist::map::SkipMap::iter_mut
    requires old(self).inv0(),
    ensures
        ret.inv(), ret.cur() == old(self)@,
        ret.keeps() ==> final(self).inv0() && ret.fut() == final(self)@,
//@ entry
    broadcast use { b_repr_chain, b_keeps_repr };
//@ fn skiplist::map::SkipMapIterMut::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self).keeps() ==> old(self).keeps(),
        match ret {
            Some((k, v)) => {
                &&& old(self).cur() =~= seq![Entry { key: *k, value: *v }] + final(self).cur()
                &&& old(self).fut() =~= seq![Entry { key: *k, value: *final(v) }] + final(self).fut()
            },
            None => old(self).cur().len() == 0 && final(self).cur().len() == 0 && old(self).fut().len() == 0,
        },
//@ entry
    broadcast use { b_chain_step, b_chain_frame, b_keeps_step };
//@ fn skiplist::map::SkipMapIntoIter::Drop::drop
    requires old(self).inv(),
    ensures forall|p: Ptr| !final(self).heap@@.dom().contains(p),
//@ entry
    proof { lemma_rest_iter(self.heap@@, self.current); }
//@ loop 0
    invariant rest(self.heap@@, null(), self.current),
    ensures self.current == null(),
    decreases cs(self.heap@@, self.current).len(),
//@ body 0
    proof { lemma_rest(self.heap@@, null(), self.current); }
//@ after 0 `while`
    proof { lemma_rest(self.heap@@, null(), self.current); lemma_rest_null(self.heap@@, self.current); }
