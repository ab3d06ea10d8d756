//@ # RadixMap and RadixSet
//@ include vp.vs
//@ inherent Iterator
//@ inherent Index
//@ inherent IndexMut
//@ inherent Default
//@ inherent IntoIterator
//@ file src/radix/node.rs as radix::node
//@ file src/radix/tree.rs as radix::tree
//@ file src/radix/map.rs as radix::map
//@ file src/radix/set.rs as radix::set
//@ prelude
pub mod radixlib {
use vstd::prelude::*;
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&s@[i],), #[trigger] r@[i]);
// `a.iter().zip(b.iter()).position(|p| p.0 != p.1)`: the first index at which a and b differ
pub open spec fn differ(a: Seq<u8>, b: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < a.len() && i < b.len() && a[i as int] != b[i as int] && a.subrange(0, i as int) == b.subrange(0, i as int),
        None => forall|j: int| 0 <= j < a.len() && j < b.len() ==> a[j] == b[j],
    }
}
pub fn mismatch(a: &[u8], b: &[u8]) -> (r: Option<usize>)
    ensures differ(a@, b@, r),
{
    let mut i: usize = 0;
    while i < a.len() && i < b.len()
        invariant i <= a@.len(), i <= b@.len(), a@.subrange(0, i as int) == b@.subrange(0, i as int),
        decreases a@.len() - i,
    {
        if a[i] != b[i] { return Some(i); }
        i += 1;
        assert(a@.subrange(0, i as int) =~= a@.subrange(0, i - 1).push(a@[i - 1]));
        assert(b@.subrange(0, i as int) =~= b@.subrange(0, i - 1).push(b@[i - 1]));
    }
    assert forall|j: int| 0 <= j < a@.len() && j < b@.len() implies a@[j] == b@[j] by {
        assert(a@.subrange(0, i as int)[j] == b@.subrange(0, i as int)[j]);
    }
    None
}
// `Vec::extend` and `Vec::extend_from_slice` on bytes
pub fn extend(a: &mut Vec<u8>, b: &Vec<u8>)
    ensures final(a)@ == old(a)@ + b@,
{
    a.extend_from_slice(b.as_slice());
    assert(a@ =~= old(a)@ + b@);
}
pub fn to_vec(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@,
{
    let r = s.to_vec();
    assert(r@ =~= s@);
    r
}
pub open spec fn pre(p: Seq<u8>, k: Seq<u8>) -> bool { p.len() <= k.len() && k.subrange(0, p.len() as int) == p }
pub open spec fn cut(k: Seq<u8>, n: int) -> Seq<u8> { k.subrange(n, k.len() as int) }
}
//@ spec radix::node
use crate::radixlib::*;
use crate::radix::lem::*;
broadcast use crate::radix::lem::group_nz;
//@ spec radix::lem
use crate::radixlib::*;
use crate::radix::node::Node;
use crate::radix::tree::Tree;
// the value under key k (relative to the node, to the list of siblings)
pub open spec fn nlk<T>(n: Node<T>, k: Seq<u8>) -> Option<T>
    decreases n
{
    if pre(n.key@, k) { if k.len() == n.key@.len() { n.value } else { tlk(n.child, cut(k, n.key@.len() as int)) } } else { None }
}
pub open spec fn tlk<T>(t: Tree<T>, k: Seq<u8>) -> Option<T>
    decreases t
{
    match t {
        None => None,
        Some(n) => if k.len() > 0 && n.key@.len() > 0 && n.key@[0] == k[0] { nlk(*n, k) } else { tlk(n.next, k) },
    }
}
pub open spec fn olk<T>(t: Tree<T>, k: Seq<u8>) -> Option<T> { match t { None => None, Some(n) => nlk(*n, k) } }
// path compression: a value, or at least two children
pub open spec fn full<T>(n: Node<T>) -> bool { n.value is Some || (n.child matches Some(c) && c.next is Some) }
// siblings: non-empty keys, first bytes increasing from lo
pub open spec fn wft<T>(t: Tree<T>, lo: int) -> bool
    decreases t
{
    match t {
        None => true,
        Some(n) => n.key@.len() > 0 && n.key@[0] >= lo && full(*n) && wft(n.child, 0) && wft(n.next, n.key@[0] + 1),
    }
}
pub open spec fn nz<T>(t: Tree<T>) -> bool
    decreases t
{
    match t { None => true, Some(n) => n.key@.len() > 0 && nz(n.next) }
}
pub open spec fn root<T>(t: Tree<T>) -> bool {
    match t {
        None => true,
        Some(n) => n.next is None && wft(n.child, 0) && (n.key@.len() > 0 ==> full(*n)),
    }
}
pub open spec fn subl<T>(t: Tree<T>, b: u8) -> Tree<T>
    decreases t
{
    match t { None => None, Some(n) => if n.key@[0] == b { t } else { subl(n.next, b) } }
}
pub open spec fn plug<T>(t: Tree<T>, b: u8, x: Tree<T>) -> Tree<T>
    decreases t
{
    match t { None => x, Some(n) => if n.key@[0] == b { x } else { Some(Box::new(Node { next: plug(n.next, b, x), ..*n })) } }
}
pub open spec fn insl<T>(t: Tree<T>, c: Node<T>) -> Tree<T>
    decreases t
{
    match t {
        None => Some(Box::new(c)),
        Some(n) => if n.key@[0] > c.key@[0] { Some(Box::new(Node { next: t, ..c })) } else { Some(Box::new(Node { next: insl(n.next, c), ..*n })) },
    }
}
pub open spec fn lst<T>(t: Tree<T>) -> Tree<T>
    decreases t
{
    match t { None => None, Some(n) => if n.next is None { t } else { lst(n.next) } }
}
pub open spec fn split<T>(n: Node<T>, i: int, a: Vec<u8>, b: Vec<u8>) -> Node<T> {
    Node { key: a, value: None, next: n.next, child: Some(Box::new(Node { key: b, value: n.value, next: None, child: n.child })) }
}
//@ fn radix::node::Node::new
    ensures ret == (Node { key, value, next: None, child: None }),
//@ fn radix::node::Node::contains
    requires wft(self.child, 0),
    ensures ret == (subl(self.child, byte) is Some),
//@ fn radix::node::Node::get
    requires wft(self.child, 0),
    ensures *ret == subl(self.child, byte),
//@ loop 0
    invariant subl(*curr, byte) == subl(self.child, byte), nz(*curr),
    decreases *curr,
//@ fn radix::node::Node::get_mut
    requires wft(old(self).child, 0),
    ensures
        *ret == subl(old(self).child, byte),
        final(self).child == plug(old(self).child, byte, *final(ret)),
        final(self).key == old(self).key, final(self).value == old(self).value, final(self).next == old(self).next,
//@ loop 0
    invariant subl(*curr, byte) == subl(old(self).child, byte), nz(*curr),
        forall|x: Tree<T>| plug(*curr, byte, x) == *final(curr) ==> #[trigger] plug(old(self).child, byte, x) == after_borrow(self).child,
        after_borrow(self).key == old(self).key, after_borrow(self).value == old(self).value, after_borrow(self).next == old(self).next,
    decreases *curr,
//@ fn radix::node::Node::split
    requires split_index < old(self).key@.len(),
    ensures splitn(*old(self), *final(self), split_index as int),
//@ fn radix::node::Node::insert_child
    requires wft(old(self).child, 0), child.key@.len() > 0,
    ensures
        final(self).child == insl(old(self).child, child),
        final(self).key == old(self).key, final(self).value == old(self).value, final(self).next == old(self).next,
//@ fn radix::node::insert_inner
    requires nz(*old(tree)), new_node.key@.len() > 0,
    ensures *final(tree) == insl(*old(tree), *new_node),
    decreases *old(tree),
//@ fn radix::node::Node::merge
    ensures mrg(*old(self), *final(self)),
//@ fn radix::node::Node::is_leaf
    ensures ret == (self.child is None),
//@ fn radix::node::Node::get_replacement_tree
    ensures ret == old(self).next, final(self).next is None,
//@ fn radix::node::Node::min
    ensures *ret == self.child,
//@ fn radix::node::Node::max
    ensures *ret == lst(self.child),
//@ loop 0
    invariant lst(*curr_tree) == lst(self.child),
    ensures *curr_tree is None,
    decreases *curr_tree,
//@ subst radix::node::Node::merge `self.key.extend(child_node.key.iter())` => `crate::radixlib::extend(&mut self.key, &child_node.key)`
//@ subst radix::node::push_all_children_inner `curr_key.extend(node.key.iter())` => `crate::radixlib::extend(&mut curr_key, &node.key)`
//@ subst radix::tree::insert `key.to_vec()` => `crate::radixlib::to_vec(key)`
//@ subst radix::tree::remove `key.to_vec()` => `crate::radixlib::to_vec(key)`
//@ subst radix::tree::insert `node.key.iter().zip(key.iter()).position(|pair| pair.0 != pair.1)` => `crate::radixlib::mismatch(node.key.as_slice(), key)`
//@ subst radix::tree::remove `node.key.iter().zip(key[index..].iter()).position(|pair| pair.0 != pair.1)` => `crate::radixlib::mismatch(node.key.as_slice(), &key[index..])`
//@ subst radix::tree::get `node.key.iter().zip(key[index..].iter()).position(|pair| pair.0 != pair.1)` => `crate::radixlib::mismatch(node.key.as_slice(), &key[index..])`
//@ subst radix::tree::get_mut `node.key.iter().zip(key[index..].iter()).position(|pair| pair.0 != pair.1)` => `crate::radixlib::mismatch(node.key.as_slice(), &key[index..])`
//@ subst radix::tree::get_longest_prefix `node.key.iter().zip(key[index..].iter()).position(|pair| pair.0 != pair.1)` => `crate::radixlib::mismatch(node.key.as_slice(), &key[index..])`
//@ subst radix::tree::get_longest_prefix `curr_key.extend(node.key.iter())` => `crate::radixlib::extend(&mut curr_key, &node.key)`
//@ subst radix::map::RadixMap::iter_mut `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ subst radix::map::RadixMapIterMut::Iterator::next `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ spec radix::lem
// the entries in order: key order
pub open spec fn own<T>(v: Option<T>, k: Seq<u8>) -> Seq<(Seq<u8>, T)> { match v { Some(v) => seq![(k, v)], None => Seq::empty() } }
pub open spec fn tseq<T>(t: Tree<T>, p: Seq<u8>) -> Seq<(Seq<u8>, T)>
    decreases t
{
    match t { None => Seq::empty(), Some(n) => own(n.value, p + n.key@) + tseq(n.child, p + n.key@) + tseq(n.next, p) }
}
pub open spec fn ks<T>(s: Seq<(Seq<u8>, T)>) -> Seq<Seq<u8>> { s.map_values(|e: (Seq<u8>, T)| e.0) }
pub open spec fn kk(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|e: Vec<u8>| e@) }
pub broadcast proof fn lemma_ks_add<T>(a: Seq<(Seq<u8>, T)>, b: Seq<(Seq<u8>, T)>)
    ensures #[trigger] ks(a + b) == ks(a) + ks(b),
{ assert(ks(a + b) =~= ks(a) + ks(b)); }
pub broadcast proof fn lemma_kk_push(a: Seq<Vec<u8>>, b: Vec<u8>)
    ensures #[trigger] kk(a.push(b)) == kk(a).push(b@),
{ assert(kk(a.push(b)) =~= kk(a).push(b@)); }
pub broadcast proof fn lemma_ks_own<T>(v: Option<T>, k: Seq<u8>)
    ensures #[trigger] ks(own(v, k)) == (if v is Some { seq![k] } else { Seq::empty() }),
{ assert(ks(own(v, k)) =~= (if v is Some { seq![k] } else { Seq::empty() })); }
pub broadcast proof fn lemma_back(a: Seq<u8>, b: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + b).subrange(0, n) == a,
{ assert((a + b).subrange(0, n) =~= a); }
pub broadcast group group_keys { lemma_back, lemma_ks_add, lemma_kk_push, lemma_ks_own }
//@ fn radix::node::Node::push_all_children
    ensures kk(final(keys)@) =~= kk(old(keys)@) + ks(tseq(self.child, curr_key@)),
//@ fn radix::node::push_all_children_inner
    ensures kk(final(keys)@) =~= kk(old(keys)@) + ks(tseq(*tree, curr_key@)),
    decreases *tree,
//@ entry
    broadcast use group_keys;
//@ spec radix::tree
use crate::radixlib::*;
use crate::radix::lem::*;
broadcast use crate::radix::lem::group_radix;
//@ spec radix::lem
// the tree is a sibling that matches the key's first byte, with the siblings after it
pub open spec fn hd<T>(t: Tree<T>, k: Seq<u8>) -> bool { t matches Some(n) && n.key@.len() > 0 && k.len() > 0 && n.key@[0] == k[0] && wft(t, 0) }
pub open spec fn nxt<T>(t: Tree<T>) -> Tree<T> { match t { None => None, Some(n) => n.next } }
pub open spec fn chw<T>(t: Tree<T>) -> bool { t matches Some(n) ==> wft(n.child, 0) }
// what a node-level function may be called on: the root, or the sibling that matches the first byte of the key
pub open spec fn at<T>(t: Tree<T>, q: Seq<u8>) -> bool { chw(t) && (root(t) || hd(t, q)) }
// n holds what o holds, and v under key
pub open spec fn insp<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T) -> bool {
    &&& forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { Some(v) } else { olk(o, k) })
    &&& root(o) ==> root(n)
    &&& hd(o, key) ==> hd(n, key) && nxt(n) == nxt(o)
}
// n holds what o holds, except under key
pub open spec fn remp<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>) -> bool {
    &&& o is None ==> n is None
    &&& root(o) ==> root(n) && forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { None } else { olk(o, k) })
    &&& hd(o, key) ==> wft(n, key[0] as int) && forall|k: Seq<u8>| #[trigger] tlk(n, k) == (if k == key { None } else { tlk(o, k) })
}
pub open spec fn leafn<T>(c: Node<T>, key: Seq<u8>, v: T) -> bool { c.key@ =~= key && c.value == Some(v) && c.next is None && c.child is None }
// what insp says of a single node
pub open spec fn insn<T>(a: Node<T>, b: Node<T>, key: Seq<u8>, v: T) -> bool {
    &&& b.next == a.next && full(b) && wft(b.child, 0)
    &&& forall|k: Seq<u8>| #[trigger] nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) })
    &&& a.key@.len() > 0 && key.len() > 0 && a.key@[0] == key[0] ==> b.key@.len() > 0 && b.key@[0] == key[0]
}
pub proof fn lemma_insn<T>(a: Node<T>, b: Node<T>, o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires o == Some(Box::new(a)), n == Some(Box::new(b)), at(o, key), insn(a, b, key, v),
    ensures insp(o, n, key, v),
{
    assert forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { Some(v) } else { olk(o, k) }) by { assert(nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) })); }
    if hd(o, key) { assert(wft(b.next, b.key@[0] + 1)); assert(wft(n, 0)); }
}
pub broadcast proof fn lemma_ins_none<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires o is None, n matches Some(b) && leafn(*b, key, v),
    ensures #[trigger] insp(o, n, key, v),
{
    let b = *(n->0);
    assert forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { Some(v) } else { olk(o, k) }) by {
        assert(tlk(b.child, cut(k, key.len() as int)) is None);
        lemma_pre(b.key@, k);
    }
}
pub broadcast proof fn lemma_ins_eq<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires
        at(o, key),
        o matches Some(a) && (n matches Some(b) && a.key@ == key && *b == (Node { value: Some(v), ..*a })),
    ensures #[trigger] insp(o, n, key, v),
{
    let a = *(o->0);
    let b = *(n->0);
    assert forall|k: Seq<u8>| #[trigger] nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) }) by { lemma_pre(key, k); lemma_pre(key, key); }
    lemma_insn(a, b, o, n, key, v);
}
// the key continues into the child x0 = subl(a.child, byte), which becomes x
pub open spec fn deep<T>(a: Node<T>, b: Node<T>, x: Tree<T>, key: Seq<u8>) -> bool {
    let byte = key[a.key@.len() as int];
    key.len() > a.key@.len() && pre(a.key@, key) && b == (Node { child: plug(a.child, byte, x), ..a })
}
pub proof fn lemma_nlk_plug<T>(a: Node<T>, x: Tree<T>, key: Seq<u8>, k: Seq<u8>)
    requires
        wft(a.child, 0), key.len() > a.key@.len(), pre(a.key@, key),
        wft(x, key[a.key@.len() as int] as int),
        forall|q: Seq<u8>| q.len() > 0 && q[0] != key[a.key@.len() as int] ==> #[trigger] tlk(x, q) == tlk(subl(a.child, key[a.key@.len() as int]), q),
    ensures ({
        let b = Node { child: plug(a.child, key[a.key@.len() as int], x), ..a };
        let q = cut(k, a.key@.len() as int);
        nlk(b, k) == (if pre(a.key@, k) && k.len() > a.key@.len() && k[a.key@.len() as int] == key[a.key@.len() as int] { tlk(x, q) } else { nlk(a, k) })
    }),
{
    let byte = key[a.key@.len() as int];
    let b = Node { child: plug(a.child, byte, x), ..a };
    let q = cut(k, a.key@.len() as int);
    if pre(a.key@, k) && k.len() > a.key@.len() {
        lemma_tlk_plug(a.child, byte, x, q);
        assert(q[0] == k[a.key@.len() as int]);
        assert(nlk(b, k) == tlk(b.child, q));
        assert(nlk(a, k) == tlk(a.child, q));
    }
}
pub proof fn lemma_cut_eq(p: Seq<u8>, k: Seq<u8>, q: Seq<u8>)
    requires pre(p, k), pre(p, q),
    ensures (cut(k, p.len() as int) == cut(q, p.len() as int)) <==> k == q,
{ if k != q { if cut(k, p.len() as int) == cut(q, p.len() as int) { lemma_join(p, k, q, p.len() as int); } } }
pub proof fn lemma_full_plug<T>(t: Tree<T>, b: u8, x: Tree<T>)
    requires subl(t, b) is Some, x matches Some(n) && nxt(subl(t, b)) == n.next,
    ensures plug(t, b, x) is Some, nxt(plug(t, b, x)) is Some == nxt(t) is Some,
    decreases t,
{
    let n = *(t->0);
    if n.key@[0] == b { } else { lemma_full_plug(n.next, b, x); }
}
pub proof fn lemma_tlk_miss<T>(t: Tree<T>, lo: int, k: Seq<u8>)
    requires wft(t, lo), k.len() == 0 || k[0] < lo,
    ensures tlk(t, k) is None,
    decreases t,
{ match t { None => {}, Some(n) => lemma_tlk_miss(n.next, n.key@[0] + 1, k) } }
// a list that starts with the byte: looking for it is looking in its first node
pub proof fn lemma_tlk_hd<T>(t: Tree<T>, k: Seq<u8>, key: Seq<u8>)
    requires hd(t, key),
    ensures tlk(t, k) == (if k.len() > 0 && k[0] == key[0] { olk(t, k) } else { tlk(nxt(t), k) }),
        k.len() > 0 && k[0] == key[0] ==> tlk(nxt(t), k) is None,
{
    let n = *(t->0);
    if k.len() > 0 && k[0] == key[0] { lemma_tlk_miss(n.next, n.key@[0] + 1, k); }
}
pub broadcast proof fn lemma_ins_deep<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires
        at(o, key), o is Some, n is Some,
        exists|x: Tree<T>| (n->0).child == #[trigger] plug((o->0).child, key[(o->0).key@.len() as int], x) && deep(*(o->0), *(n->0), x, key) && ({
            let a = *(o->0);
            let x0 = subl(a.child, key[a.key@.len() as int]);
            x0 is Some && insp(x0, x, cut(key, a.key@.len() as int), v)
        }),
    ensures #[trigger] insp(o, n, key, v),
{
    let a = *(o->0);
    let b = *(n->0);
    let l = a.key@.len() as int;
    let byte = key[l];
    let x0 = subl(a.child, byte);
    let q = cut(key, l);
    let x = choose|x: Tree<T>| b.child == #[trigger] plug(a.child, byte, x) && deep(a, b, x, key) && insp(x0, x, q, v);
    lemma_sub(a.child, byte, 0);
    lemma_pre(a.key@, key);
    assert(q[0] == byte);
    assert(hd(x0, q));
    assert(hd(x, q) && nxt(x) == nxt(x0));
    assert(wft(x, byte as int)) by { lemma_sub(x, byte, 0); }
    assert forall|k: Seq<u8>| k.len() > 0 && k[0] != byte implies #[trigger] tlk(x, k) == tlk(x0, k) by { lemma_tlk_hd(x, k, q); lemma_tlk_hd(x0, k, q); }
    assert forall|k: Seq<u8>| #[trigger] nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) }) by {
        lemma_nlk_plug(a, x, key, k);
        let c = cut(k, l);
        if pre(a.key@, k) && k.len() > l && k[l] == byte {
            assert(c[0] == byte);
            lemma_cut_eq(a.key@, k, key);
            lemma_tlk_hd(x, c, q);
            assert(olk(x, c) == (if c == q { Some(v) } else { olk(x0, c) }));
            lemma_nlk_sub(a, byte, k);
        }
    }
    lemma_plug(a.child, byte, x, 0);
    lemma_full_plug(a.child, byte, x);
    assert(root(o) && a.key@.len() == 0 ==> root(n));
    if a.key@.len() > 0 { assert(full(a)); assert(full(b)); }
    if a.key@.len() == 0 {
        assert forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { Some(v) } else { olk(o, k) }) by { assert(nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) })); }
    } else {
        lemma_insn(a, b, o, n, key, v);
    }
}
// the key continues in a byte no child starts with
pub broadcast proof fn lemma_ins_child<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires
        at(o, key), o is Some, n is Some,
        key.len() > (o->0).key@.len(), pre((o->0).key@, key),
        subl((o->0).child, key[(o->0).key@.len() as int]) is None,
        exists|c: Node<T>| leafn(c, cut(key, (o->0).key@.len() as int), v) && *(n->0) == (Node { child: #[trigger] insl((o->0).child, c), ..*(o->0) }),
    ensures #[trigger] insp(o, n, key, v),
{
    let a = *(o->0);
    let b = *(n->0);
    let l = a.key@.len() as int;
    let byte = key[l];
    let c = choose|c: Node<T>| leafn(c, cut(key, l), v) && b == (Node { child: #[trigger] insl(a.child, c), ..a });
    assert(c.key@[0] == byte);
    lemma_wft_insl(a.child, c, 0);
    lemma_insl_two(a.child, c);
    assert forall|k: Seq<u8>| #[trigger] nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) }) by {
        let q = cut(k, l);
        if pre(a.key@, k) && k.len() > l {
            lemma_tlk_insl(a.child, c, q);
            assert(nlk(b, k) == tlk(b.child, q));
            assert(nlk(a, k) == tlk(a.child, q));
            lemma_cut_eq(a.key@, k, key);
            lemma_pre(c.key@, q);
            lemma_sub(a.child, byte, 0);
            assert(tlk(c.child, cut(q, c.key@.len() as int)) is None);
            if q[0] == byte { assert(tlk(a.child, q) == olk(subl(a.child, byte), q)); }
        }
    }
    if a.key@.len() > 0 {
        assert(full(a));
        lemma_insn(a, b, o, n, key, v);
    } else {
        assert forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { Some(v) } else { olk(o, k) }) by { assert(nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) })); }
    }
}
// what Node::split does
pub open spec fn splitn<T>(a: Node<T>, b: Node<T>, i: int) -> bool {
    let c = b.child->0;
    &&& 0 <= i < a.key@.len()
    &&& b.child is Some
    &&& b.key@ == a.key@.subrange(0, i) && b.value is None && b.next == a.next
    &&& c.key@ == cut(a.key@, i) && c.value == a.value && c.child == a.child && c.next is None
}
pub broadcast proof fn lemma_split<T>(a: Node<T>, b: Node<T>, i: int)
    requires #[trigger] splitn(a, b, i), wft(a.child, 0), full(a),
    ensures
        wft(b.child, 0), nxt(b.child) is None,
        forall|k: Seq<u8>| #[trigger] nlk(b, k) == nlk(a, k),
        b.child is Some, (b.child->0).key@[0] == a.key@[i],
        b.key@.len() == i, 
        forall|x: u8| x != a.key@[i] ==> #[trigger] subl(b.child, x) is None,
{
    let c = *(b.child->0);
    assert(full(c));
    assert(c.key@[0] == a.key@[i]);
    assert(wft(c.next, c.key@[0] + 1));
    assert forall|k: Seq<u8>| #[trigger] nlk(b, k) == nlk(a, k) by {
        assert(tlk(c.next, cut(k, i)) is None);
        if pre(b.key@, k) {
            lemma_pre_cut(a.key@, k, i);
            if k.len() == i { } else {
                let q = cut(k, i);
                assert(nlk(b, k) == tlk(b.child, q));
                lemma_pre(c.key@, q);
                assert(tlk(b.child, q) == nlk(c, q));
                if pre(a.key@, k) {
                    lemma_cut_cut(k, i, a.key@.len() - i);
                    assert(pre(c.key@, q));
                    assert(nlk(c, q) == nlk(a, k));
                } else { assert(nlk(c, q) is None); }
            }
        } else if pre(a.key@, k) {
            assert(k.subrange(0, a.key@.len() as int).subrange(0, i) =~= k.subrange(0, i));
        }
    }
    assert forall|x: u8| x != a.key@[i] implies #[trigger] subl(b.child, x) is None by { assert(subl(c.next, x) is None); }
}
pub broadcast proof fn lemma_ins_split_up<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires
        at(o, key), o is Some, n is Some,
        exists|m: Node<T>| #[trigger] splitn(*(o->0), m, key.len() as int) && *(n->0) == (Node { value: Some(v), ..m }),
        pre(key, (o->0).key@),
    ensures #[trigger] insp(o, n, key, v),
{
    let a = *(o->0);
    let b = *(n->0);
    let m = choose|m: Node<T>| #[trigger] splitn(a, m, key.len() as int) && b == (Node { value: Some(v), ..m });
    assert(full(a));
    lemma_split(a, m, key.len() as int);
    assert(m.key@ =~= key);
    assert forall|k: Seq<u8>| #[trigger] nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) }) by {
        assert(nlk(m, k) == nlk(a, k));
        lemma_pre(key, k);
        lemma_pre(key, key);
    }
    if key.len() > 0 { assert(b.key@[0] == a.key@[0]); }
    lemma_insn(a, b, o, n, key, v);
}
pub broadcast proof fn lemma_ins_split<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires
        at(o, key), o is Some, n is Some,
        exists|m: Node<T>, c: Node<T>, i: int| #[trigger] splitn(*(o->0), m, i) && i < key.len() && key.subrange(0, i) == (o->0).key@.subrange(0, i) && key[i] != (o->0).key@[i]
            && leafn(c, cut(key, i), v) && *(n->0) == (Node { child: #[trigger] insl(m.child, c), ..m }),
    ensures #[trigger] insp(o, n, key, v),
{
    let a = *(o->0);
    let b = *(n->0);
    let (m, c, i) = choose|m: Node<T>, c: Node<T>, i: int| #[trigger] splitn(a, m, i) && i < key.len() && key.subrange(0, i) == a.key@.subrange(0, i) && key[i] != a.key@[i]
            && leafn(c, cut(key, i), v) && b == (Node { child: #[trigger] insl(m.child, c), ..m });
    assert(full(a));
    lemma_split(a, m, i);
    assert(c.key@[0] == key[i]);
    lemma_wft_insl(m.child, c, 0);
    lemma_insl_two(m.child, c);
    assert forall|k: Seq<u8>| #[trigger] nlk(b, k) == (if k == key { Some(v) } else { nlk(a, k) }) by {
        assert(nlk(m, k) == nlk(a, k));
        let q = cut(k, i);
        if pre(m.key@, k) && k.len() > i {
            lemma_tlk_insl(m.child, c, q);
            assert(nlk(b, k) == tlk(b.child, q));
            assert(nlk(m, k) == tlk(m.child, q));
            lemma_cut_eq(m.key@, k, key);
            lemma_pre(c.key@, q);
            lemma_sub(m.child, key[i], 0);
            assert(tlk(c.child, cut(q, c.key@.len() as int)) is None);
            if q[0] == key[i] { assert(tlk(m.child, q) == olk(subl(m.child, key[i]), q)); }
        }
    }
    if i > 0 {
        assert(a.key@.subrange(0, i)[0] == a.key@[0]);
        assert(key.subrange(0, i)[0] == key[0]);
    }
    lemma_insn(a, b, o, n, key, v);
}
// Node::merge
pub open spec fn mrg<T>(a: Node<T>, m: Node<T>) -> bool {
    m.next == a.next && match a.child {
        Some(c) => if a.value is None && c.next is None { m.key@ == a.key@ + c.key@ && m.value == c.value && m.child == c.child } else { m == a },
        None => m == a,
    }
}
// a1 is a with the key taken out below it, before merging
pub open spec fn rem1<T>(a: Node<T>, a1: Node<T>, key: Seq<u8>) -> bool {
    &&& a1.key@ == a.key@ && a1.next == a.next && wft(a1.child, 0)
    &&& forall|k: Seq<u8>| #[trigger] nlk(a1, k) == (if k == key { None } else { nlk(a, k) })
}
pub broadcast proof fn lemma_rem_none<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>)
    requires o == n, olk(o, key) is None,
    ensures #[trigger] remp(o, n, key),
{
    if hd(o, key) {
        lemma_tlk_hd(o, key, key);
        assert(wft((o->0).next, (o->0).key@[0] + 1));
    }
}
pub broadcast proof fn lemma_mrg<T>(a: Node<T>, m: Node<T>)
    requires #[trigger] mrg(a, m), wft(a.child, 0),
    ensures
        m.next == a.next, wft(m.child, 0), full(m) || m.value is None && m.child is None,
        m.key@.len() >= a.key@.len(), a.key@.len() > 0 ==> m.key@[0] == a.key@[0],
        m.key@.len() == 0 ==> m == a,
        forall|k: Seq<u8>| #[trigger] nlk(m, k) == nlk(a, k),
{
    match a.child {
        Some(c) => if a.value is None && c.next is None {
            let l = a.key@.len() as int;
            assert(m.key@.subrange(0, l) =~= a.key@);
            assert(cut(m.key@, l) =~= c.key@);
            assert forall|k: Seq<u8>| #[trigger] nlk(m, k) == nlk(a, k) by {
                if pre(a.key@, k) {
                    let q = cut(k, l);
                    lemma_pre_cut(m.key@, k, l);
                    lemma_pre(c.key@, q);
                    assert(tlk(c.next, q) is None);
                    if k.len() > l {
                        assert(tlk(a.child, q) == nlk(*c, q));
                        if pre(m.key@, k) { lemma_cut_cut(k, l, c.key@.len() as int); }
                    }
                } else if pre(m.key@, k) {
                    assert(k.subrange(0, m.key@.len() as int).subrange(0, l) =~= k.subrange(0, l));
                }
            }
        },
        None => {},
    }
}
pub broadcast proof fn lemma_rem_fin<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>)
    requires
        at(o, key), o is Some,
        exists|a1: Node<T>, m: Node<T>| #[trigger] mrg(a1, m) && rem1(*(o->0), a1, key) && n == (if m.value is None && m.child is None { m.next } else { Some(Box::new(m)) }),
    ensures #[trigger] remp(o, n, key),
{
    let a = *(o->0);
    let (a1, m) = choose|a1: Node<T>, m: Node<T>| #[trigger] mrg(a1, m) && rem1(a, a1, key) && n == (if m.value is None && m.child is None { m.next } else { Some(Box::new(m)) });
    lemma_mrg(a1, m);
    assert forall|k: Seq<u8>| #[trigger] nlk(m, k) == (if k == key { None } else { nlk(a, k) }) by { assert(nlk(m, k) == nlk(a1, k)); }
    if m.value is None && m.child is None {
        assert forall|k: Seq<u8>| (if k == key { None } else { nlk(a, k) }) is None by { assert(nlk(m, k) is None) by { assert(tlk(m.child, cut(k, m.key@.len() as int)) is None); } }
    }
    if root(o) {
        assert forall|k: Seq<u8>| #[trigger] olk(n, k) == (if k == key { None } else { olk(o, k) }) by {
            assert(nlk(m, k) == (if k == key { None } else { nlk(a, k) }));
            if n is None { assert(tlk(m.child, cut(k, m.key@.len() as int)) is None); }
        }
    }
    if hd(o, key) {
        assert(wft(a.next, a.key@[0] + 1));
        lemma_sub0(a.next, a.key@[0] + 1, key[0] as int);
        assert forall|k: Seq<u8>| #[trigger] tlk(n, k) == (if k == key { None } else { tlk(o, k) }) by {
            lemma_tlk_hd(o, k, key);
            lemma_tlk_hd(o, key, key);
            if k.len() > 0 && k[0] == key[0] {
                lemma_tlk_miss(a.next, a.key@[0] + 1, k);
                assert(nlk(m, k) == (if k == key { None } else { nlk(a, k) }));
                if n == m.next { assert(tlk(m.child, cut(k, m.key@.len() as int)) is None); } else { assert(tlk(n, k) == nlk(m, k)); }
            }
        }
    }
}
pub broadcast proof fn lemma_rem1_eq<T>(a: Node<T>, a1: Node<T>, key: Seq<u8>)
    requires wft(a.child, 0), key == a.key@, a1 == (Node { value: None, ..a }),
    ensures #[trigger] rem1(a, a1, key),
{
    assert forall|k: Seq<u8>| #[trigger] nlk(a1, k) == (if k == key { None } else { nlk(a, k) }) by { lemma_pre(key, k); lemma_pre(key, key); }
}
pub broadcast proof fn lemma_rem1_deep<T>(a: Node<T>, a1: Node<T>, key: Seq<u8>)
    requires
        wft(a.child, 0),
        exists|x: Tree<T>| a1.child == #[trigger] plug(a.child, key[a.key@.len() as int], x) && deep(a, a1, x, key) && remp(subl(a.child, key[a.key@.len() as int]), x, cut(key, a.key@.len() as int)),
    ensures #[trigger] rem1(a, a1, key),
{
    let l = a.key@.len() as int;
    let byte = key[l];
    let x0 = subl(a.child, byte);
    let q = cut(key, l);
    let x = choose|x: Tree<T>| a1.child == #[trigger] plug(a.child, byte, x) && deep(a, a1, x, key) && remp(x0, x, q);
    lemma_sub(a.child, byte, 0);
    lemma_pre(a.key@, key);
    assert(q[0] == byte);
    if x0 is Some { assert(hd(x0, q)); }
    assert forall|k: Seq<u8>| k.len() > 0 && k[0] != byte implies #[trigger] tlk(x, k) == tlk(x0, k) by { }
    lemma_plug(a.child, byte, x, 0);
    assert forall|k: Seq<u8>| #[trigger] nlk(a1, k) == (if k == key { None } else { nlk(a, k) }) by {
        lemma_nlk_plug(a, x, key, k);
        let c = cut(k, l);
        if pre(a.key@, k) { lemma_cut_eq(a.key@, k, key); }
        if pre(a.key@, k) && k.len() > l && k[l] == byte {
            assert(c[0] == byte);
            assert(tlk(x, c) == (if c == q { None } else { tlk(x0, c) }));
            lemma_nlk_sub(a, byte, k);
            if x0 is Some { lemma_tlk_hd(x0, c, q); }
        }
    }
}
//@ fn radix::tree::insert
    requires at(*old(tree), key@),
    ensures
        ret == olk(*old(tree), key@),
        insp(*old(tree), *final(tree), key@, value),
    decreases sz(*old(tree)),
//@ fn radix::tree::remove
    requires
        index <= key@.len(),
        at(*old(tree), cut(key@, index as int)),
    ensures
        match olk(*old(tree), cut(key@, index as int)) {
            Some(v) => ret matches Some(r) && r.0@ == key@ && r.1 == v,
            None => ret is None,
        },
        remp(*old(tree), *final(tree), cut(key@, index as int)),
    decreases sz(*old(tree)),
//@ fn radix::tree::get
    requires
        index <= key@.len(),
        at(*tree, cut(key@, index as int)),
    ensures oref(ret) == olk(*tree, cut(key@, index as int)),
    decreases sz(*tree),
//@ fn radix::tree::get_mut
    requires
        index <= key@.len(),
        at(*old(tree), cut(key@, index as int)),
    ensures
        match ret {
            Some(r) => olk(*old(tree), cut(key@, index as int)) == Some(*r)
                && insp(*old(tree), *final(tree), cut(key@, index as int), *final(r)),
            None => olk(*old(tree), cut(key@, index as int)) is None && *final(tree) == *old(tree),
        },
    decreases sz(*old(tree)),
//@ fn radix::tree::get_longest_prefix
    requires
        index <= key@.len(), curr_key@ =~= key@.subrange(0, index as int),
        at(*tree, cut(key@, index as int)),
        hd(*tree, cut(key@, index as int)) || index == 0,
    ensures
        kk(final(keys)@) == kk(old(keys)@) + best(ks(nseq(*tree, curr_key@)), key@),
    decreases sz(*tree),
//@ entry
    assert(vstd::slice::spec_slice_len(key) <= usize::MAX);
//@ fn radix::tree::min
    requires root(*tree) || wft(*tree, 0),
    ensures kopt(ret) == first(tseq(*tree, curr_key@)),
    decreases sz(*tree),
//@ fn radix::tree::max
    requires root(*tree) || wft(*tree, 0) && nxt(*tree) is None,
    ensures kopt(ret) == lastk(tseq(*tree, curr_key@)),
    decreases sz(*tree),
//@ spec radix::lem
pub broadcast proof fn lemma_tseq_some<T>(t: Tree<T>, p: Seq<u8>, lo: int)
    requires #[trigger] wft(t, lo), t is Some,
    ensures (#[trigger] tseq(t, p)).len() > 0,
    decreases t,
{
    let n = *(t->0);
    if n.value is None { lemma_tseq_some(n.child, p + n.key@, 0); }
}
pub broadcast proof fn lemma_lst<T>(t: Tree<T>, p: Seq<u8>, lo: int)
    requires #[trigger] wft(t, lo), t is Some,
    ensures
        (#[trigger] tseq(lst(t), p)).len() > 0, tseq(t, p).len() > 0, tseq(lst(t), p).last() == tseq(t, p).last(),
    decreases t,
{
    lemma_tseq_some(t, p, lo);
    let n = *(t->0);
    if n.next is Some { lemma_lst(n.next, p, n.key@[0] + 1); lemma_tseq_some(n.next, p, n.key@[0] + 1); }
}
pub broadcast proof fn lemma_lst_wf<T>(t: Tree<T>, lo: int)
    requires #[trigger] wft(t, lo), lo >= 0,
    ensures wft(#[trigger] lst(t), 0), lst(t) is Some == t is Some, nxt(lst(t)) is None, sz(lst(t)) <= sz(t), chw(lst(t)),
    decreases t,
{
    match t { None => {}, Some(n) => if n.next is Some { lemma_lst_wf(n.next, n.key@[0] + 1); } }
}
// how many bytes two keys share
pub open spec fn lcp(a: Seq<u8>, b: Seq<u8>) -> int
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + lcp(cut(a, 1), cut(b, 1)) } else { 0 }
}
pub proof fn lemma_lcp_is(a: Seq<u8>, b: Seq<u8>, l: int)
    requires 0 <= l <= a.len(), l <= b.len(), a.subrange(0, l) == b.subrange(0, l), l == a.len() || l == b.len() || a[l] != b[l],
    ensures lcp(a, b) == l,
    decreases l,
{
    if l > 0 {
        assert forall|j: int| 0 <= j < l implies a[j] == b[j] by { assert(a.subrange(0, l)[j] == a[j] && b.subrange(0, l)[j] == b[j]); }
        assert forall|j: int| 0 <= j < l - 1 implies cut(a, 1)[j] == cut(b, 1)[j] by { assert(cut(a, 1)[j] == a[j + 1] && cut(b, 1)[j] == b[j + 1]); }
        if l < a.len() && l < b.len() { assert(cut(a, 1)[l - 1] == a[l] && cut(b, 1)[l - 1] == b[l]); }
        assert(cut(a, 1).subrange(0, l - 1) =~= cut(b, 1).subrange(0, l - 1));
        lemma_lcp_is(cut(a, 1), cut(b, 1), l - 1);
    }
}
pub proof fn lemma_lcp(a: Seq<u8>, b: Seq<u8>)
    ensures ({ let l = lcp(a, b); 0 <= l <= a.len() && l <= b.len() && a.subrange(0, l) == b.subrange(0, l) && (l == a.len() || l == b.len() || a[l] != b[l]) }),
    decreases a.len(),
{
    let l = lcp(a, b);
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_lcp(cut(a, 1), cut(b, 1));
        assert forall|j: int| 0 <= j < l implies a[j] == b[j] by { if j > 0 { assert(cut(a, 1).subrange(0, l - 1)[j - 1] == cut(b, 1).subrange(0, l - 1)[j - 1]); } }
        if l < a.len() && l < b.len() { assert(cut(a, 1)[l - 1] == a[l] && cut(b, 1)[l - 1] == b[l]); }
    }
    assert(a.subrange(0, l) =~= b.subrange(0, l));
}
// the keys that share the most bytes with q: all of them when q is empty, and never a non-empty key that shares none
pub open spec fn mx(s: Seq<Seq<u8>>, q: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let m = mx(s.drop_last(), q); if lcp(s.last(), q) > m { lcp(s.last(), q) } else { m } }
}
pub open spec fn selp(k: Seq<u8>, q: Seq<u8>, l: int) -> bool { lcp(k, q) == l && (l > 0 || q.len() == 0 || k.len() == 0) }
pub open spec fn sel(s: Seq<Seq<u8>>, q: Seq<u8>, l: int) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { s } else { let r = sel(s.drop_last(), q, l); if selp(s.last(), q, l) { r.push(s.last()) } else { r } }
}
pub open spec fn best(s: Seq<Seq<u8>>, q: Seq<u8>) -> Seq<Seq<u8>> { sel(s, q, mx(s, q)) }
pub open spec fn allat(s: Seq<Seq<u8>>, q: Seq<u8>, l: int) -> bool { forall|i: int| 0 <= i < s.len() ==> lcp(#[trigger] s[i], q) == l }
pub proof fn lemma_mx_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, q: Seq<u8>)
    ensures mx(a + b, q) == (if mx(a, q) > mx(b, q) { mx(a, q) } else { mx(b, q) }), mx(a, q) >= 0,
    decreases a.len() + b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        if a.len() > 0 { lemma_mx_add(a.drop_last(), seq![], q); assert(a.drop_last() + seq![] =~= a.drop_last()); lemma_lcp(a.last(), q); }
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_mx_add(a, b.drop_last(), q);
    }
}
pub proof fn lemma_sel_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, q: Seq<u8>, l: int)
    ensures sel(a + b, q, l) == sel(a, q, l) + sel(b, q, l),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(sel(a, q, l) + b =~= sel(a, q, l)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_sel_add(a, b.drop_last(), q, l);
        assert(sel(a, q, l) + sel(b.drop_last(), q, l).push(b.last()) =~= (sel(a, q, l) + sel(b.drop_last(), q, l)).push(b.last()));
    }
}
pub proof fn lemma_allat(s: Seq<Seq<u8>>, q: Seq<u8>, l: int, m: int)
    requires allat(s, q, l), 0 <= l,
    ensures
        mx(s, q) == (if s.len() == 0 { 0 } else { l }),
        m != l ==> sel(s, q, m) == Seq::<Seq<u8>>::empty(),
        m == l && (l > 0 || q.len() == 0) ==> sel(s, q, m) == s,
        m == 0 && l == 0 && q.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0) ==> sel(s, q, m) == Seq::<Seq<u8>>::empty(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies lcp(#[trigger] s.drop_last()[i], q) == l by { assert(s.drop_last()[i] == s[i]); }
        assert(lcp(s[s.len() - 1], q) == l);
        lemma_allat(s.drop_last(), q, l, m);
        assert(s.drop_last().push(s.last()) =~= s);
        if m == 0 && l == 0 && q.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0) {
            assert(s[s.len() - 1].len() > 0);
            assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).len() > 0 by { assert(s.drop_last()[i] == s[i]); }
        }
        assert(s.len() == 1 ==> s.drop_last().len() == 0);
    } else { assert(s =~= Seq::<Seq<u8>>::empty()); }
}
// the entries of the first node of a list
pub open spec fn nseq<T>(t: Tree<T>, p: Seq<u8>) -> Seq<(Seq<u8>, T)> {
    match t { None => Seq::empty(), Some(n) => own(n.value, p + n.key@) + tseq(n.child, p + n.key@) }
}
pub proof fn lemma_tseq_mem<T>(t: Tree<T>, p: Seq<u8>, lo: int, i: int)
    requires wft(t, lo), 0 <= i < tseq(t, p).len(),
    ensures ({
        let k = tseq(t, p)[i].0;
        pre(p, k) && k.len() > p.len() && k[p.len() as int] >= lo && subl(t, k[p.len() as int]) is Some && tlk(t, cut(k, p.len() as int)) == Some(tseq(t, p)[i].1)
    }),
    decreases t,
{
    let n = *(t->0);
    let a = own(n.value, p + n.key@);
    let b = tseq(n.child, p + n.key@);
    let k = tseq(t, p)[i].0;
    let l = p.len() as int;
    if i < a.len() + b.len() {
        lemma_nseq_mem(t, p, i);
    } else {
        let j = i - a.len() - b.len();
        lemma_tseq_mem(n.next, p, n.key@[0] + 1, j);
        assert(k == tseq(n.next, p)[j].0);
    }
}
// an entry of the node: its key starts with the node's
pub proof fn lemma_nseq_mem<T>(t: Tree<T>, p: Seq<u8>, i: int)
    requires t is Some, chw(t), 0 <= i < nseq(t, p).len(),
    ensures ({
        let k = nseq(t, p)[i].0;
        pre(p + (t->0).key@, k) && pre(p, k) && olk(t, cut(k, p.len() as int)) == Some(nseq(t, p)[i].1) && cut(k, p.len() as int).len() >= (t->0).key@.len()
            && ((t->0).key@.len() > 0 ==> k[p.len() as int] == (t->0).key@[0])
    }),
    decreases t, 0int,
{
    let n = *(t->0);
    let q = p + n.key@;
    let a = own(n.value, q);
    let b = tseq(n.child, q);
    let k = nseq(t, p)[i].0;
    let l = p.len() as int;
    if i < a.len() { assert(k == q); lemma_pre(q, q); }
    else {
        lemma_tseq_mem(n.child, q, 0, i - a.len());
        assert(k == b[i - a.len()].0);
    }
    assert(pre(q, k));
    assert(k.subrange(0, q.len() as int).subrange(0, l) =~= k.subrange(0, l));
    assert(q.subrange(0, l) =~= p);
    lemma_pre_cut(q, k, l);
    assert(cut(q, l) =~= n.key@);
    lemma_cut_cut(k, l, n.key@.len() as int);
    assert(olk(t, cut(k, l)) == Some(nseq(t, p)[i].1));
    if n.key@.len() > 0 { assert(k.subrange(0, q.len() as int)[l] == q[l]); }
}
pub proof fn lemma_ks_at<T>(s: Seq<(Seq<u8>, T)>)
    ensures ks(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] ks(s)[i] == s[i].0,
{}
pub proof fn lemma_lcp_pre(p: Seq<u8>, k: Seq<u8>, q: Seq<u8>)
    requires pre(p, k), pre(p, q), k.len() == p.len() || q.len() == p.len() || k[p.len() as int] != q[p.len() as int],
    ensures lcp(k, q) == p.len(),
{ lemma_lcp_is(k, q, p.len() as int); }
// the keys of a list of siblings, around those of the one that starts with b
pub proof fn lemma_tseq_cut<T>(t: Tree<T>, p: Seq<u8>, b: u8, key: Seq<u8>, lo: int) -> (r: (Seq<Seq<u8>>, Seq<Seq<u8>>))
    requires wft(t, lo), pre(p, key), key.len() > p.len(), key[p.len() as int] == b,
    ensures
        ks(tseq(t, p)) == r.0 + ks(nseq(subl(t, b), p)) + r.1,
        allat(r.0, key, p.len() as int), allat(r.1, key, p.len() as int),
    decreases t,
{
    match t {
        None => { assert(ks(nseq(subl(t, b), p)) =~= Seq::empty()); (ks(tseq(t, p)), Seq::empty()) },
        Some(n) => {
            let f = nseq(t, p);
            lemma_ks_add(f, tseq(n.next, p));
            lemma_ks_at(f);
            if n.key@[0] == b {
                lemma_ks_at(tseq(n.next, p));
                assert forall|i: int| 0 <= i < ks(tseq(n.next, p)).len() implies lcp(#[trigger] ks(tseq(n.next, p))[i], key) == p.len() by {
                    lemma_tseq_mem(n.next, p, n.key@[0] + 1, i);
                    lemma_lcp_pre(p, ks(tseq(n.next, p))[i], key);
                }
                assert(Seq::<Seq<u8>>::empty() + ks(f) =~= ks(f));
                (Seq::empty(), ks(tseq(n.next, p)))
            } else {
                let r = lemma_tseq_cut(n.next, p, b, key, n.key@[0] + 1);
                let a = ks(f) + r.0;
                assert forall|i: int| 0 <= i < a.len() implies lcp(#[trigger] a[i], key) == p.len() by {
                    if i < f.len() { assert(a[i] == ks(f)[i]); lemma_nseq_mem(t, p, i); lemma_lcp_pre(p, a[i], key); } else { assert(a[i] == r.0[i - f.len()]); }
                }
                assert(ks(tseq(t, p)) =~= a + ks(nseq(subl(t, b), p)) + r.1);
                (a, r.1)
            }
        },
    }
}
pub open spec fn inner<T>(t: Tree<T>, q: Seq<u8>) -> Tree<T> { subl((t->0).child, q[(t->0).key@.len() as int]) }
pub proof fn lemma_best_off<T>(t: Tree<T>, p: Seq<u8>, key: Seq<u8>, q: Seq<u8>, i: usize)
    requires
        t is Some, p.len() <= key.len(), q == cut(key, p.len() as int), p == key.subrange(0, p.len() as int), chw(t),
        differ((t->0).key@, q, Some(i)),
    ensures best(ks(nseq(t, p)), key) == (if p.len() + i > 0 { ks(nseq(t, p)) } else { Seq::empty() }),
{
    let n = *(t->0);
    let nl = n.key@.len() as int;
    let l = p.len() as int;
    let s = ks(nseq(t, p));
    lemma_ks_at(nseq(t, p));
            let m = l + i;
            assert forall|j: int| 0 <= j < s.len() implies lcp(#[trigger] s[j], key) == m && s[j].len() > 0 by {
                lemma_nseq_mem(t, p, j);
                let k = s[j];
                let w = p + n.key@;
                assert(k.subrange(0, w.len() as int)[m] == w[m] && w[m] == n.key@[i as int] && key[m] == q[i as int]);
                assert forall|x: int| 0 <= x < m implies k[x] == key[x] by {
                    assert(k.subrange(0, w.len() as int)[x] == w[x]);
                    if x < l { assert(p[x] == key.subrange(0, l)[x]); } else { assert(n.key@.subrange(0, i as int)[x - l] == q.subrange(0, i as int)[x - l]); assert(q[x - l] == key[x]); }
                }
                assert(k.subrange(0, m) =~= key.subrange(0, m));
                lemma_lcp_is(k, key, m);
            }
            lemma_allat(s, key, m, mx(s, key));
            if s.len() == 0 { assert(sel(s, key, mx(s, key)) =~= s); assert(s =~= Seq::empty()); }

}
pub proof fn lemma_best_all<T>(t: Tree<T>, p: Seq<u8>, key: Seq<u8>, q: Seq<u8>)
    requires
        t is Some, p.len() <= key.len(), q == cut(key, p.len() as int), p == key.subrange(0, p.len() as int), chw(t),
        differ((t->0).key@, q, None), (t->0).key@.len() >= q.len(),
    ensures best(ks(nseq(t, p)), key) == ks(nseq(t, p)),
{
    let n = *(t->0);
    let nl = n.key@.len() as int;
    let l = p.len() as int;
    let s = ks(nseq(t, p));
    lemma_ks_at(nseq(t, p));
            let m = key.len() as int;
            assert forall|j: int| 0 <= j < s.len() implies lcp(#[trigger] s[j], key) == m by {
                lemma_nseq_mem(t, p, j);
                let k = s[j];
                let w = p + n.key@;
                assert forall|x: int| 0 <= x < m implies k[x] == key[x] by {
                    assert(k.subrange(0, w.len() as int)[x] == w[x]);
                    if x < l { assert(p[x] == key.subrange(0, l)[x]); } else { assert(n.key@[x - l] == q[x - l]); assert(q[x - l] == key[x]); }
                }
                assert(k.subrange(0, m) =~= key.subrange(0, m));
                lemma_lcp_is(k, key, m);
            }
            lemma_allat(s, key, m, mx(s, key));
            if s.len() == 0 { assert(sel(s, key, mx(s, key)) =~= s); assert(s =~= Seq::empty()); }

}
pub proof fn lemma_best_in<T>(t: Tree<T>, p: Seq<u8>, key: Seq<u8>, q: Seq<u8>)
    requires
        t is Some, p.len() <= key.len(), q == cut(key, p.len() as int), p == key.subrange(0, p.len() as int), chw(t),
        differ((t->0).key@, q, None), (t->0).key@.len() < q.len(),
    ensures best(ks(nseq(t, p)), key) == (match inner(t, q) {
        Some(c) => best(ks(nseq(inner(t, q), p + (t->0).key@)), key),
        None => if p.len() + (t->0).key@.len() > 0 { ks(nseq(t, p)) } else { ks(own((t->0).value, p + (t->0).key@)) },
    }),
{
    let n = *(t->0);
    let nl = n.key@.len() as int;
    let l = p.len() as int;
    let s = ks(nseq(t, p));
    lemma_ks_at(nseq(t, p));
            let w = p + n.key@;
            let m = l + nl;
            let b = q[nl];
            assert forall|x: int| 0 <= x < m implies w[x] == key[x] by {
                if x < l { assert(p[x] == key.subrange(0, l)[x]); } else { assert(n.key@[x - l] == q[x - l]); assert(q[x - l] == key[x]); }
            }
            assert(key.subrange(0, m) =~= w);
            assert(key[m] == b);
            let o = ks(own(n.value, w));
            let d = ks(tseq(n.child, w));
            lemma_ks_add(own(n.value, w), tseq(n.child, w));
            lemma_ks_at(own(n.value, w));
            lemma_ks_at(tseq(n.child, w));
            assert(allat(o, key, m)) by {
                assert forall|j: int| 0 <= j < o.len() implies lcp(#[trigger] o[j], key) == m by { lemma_pre(w, w); lemma_lcp_pre(w, o[j], key); }
            }
            let (x, y) = lemma_tseq_cut(n.child, w, b, key, 0);
            let c = subl(n.child, b);
            let z = ks(nseq(c, w));
            lemma_ks_at(nseq(c, w));
            assert(s == o + d && d == x + z + y);
            lemma_mx_add(o, d, key); lemma_mx_add(x + z, y, key); lemma_mx_add(x, z, key);
            let mm = mx(s, key);
            lemma_sel_add(o, d, key, mm); lemma_sel_add(x + z, y, key, mm); lemma_sel_add(x, z, key, mm);
            lemma_allat(o, key, m, mm); lemma_allat(x, key, m, mm); lemma_allat(y, key, m, mm);
            lemma_sub(n.child, b, 0);
            if c is Some {
                lemma_tseq_some(c, w, 0);
                lemma_nseq_some(c, w);
                let k = z[0];
                assert(mx(z, key) > m) by {
                    lemma_nseq_mem(c, w, 0);
                    assert(k[m] == b);
                    lemma_lcp(k, key);
                    let v = lcp(k, key);
                    if v < m { assert(k.subrange(0, m)[v] == w[v]); }
                    lemma_mx_at(z, key, 0);
                }
                assert(sel(o, key, mm) + sel(d, key, mm) =~= sel(z, key, mm));
            } else {
                assert(z =~= Seq::empty());
                assert(sel(z, key, mm) =~= Seq::empty());
                assert(d =~= x + y);
                if m > 0 {
                    if o.len() + x.len() + y.len() > 0 { assert(mm == m); }
                    assert(sel(s, key, mm) =~= s) by { if s.len() == 0 {} else { assert(sel(x, key, mm) + sel(z, key, mm) + sel(y, key, mm) =~= x + y); } }
                } else {
                    assert(mm == 0);
                    assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).len() > 0 by { lemma_tseq_mem(n.child, w, 0, j); }
                    assert(allat(d, key, 0)) by { assert forall|j: int| 0 <= j < d.len() implies lcp(#[trigger] d[j], key) == 0 by { if j < x.len() { assert(d[j] == x[j]); } else { assert(d[j] == y[j - x.len()]); } } }
                    lemma_allat(d, key, 0, 0);
                    assert(w =~= Seq::empty());
                    if n.value is Some { assert(o.drop_last() =~= Seq::empty()); assert(o.last() == w); assert(sel(o.drop_last(), key, 0) =~= Seq::empty()); assert(sel(o, key, 0) =~= o); } else { assert(sel(o, key, 0) =~= o); }
                    assert(o + Seq::<Seq<u8>>::empty() =~= o);
                }
            }

}
pub broadcast proof fn lemma_best<T>(t: Tree<T>, p: Seq<u8>, key: Seq<u8>, q: Seq<u8>, r: Option<usize>)
    requires
        t is Some, p.len() <= key.len(), q == cut(key, p.len() as int), p == key.subrange(0, p.len() as int),
        at(t, q), hd(t, q) || p.len() == 0,
        #[trigger] differ((t->0).key@, q, r),
    ensures
        (#[trigger] best(ks(nseq(t, p)), key)) == (match r {
            Some(i) => if p.len() + i > 0 { ks(nseq(t, p)) } else { Seq::empty() },
            None => if (t->0).key@.len() >= q.len() { ks(nseq(t, p)) } else {
                match inner(t, q) {
                    Some(c) => best(ks(nseq(inner(t, q), p + (t->0).key@)), key),
                    None => if p.len() + (t->0).key@.len() > 0 { ks(nseq(t, p)) } else { ks(own((t->0).value, p + (t->0).key@)) },
                }
            },
        }),
{
    match r {
        Some(i) => lemma_best_off(t, p, key, q, i),
        None => if (t->0).key@.len() >= q.len() { lemma_best_all(t, p, key, q) } else { lemma_best_in(t, p, key, q) },
    }
}
pub proof fn lemma_mx_at(s: Seq<Seq<u8>>, q: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures mx(s, q) >= lcp(s[i], q),
    decreases s.len(),
{ if i < s.len() - 1 { lemma_mx_at(s.drop_last(), q, i); assert(s.drop_last()[i] == s[i]); } }
pub proof fn lemma_nseq_some<T>(t: Tree<T>, p: Seq<u8>)
    requires wft(t, 0), t is Some,
    ensures nseq(t, p).len() > 0,
{ let n = *(t->0); if n.value is None { lemma_tseq_some(n.child, p + n.key@, 0); } }
pub broadcast proof fn lemma_along(a: Seq<u8>, k: Seq<u8>, i: int, p: Seq<u8>)
    requires #[trigger] pre(a, cut(k, i)), 0 <= i <= k.len(), p == k.subrange(0, i),
    ensures #[trigger] (p + a) == k.subrange(0, i + a.len()),
{
    let c = cut(k, i);
    assert forall|j: int| 0 <= j < a.len() implies a[j] == k[i + j] by { assert(c.subrange(0, a.len() as int)[j] == c[j]); }
    assert(p + a =~= k.subrange(0, i + a.len()));
}
pub open spec fn first<T>(s: Seq<(Seq<u8>, T)>) -> Option<Seq<u8>> { if s.len() > 0 { Some(s[0].0) } else { None } }
pub open spec fn lastk<T>(s: Seq<(Seq<u8>, T)>) -> Option<Seq<u8>> { if s.len() > 0 { Some(s.last().0) } else { None } }
pub broadcast proof fn lemma_first<T>(t: Tree<T>, p: Seq<u8>)
    requires root(t) || wft(t, 0),
    ensures
        (#[trigger] first(tseq(t, p))) == (match t { None => None, Some(n) => if n.value is Some { Some(p + n.key@) } else { first(tseq(n.child, p + n.key@)) } }),
{
    if t is Some { let n = *(t->0); if n.child is Some { lemma_tseq_some(n.child, p + n.key@, 0); } }
}
pub broadcast proof fn lemma_last<T>(t: Tree<T>, p: Seq<u8>)
    requires root(t) || wft(t, 0), nxt(t) is None,
    ensures
        (#[trigger] lastk(tseq(t, p))) == (match t { None => None, Some(n) => if n.value is Some && n.child is None { Some(p + n.key@) } else { lastk(tseq(lst(n.child), p + n.key@)) } }),
{
    if t is Some {
        let n = *(t->0);
        assert(tseq(n.next, p) =~= Seq::empty());
        assert(tseq(t, p) =~= own(n.value, p + n.key@) + tseq(n.child, p + n.key@));
        if n.child is Some { lemma_lst(n.child, p + n.key@, 0); } else { assert(lst(n.child) is None); assert(tseq(n.child, p + n.key@) =~= Seq::empty()); }
    }
}
//@ spec radix::lem
pub open spec fn oref<A>(r: Option<&A>) -> Option<A> { match r { Some(a) => Some(*a), None => None } }
pub open spec fn kopt(r: Option<Vec<u8>>) -> Option<Seq<u8>> { match r { Some(a) => Some(a@), None => None } }
//@ spec radix::lem
pub broadcast proof fn lemma_nz<T>(t: Tree<T>, lo: int)
    requires #[trigger] wft(t, lo),
    ensures nz(t),
    decreases t,
{ match t { None => {}, Some(n) => lemma_nz(n.next, n.key@[0] + 1) } }
pub broadcast group group_nz { lemma_nz }
//@ subst radix::tree::min `curr_key.extend_from_slice(node.key.as_slice())` => `crate::radixlib::extend(&mut curr_key, &node.key)`
//@ subst radix::tree::max `curr_key.extend_from_slice(node.key.as_slice())` => `crate::radixlib::extend(&mut curr_key, &node.key)`
//@ subst radix::map::RadixMapIter::Iterator::next `self.prefix.extend_from_slice(key.as_slice())` => `crate::radixlib::extend(&mut self.prefix, key)`
//@ subst radix::map::RadixMapIterMut::Iterator::next `self.prefix.extend_from_slice(key.as_slice())` => `crate::radixlib::extend(&mut self.prefix, key)`
//@ spec radix::lem
pub open spec fn sz<T>(t: Tree<T>) -> nat
    decreases t
{
    match t { None => 0, Some(n) => 1 + sz(n.child) + sz(n.next) }
}
pub broadcast proof fn lemma_pre_cut(p: Seq<u8>, k: Seq<u8>, i: int)
    requires 0 <= i <= p.len(), pre(p.subrange(0, i), k),
    ensures #[trigger] pre(cut(p, i), cut(k, i)) == pre(p, k),
{
    assert(forall|j: int| 0 <= j < i ==> p.subrange(0, i)[j] == k.subrange(0, i)[j]);
    if pre(cut(p, i), cut(k, i)) {
        assert(forall|j: int| 0 <= j < p.len() - i ==> cut(p, i)[j] == cut(k, i).subrange(0, p.len() - i)[j]);
        assert forall|j: int| 0 <= j < p.len() implies p[j] == k.subrange(0, p.len() as int)[j] by {
            if j < i { assert(p.subrange(0, i)[j] == k.subrange(0, i)[j]); } else { assert(cut(p, i)[j - i] == cut(k, i).subrange(0, p.len() - i)[j - i]); }
        }
        assert(p =~= k.subrange(0, p.len() as int));
    }
    if pre(p, k) {
        assert(forall|j: int| 0 <= j < p.len() ==> p[j] == k.subrange(0, p.len() as int)[j]);
        assert forall|j: int| 0 <= j < p.len() - i implies cut(p, i)[j] == cut(k, i).subrange(0, p.len() - i)[j] by { assert(p[i + j] == k.subrange(0, p.len() as int)[i + j]); }
        assert(cut(p, i) =~= cut(k, i).subrange(0, p.len() - i));
    }
}
pub broadcast proof fn lemma_cut_cut(k: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= k.len(),
    ensures #[trigger] cut(cut(k, i), j) == cut(k, i + j),
{ assert(cut(cut(k, i), j) =~= cut(k, i + j)); }
pub broadcast proof fn lemma_cut_at(k: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j < k.len(),
    ensures (#[trigger] cut(k, i)[j]) == k[i + j],
{}
pub broadcast proof fn lemma_cut_len(k: Seq<u8>, i: int)
    requires 0 <= i <= k.len(),
    ensures (#[trigger] cut(k, i)).len() == k.len() - i, i < k.len() ==> cut(k, i)[0] == k[i],
{}
pub broadcast proof fn lemma_cut0(k: Seq<u8>)
    ensures #[trigger] cut(k, 0) == k,
{ assert(cut(k, 0) =~= k); }
pub broadcast proof fn lemma_pre(p: Seq<u8>, k: Seq<u8>)
    ensures (#[trigger] pre(p, k) && p.len() == k.len()) ==> p == k, p == k ==> pre(p, k), p.len() == 0 ==> pre(p, k), (pre(p, k) && p.len() > 0) ==> p[0] == k[0],
{
    assert(k.subrange(0, k.len() as int) =~= k);
    if p.len() == 0 { assert(k.subrange(0, 0) =~= p); }
    if pre(p, k) && p.len() > 0 { assert(k.subrange(0, p.len() as int)[0] == k[0]); }
}
pub broadcast proof fn lemma_differ(p: Seq<u8>, k: Seq<u8>, r: Option<usize>)
    requires #[trigger] differ(p, k, r),
    ensures
        match r {
            Some(i) => {
                &&& !pre(p, k) && !pre(k, p)
                &&& cut(p, i as int).len() > 0 && cut(k, i as int).len() > 0 && cut(p, i as int)[0] != cut(k, i as int)[0]
                &&& pre(p.subrange(0, i as int), k) && pre(p.subrange(0, i as int), p)
                &&& forall|q: Seq<u8>| #[trigger] pre(p, q) ==> pre(p.subrange(0, i as int), q)
            },
            None => p.len() <= k.len() ==> pre(p, k), 
        },
        r is None && k.len() <= p.len() ==> pre(k, p),
{
    match r {
        Some(i) => {
            let i = i as int;
            if pre(p, k) { assert(k.subrange(0, p.len() as int)[i] == k[i]); }
            if pre(k, p) { assert(p.subrange(0, k.len() as int)[i] == p[i]); }
            assert forall|q: Seq<u8>| #[trigger] pre(p, q) implies pre(p.subrange(0, i), q) by {
                assert(q.subrange(0, p.len() as int).subrange(0, i) =~= q.subrange(0, i));
            }
        },
        None => {
            if p.len() <= k.len() { assert(k.subrange(0, p.len() as int) =~= p); }
            if k.len() <= p.len() { assert(p.subrange(0, k.len() as int) =~= k); }
        },
    }
}
pub broadcast proof fn lemma_join(x: Seq<u8>, k: Seq<u8>, q: Seq<u8>, i: int)
    requires #[trigger] pre(x, k), #[trigger] pre(x, q), i == x.len(),
    ensures (#[trigger] cut(k, i) == #[trigger] cut(q, i)) ==> (k == q),
{
    if cut(k, i) == cut(q, i) {
        assert(cut(k, i).len() == k.len() - i && cut(q, i).len() == q.len() - i);
        assert forall|j: int| 0 <= j < k.len() implies k[j] == q[j] by {
            if j < i { assert(k.subrange(0, i)[j] == q.subrange(0, i)[j]); } else { assert(cut(k, i)[j - i] == cut(q, i)[j - i]); }
        }
        assert(k =~= q);
    }
}
pub proof fn lemma_nlk_next<T>(c: Node<T>, d: Node<T>, k: Seq<u8>)
    requires c.key == d.key, c.value == d.value, c.child == d.child,
    ensures nlk(c, k) == nlk(d, k),
{}
pub proof fn lemma_tlk_insl0<T>(t: Tree<T>, c: Node<T>, k: Seq<u8>, lo: int)
    requires wft(t, lo), c.next is None, c.key@.len() > 0, subl(t, c.key@[0]) is None,
    ensures tlk(insl(t, c), k) == (if k.len() > 0 && k[0] == c.key@[0] { nlk(c, k) } else { tlk(t, k) }),
    decreases t,
{
    match t {
        None => { assert(insl(t, c) == Some(Box::new(c))); assert(tlk(c.next, k) is None); },
        Some(n) => {
            if n.key@[0] > c.key@[0] {
                let d = Node { next: t, ..c };
                lemma_nlk_next(c, d, k);
                assert(insl(t, c) == Some(Box::new(d)));
            } else {
                lemma_tlk_insl0(n.next, c, k, n.key@[0] + 1);
                let d = Node { next: insl(n.next, c), ..*n };
                lemma_nlk_next(*n, d, k);
                assert(insl(t, c) == Some(Box::new(d)));
            }
        },
    }
}
pub broadcast proof fn lemma_tlk_insl<T>(t: Tree<T>, c: Node<T>, k: Seq<u8>)
    requires exists|lo: int| #[trigger] wft(t, lo), c.next is None, c.key@.len() > 0, subl(t, c.key@[0]) is None,
    ensures #[trigger] tlk(insl(t, c), k) == (if k.len() > 0 && k[0] == c.key@[0] { nlk(c, k) } else { tlk(t, k) }),
{ lemma_tlk_insl0(t, c, k, choose|lo: int| #[trigger] wft(t, lo)); }
pub broadcast proof fn lemma_wft_insl<T>(t: Tree<T>, c: Node<T>, lo: int)
    requires wft(t, lo), c.key@.len() > 0, c.next is None, c.key@[0] >= lo, subl(t, c.key@[0]) is None, full(c), wft(c.child, 0),
    ensures #[trigger] wft(insl(t, c), lo),
    decreases t,
{
    match t {
        None => { let d = c; assert(insl(t, c) == Some(Box::new(c))); assert(wft(c.next, c.key@[0] + 1)); },
        Some(n) => {
            if n.key@[0] > c.key@[0] {
                let d = Node { next: t, ..c };
                assert(full(d));
                assert(wft(t, c.key@[0] + 1));
                assert(insl(t, c) == Some(Box::new(d)));
            } else {
                assert(n.key@[0] != c.key@[0]);
                lemma_wft_insl(n.next, c, n.key@[0] + 1);
                let d = Node { next: insl(n.next, c), ..*n };
                assert(full(d));
                assert(insl(t, c) == Some(Box::new(d)));
            }
        },
    }
}
pub broadcast proof fn lemma_insl_two<T>(t: Tree<T>, c: Node<T>)
    ensures #[trigger] insl(t, c) is Some, t is Some ==> nxt(insl(t, c)) is Some,
{ reveal_with_fuel(insl, 2); }
pub broadcast proof fn lemma_sub<T>(t: Tree<T>, b: u8, lo: int)
    requires #[trigger] wft(t, lo),
    ensures
        (#[trigger] subl(t, b)) matches Some(n) ==> n.key@.len() > 0 && n.key@[0] == b && b >= lo,
        wft(subl(t, b), 0), wft(subl(t, b), b as int),
        sz(subl(t, b)) <= sz(t),
        forall|k: Seq<u8>| k.len() > 0 && k[0] == b ==> #[trigger] tlk(t, k) == olk(subl(t, b), k),
        b < lo ==> subl(t, b) is None,
    decreases t,
{
    match t {
        None => {},
        Some(n) => {
            lemma_sub(n.next, b, n.key@[0] + 1);
            assert forall|k: Seq<u8>| k.len() > 0 && k[0] == b implies #[trigger] tlk(t, k) == olk(subl(t, b), k) by {
                if n.key@[0] == b { assert(subl(t, b) == t); } else { assert(tlk(n.next, k) == olk(subl(n.next, b), k)); }
            }
            if n.key@[0] == b { assert(wft(n.next, n.key@[0] + 1)); }
        }
    }
}
pub broadcast proof fn lemma_nlk_sub<T>(n: Node<T>, b: u8, k: Seq<u8>)
    requires wft(n.child, 0), pre(n.key@, k), k.len() > n.key@.len(), b == k[n.key@.len() as int],
    ensures #![trigger nlk(n, k), subl(n.child, b)] nlk(n, k) == olk(subl(n.child, b), cut(k, n.key@.len() as int)),
{ lemma_sub(n.child, b, 0); assert(tlk(n.child, cut(k, n.key@.len() as int)) == nlk(n, k)); }
pub proof fn lemma_sub0<T>(t: Tree<T>, lo: int, l2: int)
    requires wft(t, lo), l2 <= lo,
    ensures wft(t, l2),
{}
pub broadcast proof fn lemma_plug<T>(t: Tree<T>, b: u8, x: Tree<T>, lo: int)
    requires
        wft(t, lo), wft(x, b as int),
        subl(t, b) is None ==> x is None,
    ensures #[trigger] wft(plug(t, b, x), lo),
    decreases t,
{
    match t { None => {}, Some(n) => { if n.key@[0] == b { } else { lemma_plug(n.next, b, x, n.key@[0] + 1); } } }
}
pub broadcast proof fn lemma_tlk_plug<T>(t: Tree<T>, b: u8, x: Tree<T>, k: Seq<u8>)
    requires
        exists|lo: int| #[trigger] wft(t, lo),
        wft(x, b as int),
        forall|q: Seq<u8>| q.len() > 0 && q[0] != b ==> #[trigger] tlk(x, q) == tlk(subl(t, b), q),
    ensures #[trigger] tlk(plug(t, b, x), k) == (if k.len() > 0 && k[0] == b { tlk(x, k) } else { tlk(t, k) }),
    decreases t,
{
    let lo = choose|lo: int| #[trigger] wft(t, lo);
    match t {
        None => { if k.len() == 0 { lemma_tlk_empty(x, k); } else if k[0] != b { assert(tlk(x, k) == tlk(subl(t, b), k)); } },
        Some(n) => {
            if n.key@[0] == b {
                assert(subl(t, b) == t);
                if k.len() == 0 { lemma_tlk_empty(x, k); lemma_tlk_empty(t, k); } else if k[0] != b { assert(tlk(x, k) == tlk(subl(t, b), k)); }
            } else {
                assert(wft(n.next, n.key@[0] + 1));
                lemma_tlk_plug(n.next, b, x, k);
                let d = Node { next: plug(n.next, b, x), ..*n };
                lemma_nlk_next(*n, d, k);
                assert(plug(t, b, x) == Some(Box::new(d)));
            }
        },
    }
}
pub proof fn lemma_tlk_empty<T>(t: Tree<T>, k: Seq<u8>)
    requires k.len() == 0,
    ensures tlk(t, k) is None,
    decreases t,
{ match t { None => {}, Some(n) => lemma_tlk_empty(n.next, k) } }
pub broadcast proof fn lemma_plug_id<T>(t: Tree<T>, b: u8)
    ensures #[trigger] plug(t, b, subl(t, b)) == t,
    decreases t,
{ match t { None => {}, Some(n) => { lemma_plug_id(n.next, b); } } }
pub broadcast group group_radix {
    lemma_pre_cut, lemma_cut_cut, lemma_cut_at, lemma_cut_len, lemma_cut0, lemma_pre, lemma_differ, lemma_join, lemma_tlk_insl, lemma_wft_insl, lemma_insl_two,
    lemma_sub, lemma_nlk_sub, lemma_plug, lemma_split, lemma_ins_none, lemma_ins_eq, lemma_ins_deep, lemma_ins_child, lemma_ins_split_up, lemma_ins_split,
    lemma_rem_none, lemma_mrg, lemma_rem_fin, lemma_rem1_eq, lemma_rem1_deep,
    lemma_first, lemma_last, lemma_lst_wf, lemma_best, lemma_along, lemma_ks_add, lemma_kk_push, lemma_ks_own, lemma_tlk_plug, lemma_plug_id, lemma_nz,
}
//@ spec radix::lem
// ---- whole tree: the entries are sorted by key, and are exactly what lookups find
pub open spec fn lexlt(a: Seq<u8>, b: Seq<u8>) -> bool { let l = lcp(a, b); l < b.len() && (l == a.len() || a[l] < b[l]) }
pub open spec fn sorted<T>(s: Seq<(Seq<u8>, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lexlt(#[trigger] s[i].0, #[trigger] s[j].0) }
pub proof fn lemma_lex(a: Seq<u8>, b: Seq<u8>, l: int)
    requires 0 <= l <= a.len(), l < b.len(), a.subrange(0, l) == b.subrange(0, l), l == a.len() || a[l] < b[l],
    ensures lexlt(a, b),
{ lemma_lcp_is(a, b, l); }
pub proof fn lemma_nseq_sorted<T>(t: Tree<T>, p: Seq<u8>)
    requires t is Some, chw(t),
    ensures sorted(nseq(t, p)),
    decreases t, 0int,
{
    let n = *(t->0);
    let q = p + n.key@;
    let o = own(n.value, q);
    let d = tseq(n.child, q);
    lemma_tseq_sorted(n.child, q, 0);
    let s = nseq(t, p);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies lexlt(#[trigger] s[i].0, #[trigger] s[j].0) by {
        assert(s[j] == d[j - o.len()]);
        if i < o.len() {
            lemma_tseq_mem(n.child, q, 0, j - o.len());
            lemma_pre(q, q);
            lemma_lex(q, s[j].0, q.len() as int);
        } else { assert(s[i] == d[i - o.len()]); }
    }
}
pub proof fn lemma_tseq_sorted<T>(t: Tree<T>, p: Seq<u8>, lo: int)
    requires wft(t, lo),
    ensures sorted(tseq(t, p)),
    decreases t, 1int,
{
    if t is Some {
        let n = *(t->0);
        let f = nseq(t, p);
        let g = tseq(n.next, p);
        lemma_nseq_sorted(t, p);
        lemma_tseq_sorted(n.next, p, n.key@[0] + 1);
        let s = tseq(t, p);
        assert(s =~= f + g);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies lexlt(#[trigger] s[i].0, #[trigger] s[j].0) by {
            if j < f.len() { assert(s[i] == f[i] && s[j] == f[j]); }
            else if i >= f.len() { assert(s[i] == g[i - f.len()] && s[j] == g[j - f.len()]); }
            else {
                assert(s[i] == f[i] && s[j] == g[j - f.len()]);
                lemma_nseq_mem(t, p, i);
                lemma_tseq_mem(n.next, p, n.key@[0] + 1, j - f.len());
                lemma_lex(s[i].0, s[j].0, p.len() as int);
            }
        }
    }
}
pub open spec fn has<T>(s: Seq<(Seq<u8>, T)>, k: Seq<u8>, v: T) -> bool { s.contains((k, v)) }
pub proof fn lemma_has_add<T>(a: Seq<(Seq<u8>, T)>, b: Seq<(Seq<u8>, T)>, k: Seq<u8>, v: T)
    ensures has(a + b, k, v) <==> has(a, k, v) || has(b, k, v),
{
    if has(a, k, v) { let i = choose|i: int| 0 <= i < a.len() && a[i] == (k, v); assert((a + b)[i] == (k, v)); }
    if has(b, k, v) { let i = choose|i: int| 0 <= i < b.len() && b[i] == (k, v); assert((a + b)[a.len() + i] == (k, v)); }
}
pub proof fn lemma_tlk_has<T>(t: Tree<T>, p: Seq<u8>, lo: int, k: Seq<u8>)
    requires wft(t, lo), tlk(t, k) is Some,
    ensures has(tseq(t, p), p + k, tlk(t, k)->0),
    decreases t, 1int,
{
    let n = *(t->0);
    let v = tlk(t, k)->0;
    assert(tseq(t, p) =~= nseq(t, p) + tseq(n.next, p));
    lemma_has_add(nseq(t, p), tseq(n.next, p), p + k, v);
    if k.len() > 0 && n.key@.len() > 0 && n.key@[0] == k[0] { lemma_nlk_has(t, p, k); } else { lemma_tlk_has(n.next, p, n.key@[0] + 1, k); }
}
pub proof fn lemma_nlk_has<T>(t: Tree<T>, p: Seq<u8>, k: Seq<u8>)
    requires t is Some, chw(t), olk(t, k) is Some,
    ensures has(nseq(t, p), p + k, olk(t, k)->0),
    decreases t, 0int,
{
    let n = *(t->0);
    let v = olk(t, k)->0;
    let q = p + n.key@;
    lemma_has_add(own(n.value, q), tseq(n.child, q), p + k, v);
    lemma_pre(n.key@, k);
    if k.len() == n.key@.len() { assert(own(n.value, q)[0] == (p + k, v)); }
    else {
        let c = cut(k, n.key@.len() as int);
        lemma_tlk_has(n.child, q, 0, c);
        assert forall|x: int| 0 <= x < n.key@.len() implies n.key@[x] == k[x] by { assert(k.subrange(0, n.key@.len() as int)[x] == k[x]); }
        assert(q + c =~= p + k);
    }
}
pub open spec fn seqof<T>(t: Tree<T>) -> Seq<(Seq<u8>, T)> { tseq(t, Seq::empty()) }
pub broadcast proof fn lemma_root<T>(t: Tree<T>)
    requires root(t),
    ensures
        sorted(#[trigger] seqof(t)),
        seqof(t) == nseq(t, Seq::empty()),
        forall|k: Seq<u8>, v: T| (#[trigger] olk(t, k)) == Some(v) <==> #[trigger] has(seqof(t), k, v),
{
    let e = Seq::<u8>::empty();
    let s = seqof(t);
    if t is Some {
        assert(tseq((t->0).next, e) =~= Seq::empty());
        assert(s =~= nseq(t, e));
        lemma_nseq_sorted(t, e);
    }
    assert forall|k: Seq<u8>, v: T| (#[trigger] olk(t, k)) == Some(v) <==> #[trigger] has(s, k, v) by {
        if olk(t, k) == Some(v) { lemma_nlk_has(t, e, k); assert(e + k =~= k); }
        if has(s, k, v) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, v);
            lemma_nseq_mem(t, e, i);
            lemma_cut0(k);
        }
    }
}
pub open spec fn dom<T>(t: Tree<T>) -> Set<Seq<u8>> { ks(seqof(t)).to_set() }
pub proof fn lemma_dom<T>(t: Tree<T>)
    requires root(t),
    ensures dom(t).len() == seqof(t).len(), forall|k: Seq<u8>| #[trigger] dom(t).contains(k) <==> olk(t, k) is Some,
{
    lemma_root(t);
    let s = seqof(t);
    let q = ks(s);
    lemma_ks_at(s);
    assert(q.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by {
            assert(q[i] == s[i].0 && q[j] == s[j].0);
            assert(lexlt(s[i].0, s[j].0));
            let a = s[i].0;
            assert(a.subrange(0, a.len() as int) =~= a);
            lemma_lcp_is(a, a, a.len() as int);
        }
    }
    q.unique_seq_to_set();
    assert forall|k: Seq<u8>| #[trigger] dom(t).contains(k) <==> olk(t, k) is Some by {
        if q.to_set().contains(k) { let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(s[i] == (k, s[i].1)); assert(has(s, k, s[i].1)); }
        if olk(t, k) is Some { let v = olk(t, k)->0; assert(has(s, k, v)); let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, v); assert(q[i] == k); }
    }
}
pub broadcast proof fn lemma_ins_len<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>, v: T)
    requires root(o), #[trigger] insp(o, n, key, v),
    ensures seqof(n).len() == seqof(o).len() + (if olk(o, key) is None { 1int } else { 0 }),
{
    lemma_dom(o);
    lemma_dom(n);
    assert(olk(n, key) == Some(v));
    assert(dom(n) =~= dom(o).insert(key)) by { assert forall|k: Seq<u8>| dom(n).contains(k) <==> dom(o).insert(key).contains(k) by { assert(olk(n, k) == (if k == key { Some(v) } else { olk(o, k) })); } }
}
pub broadcast proof fn lemma_rem_len<T>(o: Tree<T>, n: Tree<T>, key: Seq<u8>)
    requires root(o), #[trigger] remp(o, n, key),
    ensures seqof(n).len() == seqof(o).len() - (if olk(o, key) is None { 0int } else { 1 }),
{
    lemma_dom(o);
    lemma_dom(n);
    assert(dom(n) =~= dom(o).remove(key)) by { assert forall|k: Seq<u8>| dom(n).contains(k) <==> dom(o).remove(key).contains(k) by { assert(olk(n, k) == (if k == key { None } else { olk(o, k) })); } }
}
pub broadcast proof fn lemma_at_root<T>(t: Tree<T>, q: Seq<u8>)
    requires root(t),
    ensures #[trigger] at(t, q),
{}
pub proof fn lemma_empty_root<T>(n: Node<T>)
    requires n.key@.len() == 0, n.value is None, n.next is None, n.child is None,
    ensures root(Some(Box::new(n))), forall|k: Seq<u8>| #[trigger] olk(Some(Box::new(n)), k) is None, seqof(Some(Box::new(n))).len() == 0,
{
    assert forall|k: Seq<u8>| #[trigger] olk(Some(Box::new(n)), k) is None by { assert(tlk(n.child, cut(k, 0)) is None); }
    assert(tseq(n.child, Seq::empty() + n.key@).len() == 0);
    assert(tseq(n.next, Seq::empty()).len() == 0);
}
pub open spec fn fresh<T>(t: Tree<T>) -> bool { match t { None => true, Some(n) => n.key@.len() == 0 && n.value is None && n.next is None && n.child is None } }
pub broadcast proof fn lemma_fresh<T>(t: Tree<T>)
    requires #[trigger] fresh(t),
    ensures root(t), forall|k: Seq<u8>| #[trigger] olk(t, k) is None, seqof(t).len() == 0,
{ if t is Some { lemma_empty_root(*(t->0)); } }
pub broadcast group group_map { lemma_root, lemma_ins_len, lemma_rem_len, lemma_at_root, lemma_fresh, lemma_cut0 }
//@ spec radix::map
use crate::radixlib::*;
use crate::radix::lem::*;
broadcast use { crate::radix::lem::group_map, crate::radix::lem::group_iter };
impl<T> View for RadixMap<T> {
    type V = Seq<(Seq<u8>, T)>;
    open spec fn view(&self) -> Seq<(Seq<u8>, T)> { seqof(self.root) }
}
impl<T> RadixMap<T> {
    // the value stored under k
    pub open spec fn lk(&self, k: Seq<u8>) -> Option<T> { olk(self.root, k) }
    pub open spec fn inv(&self) -> bool { root(self.root) && self.len == self@.len() }
}
//@ fn radix::map::RadixMap::new
    ensures ret.inv(), ret@.len() == 0, forall|k: Seq<u8>| #[trigger] ret.lk(k) is None,
//@ entry
    assert forall|t: tree::Tree<T>| fresh(t) implies #[trigger] root(t) by {}
//@ fn radix::map::RadixMap::Default::default
    ensures ret.inv(), ret@.len() == 0, forall|k: Seq<u8>| #[trigger] ret.lk(k) is None,
//@ fn radix::map::RadixMap::insert
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures
        final(self).inv(),
        forall|k: Seq<u8>| #[trigger] final(self).lk(k) == (if k == key@ { Some(value) } else { old(self).lk(k) }),
        final(self)@.len() == old(self)@.len() + (if old(self).lk(key@) is None { 1int } else { 0 }),
        match old(self).lk(key@) {
            Some(v) => ret matches Some(r) && r.0@ == key@ && r.1 == v,
            None => ret is None,
        },
//@ fn radix::map::RadixMap::remove
    requires old(self).inv(),
    ensures
        final(self).inv(),
        forall|k: Seq<u8>| #[trigger] final(self).lk(k) == (if k == key@ { None } else { old(self).lk(k) }),
        final(self)@.len() == old(self)@.len() - (if old(self).lk(key@) is None { 0int } else { 1 }),
        match old(self).lk(key@) {
            Some(v) => ret matches Some(r) && r.0@ == key@ && r.1 == v,
            None => ret is None,
        },
//@ fn radix::map::RadixMap::contains_key
    requires self.inv(),
    ensures ret == (self.lk(key@) is Some),
//@ fn radix::map::RadixMap::get
    requires self.inv(),
    ensures oref(ret) == self.lk(key@),
//@ fn radix::map::RadixMap::get_mut
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(r) => old(self).lk(key@) == Some(*r) && final(self)@.len() == old(self)@.len()
                && forall|k: Seq<u8>| #[trigger] final(self).lk(k) == (if k == key@ { Some(*final(r)) } else { old(self).lk(k) }),
            None => old(self).lk(key@) is None && *final(self) == *old(self),
        },
//@ fn radix::map::RadixMap::Index::index
    requires self.inv(), self.lk(key@) is Some,
    ensures Some(*ret) == self.lk(key@),
//@ fn radix::map::RadixMap::IndexMut::index_mut
    requires old(self).inv(), old(self).lk(key@) is Some,
    ensures
        final(self).inv(),
        old(self).lk(key@) == Some(*ret) && final(self)@.len() == old(self)@.len(),
        forall|k: Seq<u8>| #[trigger] final(self).lk(k) == (if k == key@ { Some(*final(ret)) } else { old(self).lk(k) }),
//@ fn radix::map::RadixMap::len
    requires self.inv(),
    ensures ret == self@.len(),
//@ fn radix::map::RadixMap::is_empty
    requires self.inv(),
    ensures ret == (self@.len() == 0),
//@ fn radix::map::RadixMap::clear
    ensures final(self).inv(), final(self)@.len() == 0, forall|k: Seq<u8>| #[trigger] final(self).lk(k) is None,
//@ fn radix::map::RadixMap::get_longest_prefix
    requires self.inv(),
    ensures kk(ret@) == best(ks(self@), key@),
//@ fn radix::map::RadixMap::min
    requires self.inv(),
    ensures kopt(ret) == first(self@),
//@ fn radix::map::RadixMap::max
    requires self.inv(),
    ensures kopt(ret) == lastk(self@),
//@ subst radix::map::RadixMap::insert `key.to_vec()` => `crate::radixlib::to_vec(key)`
// ---- iterators: the entries still to come
//@ spec radix::lem
// the trees still to visit, the last one first; each is below the prefix p less the bytes its sibling added
pub open spec fn stk<T>(s: Seq<(Tree<T>, usize)>, p: Seq<u8>) -> Seq<(Seq<u8>, T)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let q = p.subrange(0, p.len() - s.last().1); tseq(s.last().0, q) + stk(s.drop_last(), q) }
}
pub open spec fn stok<T>(s: Seq<(T, usize)>, n: int) -> bool
    decreases s.len()
{
    if s.len() == 0 { true } else { s.last().1 <= n && stok(s.drop_last(), n - s.last().1) }
}
pub open spec fn stz<T>(s: Seq<(Tree<T>, usize)>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 1 + sz(s.last().0) + stz(s.drop_last()) }
}
pub open spec fn refs<T>(s: Seq<(&Tree<T>, usize)>) -> Seq<(Tree<T>, usize)> { s.map_values(|e: (&Tree<T>, usize)| (*e.0, e.1)) }
pub broadcast proof fn lemma_stk_push<T>(s: Seq<(Tree<T>, usize)>, e: (Tree<T>, usize), p: Seq<u8>)
    ensures #[trigger] stk(s.push(e), p) == tseq(e.0, p.subrange(0, p.len() - e.1)) + stk(s, p.subrange(0, p.len() - e.1)),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_stok_push<T>(s: Seq<(T, usize)>, e: (T, usize), n: int)
    ensures #[trigger] stok(s.push(e), n) == (e.1 <= n && stok(s, n - e.1)),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_stz_push<T>(s: Seq<(Tree<T>, usize)>, e: (Tree<T>, usize))
    ensures #[trigger] stz(s.push(e)) == 1 + sz(e.0) + stz(s),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_refs_push<T>(s: Seq<(&Tree<T>, usize)>, e: (&Tree<T>, usize))
    ensures #[trigger] refs(s.push(e)) == refs(s).push((*e.0, e.1)),
{ assert(refs(s.push(e)) =~= refs(s).push((*e.0, e.1))); }
pub broadcast proof fn lemma_refs_drop<T>(s: Seq<(&Tree<T>, usize)>)
    requires s.len() > 0,
    ensures #[trigger] refs(s.drop_last()) == refs(s).drop_last(),
{ assert(refs(s.drop_last()) =~= refs(s).drop_last()); }
pub broadcast proof fn lemma_stok_refs<T>(s: Seq<(&Tree<T>, usize)>, n: int)
    ensures #[trigger] stok(refs(s), n) == stok(s, n),
    decreases s.len(),
{ if s.len() > 0 { assert(refs(s).drop_last() =~= refs(s.drop_last())); lemma_stok_refs(s.drop_last(), n - s.last().1); } }
// mutable iterators
pub open spec fn mt<T>(c: Option<&mut Node<T>>) -> Tree<T> { match c { None => None, Some(n) => Some(Box::new(*n)) } }
#[verifier::prophetic]
pub open spec fn ft<T>(c: Option<&mut Node<T>>) -> Tree<T> { match c { None => None, Some(n) => Some(Box::new(*final(n))) } }
pub open spec fn mstk<T>(s: Seq<(&mut Tree<T>, usize)>, p: Seq<u8>) -> Seq<(Seq<u8>, T)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let q = p.subrange(0, p.len() - s.last().1); tseq(*s.last().0, q) + mstk(s.drop_last(), q) }
}
#[verifier::prophetic]
pub open spec fn fstk<T>(s: Seq<(&mut Tree<T>, usize)>, p: Seq<u8>) -> Seq<(Seq<u8>, T)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let q = p.subrange(0, p.len() - s.last().1); tseq(*final(s.last().0), q) + fstk(s.drop_last(), q) }
}
pub open spec fn mstz<T>(s: Seq<(&mut Tree<T>, usize)>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 1 + sz(*s.last().0) + mstz(s.drop_last()) }
}
pub broadcast proof fn lemma_mstk_push<T>(s: Seq<(&mut Tree<T>, usize)>, e: (&mut Tree<T>, usize), p: Seq<u8>)
    ensures #[trigger] mstk(s.push(e), p) == tseq(*old(e.0), p.subrange(0, p.len() - e.1)) + mstk(s, p.subrange(0, p.len() - e.1)),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_fstk_push<T>(s: Seq<(&mut Tree<T>, usize)>, e: (&mut Tree<T>, usize), p: Seq<u8>)
    ensures #[trigger] fstk(s.push(e), p) == tseq(*final(e.0), p.subrange(0, p.len() - e.1)) + fstk(s, p.subrange(0, p.len() - e.1)),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_mstz_push<T>(s: Seq<(&mut Tree<T>, usize)>, e: (&mut Tree<T>, usize))
    ensures #[trigger] mstz(s.push(e)) == 1 + sz(*old(e.0)) + mstz(s),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast group group_iter { lemma_back, lemma_stk_push, lemma_stok_push, lemma_stz_push, lemma_refs_push, lemma_refs_drop, lemma_stok_refs, lemma_mstk_push, lemma_fstk_push, lemma_mstz_push }
//@ spec radix::map
impl<T> View for RadixMapIntoIter<T> {
    type V = Seq<(Seq<u8>, T)>;
    open spec fn view(&self) -> Seq<(Seq<u8>, T)> { tseq(self.current, self.prefix@) + stk(self.stack@, self.prefix@) }
}
impl<T> RadixMapIntoIter<T> {
    pub open spec fn inv(&self) -> bool { stok(self.stack@, self.prefix@.len() as int) }
}
impl<'a, T> View for RadixMapIter<'a, T> {
    type V = Seq<(Seq<u8>, T)>;
    open spec fn view(&self) -> Seq<(Seq<u8>, T)> { tseq(*self.current, self.prefix@) + stk(refs(self.stack@), self.prefix@) }
}
impl<'a, T> RadixMapIter<'a, T> {
    pub open spec fn inv(&self) -> bool { stok(self.stack@, self.prefix@.len() as int) }
}
impl<'a, T> RadixMapIterMut<'a, T> {
    pub open spec fn inv(&self) -> bool { stok(self.stack@, self.prefix@.len() as int) }
    pub open spec fn cur(&self) -> Seq<(Seq<u8>, T)> { tseq(mt(self.current), self.prefix@) + mstk(self.stack@, self.prefix@) }
#[verifier::prophetic]
    pub open spec fn fut(&self) -> Seq<(Seq<u8>, T)> { tseq(ft(self.current), self.prefix@) + fstk(self.stack@, self.prefix@) }
}
//@ fn radix::map::RadixMap::iter
    ensures ret.inv(), ret@ =~= self@,
//@ fn radix::map::RadixMap::IntoIterator::into_iter
    ensures ret.inv(), ret@ =~= self@,
//@ fn radix::map::RadixMap::iter_mut
    ensures ret.inv(), ret.cur() =~= old(self)@, ret.fut() =~= final(self)@,
//@ fn radix::map::RadixMapIntoIter::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some((k, v)) => old(self)@ =~= seq![(k@, v)] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0
    invariant self.inv(), self@ =~= old(self)@,
    decreases sz(self.current) + stz(self.stack@),
//@ body 0
    let ghost m0 = sz(self.current) + stz(self.stack@);
//@ loop 1
    invariant sz(self.current) + stz(self.stack@) <= m0, self.inv(), self@ =~= old(self)@,
    ensures self.current is None,
    decreases self.current,
//@ fn radix::map::RadixMapIter::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some((k, v)) => old(self)@ =~= seq![(k@, *v)] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0
    invariant self.inv(), self@ =~= old(self)@,
    decreases sz(*self.current) + stz(refs(self.stack@)),
//@ body 0
    let ghost m0 = sz(*self.current) + stz(refs(self.stack@));
//@ loop 1
    invariant sz(*self.current) + stz(refs(self.stack@)) <= m0, self.inv(), self@ =~= old(self)@,
    ensures *self.current is None,
    decreases *self.current,
//@ fn radix::map::RadixMapIterMut::Iterator::next
//@ attr #[verifier::rlimit(60)]
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some((k, v)) => {
                &&& old(self).cur() =~= seq![(k@, *v)] + final(self).cur()
                &&& old(self).fut() =~= seq![(k@, *final(v))] + final(self).fut()
            },
            None => old(self).cur().len() == 0 && final(self).cur().len() == 0 && old(self).fut().len() == 0,
        },
//@ loop 0
    invariant self.inv(), self.cur() =~= old(self).cur(), self.fut() =~= old(self).fut(),
    decreases sz(mt(self.current)) + mstz(self.stack@),
//@ body 0
    let ghost m0 = sz(mt(self.current)) + mstz(self.stack@);
//@ loop 1
    invariant sz(mt(self.current)) + mstz(self.stack@) <= m0, self.inv(), self.cur() =~= old(self).cur(), self.fut() =~= old(self).fut(),
    ensures self.current is None,
    decreases sz(mt(self.current)),
// ---- the set
//@ spec radix::set
use crate::radixlib::*;
use crate::radix::lem::*;
impl View for RadixSet {
    type V = Seq<(Seq<u8>, ())>;
    open spec fn view(&self) -> Seq<(Seq<u8>, ())> { self.map@ }
}
impl RadixSet {
    pub open spec fn has(&self, k: Seq<u8>) -> bool { self.map.lk(k) is Some }
    pub open spec fn inv(&self) -> bool { self.map.inv() }
}
impl View for RadixSetIntoIter {
    type V = Seq<(Seq<u8>, ())>;
    open spec fn view(&self) -> Seq<(Seq<u8>, ())> { self.map_iter@ }
}
impl<'a> View for RadixSetIter<'a> {
    type V = Seq<(Seq<u8>, ())>;
    open spec fn view(&self) -> Seq<(Seq<u8>, ())> { self.map_iter@ }
}
//@ fn radix::set::RadixSet::new
    ensures ret.inv(), ret@.len() == 0, forall|k: Seq<u8>| !#[trigger] ret.has(k),
//@ fn radix::set::RadixSet::Default::default
    ensures ret.inv(), ret@.len() == 0, forall|k: Seq<u8>| !#[trigger] ret.has(k),
//@ fn radix::set::RadixSet::insert
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures
        final(self).inv(),
        forall|k: Seq<u8>| #[trigger] final(self).has(k) == (k == key@ || old(self).has(k)),
        final(self)@.len() == old(self)@.len() + (if old(self).has(key@) { 0int } else { 1 }),
        if old(self).has(key@) { ret matches Some(r) && r@ == key@ } else { ret is None },
//@ fn radix::set::RadixSet::remove
    requires old(self).inv(),
    ensures
        final(self).inv(),
        forall|k: Seq<u8>| #[trigger] final(self).has(k) == (k != key@ && old(self).has(k)),
        final(self)@.len() == old(self)@.len() - (if old(self).has(key@) { 1int } else { 0 }),
        if old(self).has(key@) { ret matches Some(r) && r@ == key@ } else { ret is None },
//@ fn radix::set::RadixSet::contains
    requires self.inv(),
    ensures ret == self.has(key@),
//@ fn radix::set::RadixSet::len
    requires self.inv(),
    ensures ret == self@.len(),
//@ fn radix::set::RadixSet::is_empty
    requires self.inv(),
    ensures ret == (self@.len() == 0),
//@ fn radix::set::RadixSet::clear
    ensures final(self).inv(), final(self)@.len() == 0, forall|k: Seq<u8>| !#[trigger] final(self).has(k),
//@ fn radix::set::RadixSet::get_longest_prefix
    requires self.inv(),
    ensures kk(ret@) == best(ks(self@), key@),
//@ fn radix::set::RadixSet::min
    requires self.inv(),
    ensures kopt(ret) == first(self@),
//@ fn radix::set::RadixSet::max
    requires self.inv(),
    ensures kopt(ret) == lastk(self@),
//@ fn radix::set::RadixSet::iter
    ensures ret.map_iter.inv(), ret@ =~= self@,
//@ fn radix::set::RadixSet::IntoIterator::into_iter
    ensures ret.map_iter.inv(), ret@ =~= self@,
//@ fn radix::set::RadixSetIntoIter::Iterator::next
    requires old(self).map_iter.inv(),
    ensures
        final(self).map_iter.inv(),
        match ret {
            Some(k) => old(self)@ =~= seq![(k@, ())] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ fn radix::set::RadixSetIter::Iterator::next
    requires old(self).map_iter.inv(),
    ensures
        final(self).map_iter.inv(),
        match ret {
            Some(k) => old(self)@ =~= seq![(k@, ())] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ spec radix::thm
use crate::radixlib::*;
use crate::radix::lem::*;
use crate::radix::map::RadixMap;
use crate::radix::tree::Tree;
// what the contracts above mean for a map as a whole
pub proof fn theorem_view<T>(m: RadixMap<T>)
    requires m.inv(),
    ensures
        forall|i: int, j: int| 0 <= i < j < m@.len() ==> lexlt(#[trigger] m@[i].0, #[trigger] m@[j].0),
        forall|k: Seq<u8>, v: T| (#[trigger] m.lk(k)) == Some(v) <==> #[trigger] m@.contains((k, v)),
        m.len == m@.len(),
{
    lemma_root(m.root);
    assert forall|k: Seq<u8>, v: T| (#[trigger] m.lk(k)) == Some(v) <==> #[trigger] m@.contains((k, v)) by { assert(has(seqof(m.root), k, v) == m@.contains((k, v))); }
}
// path compression: below the root, a node holds a value or has at least two children
pub open spec fn below<T>(t: Tree<T>, c: crate::radix::node::Node<T>) -> bool
    decreases t
{
    match t { None => false, Some(n) => *n == c || below(n.child, c) || below(n.next, c) }
}
pub proof fn lemma_compressed<T>(t: Tree<T>, lo: int, c: crate::radix::node::Node<T>)
    requires wft(t, lo), below(t, c),
    ensures c.key@.len() > 0, c.value is Some || (c.child matches Some(d) && d.next is Some),
    decreases t,
{
    let n = *(t->0);
    if n == c {} else if below(n.child, c) { lemma_compressed(n.child, 0, c); } else { lemma_compressed(n.next, n.key@[0] + 1, c); }
}
pub proof fn theorem_compressed<T>(m: RadixMap<T>, c: crate::radix::node::Node<T>)
    requires m.inv(), m.root matches Some(r) && below(r.child, c),
    ensures c.key@.len() > 0, c.value is Some || (c.child matches Some(d) && d.next is Some),
{ lemma_compressed((m.root->0).child, 0, c); }
