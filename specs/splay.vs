//@ include omap.vs
//@ file src/splay_tree/node.rs as splay_tree::node
//@ file src/splay_tree/tree.rs as splay_tree::tree
//@ file src/splay_tree/map.rs as splay_tree::map
//@ file src/splay_tree/set.rs as splay_tree::set
//@ include bst_tree.vs m=splay_tree
//@ include bst_map.vs X=Splay m=splay_tree
//@ include bst_set.vs X=Splay m=splay_tree
//@ prelude
pub mod splaylib {
use vstd::prelude::*;
use crate::vp::*;
use crate::omap::*;
use crate::entry::Entry;
pub open spec fn take<A>(s: Seq<A>, a: int) -> Seq<A> { s.subrange(0, a) }
pub open spec fn skip<A>(s: Seq<A>, a: int) -> Seq<A> { s.subrange(a, s.len() as int) }
// m is s[a..a + |m|]
pub open spec fn mid<A>(s: Seq<A>, a: int, m: Seq<A>) -> bool {
    0 <= a && a + m.len() <= s.len() && s.subrange(a, a + m.len()) == m
}
pub broadcast proof fn lemma_mid<T: Ord, U>(s: Seq<Entry<T, U>>, a: int, l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>)
    requires #[trigger] mid(s, a, cat(l, x, r)), sorted(s),
    ensures
        ({
            let b = a + cat(l, x, r).len();
            &&& b == a + l.len() + 1 + r.len()
            &&& mid(s, a, l)
            &&& mid(s, a + l.len() + 1, r)
            &&& skip(s, a + l.len()) == seq![x] + r + skip(s, b)
            &&& take(s, a + l.len() + 1) == take(s, a) + l + seq![x]
            &&& forall|k: real| k < rk(x) && above(skip(s, b), k) ==> #[trigger] above(skip(s, a + l.len()), k)
            &&& forall|k: real| k > rk(x) && below(take(s, a), k) ==> #[trigger] below(take(s, a + l.len() + 1), k)
            &&& forall|k: real| k >= rk(x) && below(take(s, a), k) ==> #[trigger] below(take(s, a) + l, k)
            &&& forall|k: real| k <= rk(x) && above(skip(s, b), k) ==> #[trigger] above(r + skip(s, b), k)
            &&& cat(take(s, a) + l, x, r + skip(s, b)) == s
            &&& l.len() == 0 ==> take(s, a) + l == take(s, a)
            &&& r.len() == 0 ==> r + skip(s, b) == skip(s, b)
        }),
{
    let m = cat(l, x, r);
    let b = a + m.len();
    let n = l.len() as int;
    assert forall|i: int| 0 <= i < m.len() implies s[a + i] == #[trigger] m[i] by { assert(s.subrange(a, b)[i] == s[a + i]); }
    assert(m[n] == x);
    assert forall|i: int| 0 <= i < n implies s[a + i] == #[trigger] l[i] by { assert(m[i] == l[i]); }
    assert forall|i: int| 0 <= i < r.len() implies s[a + n + 1 + i] == #[trigger] r[i] by { assert(m[n + 1 + i] == r[i]); }
    assert(s.subrange(a, a + n) =~= l);
    assert(s.subrange(a + n + 1, a + n + 1 + r.len()) =~= r);
    assert(skip(s, a + n) =~= seq![x] + r + skip(s, b)) by {
        let u = seq![x] + r + skip(s, b);
        assert forall|i: int| 0 <= i < u.len() implies skip(s, a + n)[i] == u[i] by {
            if 0 < i <= r.len() { assert(r[i - 1] == s[a + n + i]); }
        }
    }
    assert(take(s, a + n + 1) =~= take(s, a) + l + seq![x]) by {
        let u = take(s, a) + l + seq![x];
        assert forall|i: int| 0 <= i < u.len() implies take(s, a + n + 1)[i] == u[i] by {
            if a <= i < a + n { assert(l[i - a] == s[i]); }
        }
    }
    assert(cat(take(s, a) + l, x, r + skip(s, b)) =~= s) by {
        let u = cat(take(s, a) + l, x, r + skip(s, b));
        assert forall|i: int| 0 <= i < u.len() implies s[i] == u[i] by {
            if a <= i < a + n { assert(l[i - a] == s[i]); }
            if a + n < i < b { assert(r[i - a - n - 1] == s[i]); }
        }
    }
    assert(s[a + n] == x);
    assert forall|k: real| k < rk(x) && above(skip(s, b), k) implies #[trigger] above(skip(s, a + l.len()), k) by {
        assert forall|i: int| 0 <= i < skip(s, a + n).len() implies rk(#[trigger] skip(s, a + n)[i]) > k by {
            assert(skip(s, a + n)[i] == s[a + n + i]);
            if i > 0 { assert(rk(s[a + n]) < rk(s[a + n + i])); }
        }
    }
    assert forall|k: real| k > rk(x) && below(take(s, a), k) implies #[trigger] below(take(s, a + l.len() + 1), k) by {
        assert forall|i: int| 0 <= i < take(s, a + n + 1).len() implies rk(#[trigger] take(s, a + n + 1)[i]) < k by {
            assert(take(s, a + n + 1)[i] == s[i]);
            if i < a + n { assert(rk(s[i]) < rk(s[a + n])); }
        }
    }
    assert forall|k: real| k >= rk(x) && below(take(s, a), k) implies #[trigger] below(take(s, a) + l, k) by {
        let u = take(s, a) + l;
        assert forall|i: int| 0 <= i < u.len() implies rk(#[trigger] u[i]) < k by {
            assert(u[i] == s[i]) by { if i >= a { assert(u[i] == l[i - a]); } }
            assert(rk(s[i]) < rk(s[a + n]));
        }
    }
    assert forall|k: real| k <= rk(x) && above(skip(s, b), k) implies #[trigger] above(r + skip(s, b), k) by {
        let u = r + skip(s, b);
        assert forall|i: int| 0 <= i < u.len() implies rk(#[trigger] u[i]) > k by {
            assert(u[i] == s[a + n + 1 + i]) by { if i < r.len() { assert(u[i] == r[i]); } }
            assert(rk(s[a + n]) < rk(s[a + n + 1 + i]));
        }
    }
    if l.len() == 0 { assert(take(s, a) + l =~= take(s, a)); }
    if r.len() == 0 { assert(r + skip(s, b) =~= skip(s, b)); }
}
pub proof fn lemma_start<T: Ord, U>(s: Seq<Entry<T, U>>, k: real)
    ensures
        mid(s, 0, s), below(take(s, 0), k), above(skip(s, s.len() as int), k),
        forall|t: Seq<Entry<T, U>>| take(s, 0) + t == t,
        forall|t: Seq<Entry<T, U>>| t + skip(s, s.len() as int) == t,
{
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|t: Seq<Entry<T, U>>| take(s, 0) + t == t by { assert(take(s, 0) + t =~= t); }
    assert forall|t: Seq<Entry<T, U>>| t + skip(s, s.len() as int) == t by { assert(t + skip(s, s.len() as int) =~= t); }
}
pub broadcast proof fn lemma_assoc_r<T, U>(f: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, t: Seq<Entry<T, U>>)
    ensures #[trigger] (cat(f, x, r) + t) == f + (seq![x] + r + t),
{ assert(cat(f, x, r) + t =~= f + (seq![x] + r + t)); }
pub broadcast proof fn lemma_assoc_l<T, U>(t: Seq<Entry<T, U>>, l: Seq<Entry<T, U>>, x: Entry<T, U>, f: Seq<Entry<T, U>>)
    ensures #[trigger] (t + cat(l, x, f)) == (t + l + seq![x]) + f,
{ assert(t + cat(l, x, f) =~= (t + l + seq![x]) + f); }
// after splaying: everything that follows from the root being next to k
pub broadcast proof fn lemma_done<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires sorted(cat(l, x, r)), below(l, k), above(r, k),
    ensures
        #![trigger cat(l, x, r), below(l, k), above(r, k)]
        ({
            let s = cat(l, x, r);
            &&& sorted(l) && sorted(r)
            &&& hask(s, k) == (rk(x) == k)
            &&& rem(s, k) == (if rk(x) == k { l + r } else { s })
            &&& at(s, k) == (if rk(x) == k { Some(x) } else { None })
            &&& rk(x) == k ==> s[pos(s, k)] == x && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l, e, r)
            &&& forall|e: Entry<T, U>| rk(e) == k ==> #[trigger] ins(s, e) == (
                if k < rk(x) { cat(l, e, cat(Seq::empty(), x, r)) }
                else if k == rk(x) { cat(l, e, r) }
                else { cat(cat(l, x, Seq::empty()), e, r) })
        }),
{
    let s = cat(l, x, r);
    lemma_cat(l, x, r, k);
    lemma_parts(l, x, r);
    lemma_pos_unique(l, k, l.len() as int);
    lemma_pos_unique(r, k, 0);
    lemma_upd(l, x, r, k);
    assert(rem(s, k) =~= (if rk(x) == k { l + r } else { s }));
    assert forall|e: Entry<T, U>| rk(e) == k implies #[trigger] ins(s, e) == (
                if k < rk(x) { cat(l, e, cat(Seq::empty(), x, r)) }
                else if k == rk(x) { cat(l, e, r) }
                else { cat(cat(l, x, Seq::empty()), e, r) }) by {
        lemma_cat_ins(l, x, r, e);
        if k < rk(x) { assert(ins(s, e) =~= cat(l, e, cat(Seq::empty(), x, r))); }
        if k > rk(x) { assert(ins(s, e) =~= cat(cat(l, x, Seq::empty()), e, r)); }
    }
}
// splaying for a key above everything leaves the right subtree empty
pub broadcast proof fn lemma_all_below<T: Ord, U>(l: Seq<Entry<T, U>>, x: Entry<T, U>, r: Seq<Entry<T, U>>, k: real)
    requires #[trigger] below(cat(l, x, r), k), #[trigger] above(r, k),
    ensures r.len() == 0, forall|t: Seq<Entry<T, U>>| cat(l, x, r) + t == #[trigger] cat(l, x, t),
{
    if r.len() > 0 {
        assert(cat(l, x, r)[l.len() as int + 1] == r[0]);
    }
    assert forall|t: Seq<Entry<T, U>>| cat(l, x, r) + t == #[trigger] cat(l, x, t) by { assert(cat(l, x, r) + t =~= cat(l, x, t)); }
}
pub broadcast proof fn lemma_nil<T, U>(t: Seq<Entry<T, U>>)
    ensures #[trigger] (Seq::<Entry<T, U>>::empty() + t) == t,
{ assert(Seq::<Entry<T, U>>::empty() + t =~= t); }
pub broadcast group group_done { lemma_done, lemma_all_below, lemma_nil, crate::omap::b_rem0, crate::omap::b_at0, crate::omap::b_ins0 }
pub broadcast group group_splay { lemma_mid, lemma_assoc_l, lemma_assoc_r, crate::omap::b_parts }

}
//@ cmpops splay_tree::tree::remove key
//@ cmpops splay_tree::tree::get_mut key

//@ spec splay_tree::tree
use crate::splaylib::*;
broadcast use crate::splaylib::group_splay;
pub open spec fn stop<T: Ord, U>(n: Node<T, U>, k: real) -> bool {
    &&& k < rk(n.entry) ==> n.left is None
    &&& k > rk(n.entry) ==> n.right is None
}
pub open spec fn keep<T, U>(a: Tree<T, U>, b: Tree<T, U>) -> bool { true }
//@ subst splay_tree::tree::insert `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ spec splay_tree::node
use crate::omap::*;
use crate::splay_tree::tree::*;

//@ fn splay_tree::node::Node::new
    ensures ret.entry.key == key, ret.entry.value == value, ret.left is None, ret.right is None,
//@ fn splay_tree::node::Node::rotate_left
    requires old(self).right is Some,
    ensures
        nv(*final(self)) == nv(*old(self)),
        ({
            let c = old(self).right->0;
            &&& final(self).right == c.right && final(self).entry == c.entry
            &&& final(self).left is Some
            &&& final(self).left->0.left == old(self).left
            &&& final(self).left->0.right == c.left
            &&& final(self).left->0.entry == old(self).entry
        }),
//@ entry
    proof {
        let c = self.right->0;
        assert(cat(cat(view(self.left), self.entry, view(c.left)), c.entry, view(c.right)) =~= cat(view(self.left), self.entry, cat(view(c.left), c.entry, view(c.right))));
    }
//@ fn splay_tree::node::Node::rotate_right
    requires old(self).left is Some,
    ensures
        nv(*final(self)) == nv(*old(self)),
        ({
            let c = old(self).left->0;
            &&& final(self).left == c.left && final(self).entry == c.entry
            &&& final(self).right is Some
            &&& final(self).right->0.right == old(self).right
            &&& final(self).right->0.left == c.right
            &&& final(self).right->0.entry == old(self).entry
        }),
//@ entry
    proof {
        let c = self.left->0;
        assert(cat(view(c.left), c.entry, cat(view(c.right), self.entry, view(self.right))) =~= cat(cat(view(c.left), c.entry, view(c.right)), self.entry, view(self.right)));
    }

//@ fn splay_tree::tree::splay
    requires sorted(nv(**old(node))),
    ensures
        nv(**final(node)) =~= nv(**old(node)),
        below(view(final(node).left), key.rank()),
        above(view(final(node).right), key.rank()),
//@ entry
    hide(cat); hide(mid); hide(take); hide(skip); hide(below); hide(above); hide(sorted);
    proof { lemma_start(nv(**node), key.rank()); }
//@ loop 0
    invariant
        sorted(nv(**old(node))),
        *left is None, *right is None,
        ({
            let s = nv(**old(node));
            let m = nv(**node);
            let a = view(after_borrow(right_subtree)).len() - view(*final(left)).len();
            &&& mid(s, a, m)
            &&& view(after_borrow(right_subtree)) == take(s, a) + view(*final(left))
            &&& view(after_borrow(left_subtree)) == view(*final(right)) + skip(s, a + m.len())
            &&& below(take(s, a), key.rank())
            &&& above(skip(s, a + m.len()), key.rank())
        }),
    ensures
        stop(**node, key.rank()),
    decreases nv(**node).len(),
//@ fn splay_tree::tree::insert
    requires
        sorted(view(*old(tree))),
        new_node.left is None, new_node.right is None,
    ensures
        view(*final(tree)) == ins(view(*old(tree)), new_node.entry),
        ret == at(view(*old(tree)), rk(new_node.entry)),
//@ entry
    hide(ins); hide(rem); hide(at); hide(hask); hide(below); hide(above);
    broadcast use crate::splaylib::group_done;
    proof { reveal_with_fuel(view, 3); }
//@ fn splay_tree::tree::remove
    requires
        sorted(view(*old(tree))),
    ensures
        view(*final(tree)) == rem(view(*old(tree)), key.rank()),
        ret == at(view(*old(tree)), key.rank()),
//@ entry
    hide(ins); hide(rem); hide(at); hide(hask); hide(below); hide(above);
    broadcast use crate::splaylib::group_done;
//@ fn splay_tree::tree::get_mut
//@ entry
    broadcast use crate::splaylib::group_done;
//@ spec splay_tree::map
impl<T, U> SplayMap<T, U> {
    pub open spec fn inv0(&self) -> bool { self.len == self@.len() }
}
