//@ # the shared part of the four tree modules; parameter m (module); needs from the module: keep
//@ spec $m::tree
use crate::omap::*;
pub open spec fn view<T, U>(t: Tree<T, U>) -> Seq<Entry<T, U>>
    decreases t
{
    match t {
        None => Seq::empty(),
        Some(n) => cat(view(n.left), n.entry, view(n.right)),
    }
}
pub open spec fn nv<T, U>(n: Node<T, U>) -> Seq<Entry<T, U>> { cat(view(n.left), n.entry, view(n.right)) }
pub proof fn lemma_node<T: Ord, U>(t: Tree<T, U>, k: real)
    requires sorted(view(t)), t is Some,
    ensures ({
        let n = t->0;
        let l = view(n.left);
        let r = view(n.right);
        let x = n.entry;
        let s = view(t);
        &&& sorted(l) && sorted(r)
        &&& s == cat(l, x, r)
        &&& at(s, k) == (if k < rk(x) { at(l, k) } else if k == rk(x) { Some(x) } else { at(r, k) })
        &&& flr(s, k) == (if k < rk(x) { flr(l, k) } else if k == rk(x) { Some(x) } else if flr(r, k) is Some { flr(r, k) } else { Some(x) })
        &&& cil(s, k) == (if k > rk(x) { cil(r, k) } else if k == rk(x) { Some(x) } else if cil(l, k) is Some { cil(l, k) } else { Some(x) })
    }),
{
    let n = t->0;
    lemma_cat(view(n.left), n.entry, view(n.right), k);
}

//@ fn $m::tree::get
    requires sorted(view(*tree)),
    ensures oref(ret) == at(view(*tree), key.rank()),
    decreases *tree,
//@ entry
    proof {
        lemma_empty::<T, U>(key.rank());
        if (*tree) is Some { lemma_node(*tree, key.rank()); }
    }
//@ fn $m::tree::floor
    requires sorted(view(*tree)),
    ensures oref(ret) == flr(view(*tree), key.rank()),
    decreases *tree,
//@ entry
    proof {
        lemma_empty::<T, U>(key.rank());
        if (*tree) is Some { lemma_node(*tree, key.rank()); }
    }
//@ fn $m::tree::ceil
    requires sorted(view(*tree)),
    ensures oref(ret) == cil(view(*tree), key.rank()),
    decreases *tree,
//@ entry
    proof {
        lemma_empty::<T, U>(key.rank());
        if (*tree) is Some { lemma_node(*tree, key.rank()); }
    }
//@ fn $m::tree::get_mut
    requires sorted(view(*old(tree))),
    ensures
        match ret {
            Some(r) => {
                let s = view(*old(tree));
                let p = pos(s, key.rank());
                &&& hask(s, key.rank())
                &&& *r == s[p]
                &&& view(*final(tree)) == s.update(p, *final(r))
            },
            None => !hask(view(*old(tree)), key.rank()) && view(*final(tree)) == view(*old(tree)),
        },
        keep(*old(tree), *final(tree)), // @bal
    decreases *old(tree),
//@ entry
    proof {
        lemma_empty::<T, U>(key.rank());
        if (*tree) is Some { lemma_node(*tree, key.rank()); lemma_node_upd(*tree, key.rank()); }
    }
//@ fn $m::tree::min
    ensures oref(ret) == first(view(*tree)),
//@ entry
    broadcast use group_omap;
//@ loop 0
    invariant tree is Some, first(nv(**curr)) == first(view(*tree)),
    ensures curr.left is None,
    decreases *curr,
//@ fn $m::tree::max
    ensures oref(ret) == last(view(*tree)),
//@ entry
    broadcast use group_omap;
//@ loop 0
    invariant tree is Some, last(nv(**curr)) == last(view(*tree)),
    ensures curr.right is None,
    decreases *curr,
//@ spec $m::tree
pub proof fn lemma_node_upd<T: Ord, U>(t: Tree<T, U>, k: real)
    requires sorted(view(t)), t is Some,
    ensures ({
        let n = t->0;
        let l = view(n.left);
        let r = view(n.right);
        let x = n.entry;
        let s = view(t);
        &&& hask(s, k) == (if k < rk(x) { hask(l, k) } else if k == rk(x) { true } else { hask(r, k) })
        &&& k < rk(x) && hask(l, k) ==> s[pos(s, k)] == l[pos(l, k)] && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l.update(pos(l, k), e), x, r)
        &&& k == rk(x) ==> s[pos(s, k)] == x && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l, e, r)
        &&& k > rk(x) && hask(r, k) ==> s[pos(s, k)] == r[pos(r, k)] && forall|e: Entry<T, U>| s.update(pos(s, k), e) == #[trigger] cat(l, x, r.update(pos(r, k), e))
    }),
{
    let n = t->0;
    lemma_upd(view(n.left), n.entry, view(n.right), k);
}

