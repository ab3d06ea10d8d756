//@ # map.rs of the four tree maps; parameters: X (type prefix), m (module)
//@ # needs from $m::tree: Tree, view, nv, ok;  from $m::map: inv0
//@ inherent Iterator
//@ inherent Index
//@ inherent IndexMut
//@ inherent Default
//@ inherent IntoIterator
//@ spec $m::tree
pub open spec fn stk<T, U>(s: Seq<Node<T, U>>) -> Seq<Entry<T, U>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { seq![s.last().entry] + view(s.last().right) + stk(s.drop_last()) }
}
pub open spec fn deref<T, U>(s: Seq<&Node<T, U>>) -> Seq<Node<T, U>> { s.map_values(|n: &Node<T, U>| *n) }
pub broadcast proof fn lemma_stk_push<T, U>(s: Seq<Node<T, U>>, n: Node<T, U>)
    ensures #[trigger] stk(s.push(n)) == seq![n.entry] + view(n.right) + stk(s),
{
    assert(s.push(n).drop_last() =~= s);
}
pub broadcast proof fn lemma_deref_push<T, U>(s: Seq<&Node<T, U>>, n: &Node<T, U>)
    ensures #[trigger] deref(s.push(n)) == deref(s).push(*n),
{
    assert(deref(s.push(n)) =~= deref(s).push(*n));
}
pub broadcast proof fn lemma_deref_sub<T, U>(s: Seq<&Node<T, U>>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures #[trigger] deref(s).subrange(a, b) == deref(s.subrange(a, b)),
{
    assert(deref(s).subrange(a, b) =~= deref(s.subrange(a, b)));
}
pub broadcast group group_stk { lemma_stk_push, lemma_deref_push, lemma_deref_sub }
//@ spec $m::map
use crate::omap::*;
use crate::$m::tree::*;
impl<T, U> View for $XMap<T, U> {
    type V = Seq<Entry<T, U>>;
    open spec fn view(&self) -> Seq<Entry<T, U>> { view(self.tree) }
}
impl<T: Ord, U> $XMap<T, U> {
    pub open spec fn inv(&self) -> bool { self.inv0() && sorted(self@) }
}
//@ fn $m::map::$XMap::new
    ensures ret@ == Seq::<Entry<T, U>>::empty(), ret.inv0(),
//@ fn $m::map::$XMap::Default::default
    ensures ret@ == Seq::<Entry<T, U>>::empty(), ret.inv0(),
//@ fn $m::map::$XMap::insert
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures
        final(self).inv(),
        final(self)@ == ins(old(self)@, Entry { key, value }),
        ret == opair(at(old(self)@, key.rank())),
//@ entry
    proof { lemma_ins(self@, Entry { key, value }); lemma_pos(self@, key.rank()); }
//@ fn $m::map::$XMap::remove
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self)@ == rem(old(self)@, key.rank()),
        ret == opair(at(old(self)@, key.rank())),
//@ entry
    proof { lemma_rem(self@, key.rank()); }
//@ fn $m::map::$XMap::contains_key
    requires self.inv(),
    ensures ret == hask(self@, key.rank()),
//@ fn $m::map::$XMap::get
    requires self.inv(),
    ensures oref(ret) == oval(at(self@, key.rank())),
//@ fn $m::map::$XMap::get_mut
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(r) => {
                let s = old(self)@;
                let p = pos(s, key.rank());
                &&& hask(s, key.rank())
                &&& *r == s[p].value
                &&& final(self)@ == s.update(p, Entry { key: s[p].key, value: *final(r) })
            },
            None => !hask(old(self)@, key.rank()) && final(self)@ == old(self)@,
        },
//@ entry
    proof { lemma_pos(self@, key.rank()); }
//@ fn $m::map::$XMap::len
    requires self.inv0(),
    ensures ret == self@.len(),
//@ fn $m::map::$XMap::is_empty
    requires self.inv0(),
    ensures ret == (self@.len() == 0),
//@ fn $m::map::$XMap::clear
    ensures final(self)@ == Seq::<Entry<T, U>>::empty(), final(self).inv0(),
//@ fn $m::map::$XMap::floor
    requires self.inv(),
    ensures oref(ret) == okey(flr(self@, key.rank())),
//@ fn $m::map::$XMap::ceil
    requires self.inv(),
    ensures oref(ret) == okey(cil(self@, key.rank())),
//@ fn $m::map::$XMap::min
    ensures oref(ret) == okey(first(self@)),
//@ fn $m::map::$XMap::max
    ensures oref(ret) == okey(last(self@)),
//@ fn $m::map::$XMap::Index::index
    requires self.inv(), hask(self@, key.rank()),
    ensures Some(*ret) == oval(at(self@, key.rank())),
//@ fn $m::map::$XMap::IndexMut::index_mut
    requires old(self).inv(), hask(old(self)@, key.rank()),
    ensures
        final(self).inv(),
        ({
            let s = old(self)@;
            let p = pos(s, key.rank());
            &&& *ret == s[p].value
            &&& final(self)@ == s.update(p, Entry { key: s[p].key, value: *final(ret) })
        }),

// ---- iterators: the view of an iterator is the sequence of entries still to come
//@ spec $m::map
broadcast use { group_stk, group_mstk };
impl<T, U> View for $XMapIntoIter<T, U> {
    type V = Seq<Entry<T, U>>;
    open spec fn view(&self) -> Seq<Entry<T, U>> { view(self.current) + stk(self.stack@) }
}
impl<'a, T, U> View for $XMapIter<'a, T, U> {
    type V = Seq<Entry<T, U>>;
    open spec fn view(&self) -> Seq<Entry<T, U>> { view(*self.current) + stk(deref(self.stack@)) }
}
//@ fn $m::map::$XMap::iter
    ensures ret@ =~= self@,
//@ fn $m::map::$XMap::IntoIterator::into_iter
    ensures ret@ =~= self@,
//@ fn $m::map::$XMapIntoIter::Iterator::next
    ensures
        match ret {
            Some((k, v)) => old(self)@ =~= seq![Entry { key: k, value: v }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0
    invariant self@ =~= old(self)@,
    ensures self.current is None,
    decreases self.current,
//@ fn $m::map::$XMapIter::Iterator::next
    ensures
        match ret {
            Some((k, v)) => old(self)@ =~= seq![Entry { key: *k, value: *v }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0
    invariant self@ =~= old(self)@,
    ensures *self.current is None,
    decreases *self.current,
//@ subst $m::map::$XMap::iter_mut `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ subst $m::map::$XMapIterMut::Iterator::next `& mut * * node` => `crate::vp::unbox_mut(node)`
//@ spec $m::tree
pub open spec fn size<T, U>(t: Tree<T, U>) -> nat
    decreases t
{
    match t { None => 0, Some(n) => size(n.left) + size(n.right) + 1 }
}
// entries still to come: as they are now, and as the caller will leave them
pub open spec fn mcur<T, U>(c: Option<&mut Node<T, U>>) -> Seq<Entry<T, U>> {
    match c { None => Seq::empty(), Some(n) => nv(*n) }
}
#[verifier::prophetic]
pub open spec fn mfut<T, U>(c: Option<&mut Node<T, U>>) -> Seq<Entry<T, U>> {
    match c { None => Seq::empty(), Some(n) => nv(*final(n)) }
}
pub open spec fn mstk<T, U>(s: Seq<Option<(&mut Entry<T, U>, Option<&mut Node<T, U>>)>>) -> Seq<Entry<T, U>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        (match s.last() {
            Some((e, r)) => seq![*e] + mcur(r),
            None => Seq::empty(),
        }) + mstk(s.drop_last())
    }
}
#[verifier::prophetic]
pub open spec fn fstk<T, U>(s: Seq<Option<(&mut Entry<T, U>, Option<&mut Node<T, U>>)>>) -> Seq<Entry<T, U>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        (match s.last() {
            Some((e, r)) => seq![*final(e)] + mfut(r),
            None => Seq::empty(),
        }) + fstk(s.drop_last())
    }
}
pub broadcast proof fn lemma_mstk_push<T, U>(s: Seq<Option<(&mut Entry<T, U>, Option<&mut Node<T, U>>)>>, x: Option<(&mut Entry<T, U>, Option<&mut Node<T, U>>)>)
    ensures
        #[trigger] mstk(s.push(x)) == (match x { Some((e, r)) => seq![*e] + mcur(r), None => Seq::empty() }) + mstk(s),
{
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast proof fn lemma_fstk_push<T, U>(s: Seq<Option<(&mut Entry<T, U>, Option<&mut Node<T, U>>)>>, x: Option<(&mut Entry<T, U>, Option<&mut Node<T, U>>)>)
    ensures
        #[trigger] fstk(s.push(x)) == (match x { Some((e, r)) => seq![*final(e)] + mfut(r), None => Seq::empty() }) + fstk(s),
{
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast group group_mstk { lemma_mstk_push, lemma_fstk_push }
//@ spec $m::map
impl<'a, T, U> $XMapIterMut<'a, T, U> {
    pub open spec fn inv(&self) -> bool { forall|i: int| 0 <= i < self.stack@.len() ==> #[trigger] self.stack@[i] is Some }
    pub open spec fn cur(&self) -> Seq<Entry<T, U>> { mcur(self.current) + mstk(self.stack@) }
#[verifier::prophetic]
    pub open spec fn fut(&self) -> Seq<Entry<T, U>> { mfut(self.current) + fstk(self.stack@) }
}
//@ fn $m::map::$XMap::iter_mut
    ensures ret.inv(), ret.cur() =~= old(self)@, ret.fut() =~= final(self)@,

//@ fn $m::map::$XMapIterMut::Iterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some((k, v)) => {
                &&& old(self).cur() =~= seq![Entry { key: *k, value: *v }] + final(self).cur()
                &&& old(self).fut() =~= seq![Entry { key: *k, value: *final(v) }] + final(self).fut()
            },
            None => old(self).cur().len() == 0 && final(self).cur().len() == 0 && old(self).fut().len() == 0,
        },
//@ loop 0
    invariant
        forall|i: int| 0 <= i < stack@.len() ==> #[trigger] stack@[i] is Some,
        mcur(*current) + mstk(stack@) =~= old(self).cur(),
        mfut(*current) + fstk(stack@) =~= old(self).fut(),
    ensures *current is None,
    decreases (match *current { None => 0, Some(n) => size(n.left) + size(n.right) + 1 }),
