//@ # set.rs of the four tree sets
//@ spec $m::set
use crate::omap::*;
use crate::entry::Entry;
impl<T> View for $XSet<T> {
    type V = Seq<Entry<T, ()>>;
    open spec fn view(&self) -> Seq<Entry<T, ()>> { self.map@ }
}
impl<T> $XSet<T> {
    pub open spec fn inv0(&self) -> bool { self.map.inv0() }
}
impl<T: Ord> $XSet<T> {
    pub open spec fn inv(&self) -> bool { self.map.inv() }
}
impl<T> View for $XSetIntoIter<T> {
    type V = Seq<Entry<T, ()>>;
    open spec fn view(&self) -> Seq<Entry<T, ()>> { self.map_iter@ }
}
impl<'a, T> View for $XSetIter<'a, T> {
    type V = Seq<Entry<T, ()>>;
    open spec fn view(&self) -> Seq<Entry<T, ()>> { self.map_iter@ }
}
//@ fn $m::set::$XSet::new
    ensures ret@ == Seq::<Entry<T, ()>>::empty(), ret.inv0(),
//@ fn $m::set::$XSet::Default::default
    ensures ret@ == Seq::<Entry<T, ()>>::empty(), ret.inv0(),
//@ fn $m::set::$XSet::insert
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures
        final(self).inv(),
        final(self)@ == ins(old(self)@, Entry { key, value: () }),
        ret == okey(at(old(self)@, key.rank())),
//@ fn $m::set::$XSet::remove
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self)@ == rem(old(self)@, key.rank()),
        ret == okey(at(old(self)@, key.rank())),
//@ fn $m::set::$XSet::contains
    requires self.inv(),
    ensures ret == hask(self@, key.rank()),
//@ fn $m::set::$XSet::len
    requires self.inv0(),
    ensures ret == self@.len(),
//@ fn $m::set::$XSet::is_empty
    requires self.inv0(),
    ensures ret == (self@.len() == 0),
//@ fn $m::set::$XSet::clear
    ensures final(self)@ == Seq::<Entry<T, ()>>::empty(), final(self).inv0(),
//@ fn $m::set::$XSet::floor
    requires self.inv(),
    ensures oref(ret) == okey(flr(self@, key.rank())),
//@ fn $m::set::$XSet::ceil
    requires self.inv(),
    ensures oref(ret) == okey(cil(self@, key.rank())),
//@ fn $m::set::$XSet::min
    ensures oref(ret) == okey(first(self@)),
//@ fn $m::set::$XSet::max
    ensures oref(ret) == okey(last(self@)),
//@ fn $m::set::$XSet::iter
    ensures ret@ == self@,
//@ fn $m::set::$XSet::IntoIterator::into_iter
    ensures ret@ == self@,
//@ fn $m::set::$XSetIntoIter::Iterator::next
    ensures
        match ret {
            Some(k) => old(self)@ =~= seq![Entry { key: k, value: () }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ fn $m::set::$XSetIter::Iterator::next
    ensures
        match ret {
            Some(k) => old(self)@ =~= seq![Entry { key: *k, value: () }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
