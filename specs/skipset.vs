//@ # skiplist/set.rs
//@ file src/skiplist/set.rs as skiplist::set
//@ spec skiplist::set
use crate::omap::*;
use crate::entry::Entry;
impl<T> View for SkipSet<T> {
    type V = Seq<Entry<T, ()>>;
    open spec fn view(&self) -> Seq<Entry<T, ()>> { self.map@ }
}
impl<T> SkipSet<T> {
    pub open spec fn inv0(&self) -> bool { self.map.inv0() }
}
impl<T: Ord> SkipSet<T> {
    pub open spec fn inv(&self) -> bool { self.map.inv() }
}
impl<T> View for SkipSetIntoIter<T> {
    type V = Seq<Entry<T, ()>>;
    open spec fn view(&self) -> Seq<Entry<T, ()>> { self.map_iter@ }
}
impl<'a, T> View for SkipSetIter<'a, T> {
    type V = Seq<Entry<T, ()>>;
    open spec fn view(&self) -> Seq<Entry<T, ()>> { self.map_iter@ }
}
//@ fn skiplist::set::SkipSet::new
    ensures ret@ == Seq::<Entry<T, ()>>::empty(), ret.inv0(),
//@ fn skiplist::set::SkipSet::Default::default
    ensures ret@ == Seq::<Entry<T, ()>>::empty(), ret.inv0(),
//@ fn skiplist::set::SkipSet::insert
    requires old(self).inv(), old(self)@.len() < usize::MAX,
    ensures
        final(self).inv(),
        final(self)@ == ins(old(self)@, Entry { key, value: () }),
        ret == okey(at(old(self)@, key.rank())),
//@ fn skiplist::set::SkipSet::remove
    requires old(self).inv(),
    ensures
        final(self).inv(),
        final(self)@ == rem(old(self)@, key.rank()),
        ret == okey(at(old(self)@, key.rank())),
//@ fn skiplist::set::SkipSet::contains
    requires self.inv(),
    ensures ret == hask(self@, key.rank()),
//@ fn skiplist::set::SkipSet::len
    requires self.inv0(),
    ensures ret == self@.len(),
//@ fn skiplist::set::SkipSet::is_empty
    requires self.inv0(),
    ensures ret == (self@.len() == 0),
//@ fn skiplist::set::SkipSet::clear
    requires old(self).inv0(),
    ensures final(self)@ == Seq::<Entry<T, ()>>::empty(), final(self).inv0(),
//@ fn skiplist::set::SkipSet::floor
    requires self.inv(),
    ensures oref(ret) == okey(flr(self@, key.rank())),
//@ fn skiplist::set::SkipSet::ceil
    requires self.inv(),
    ensures oref(ret) == okey(cil(self@, key.rank())),
//@ fn skiplist::set::SkipSet::min
    requires self.inv(),
    ensures oref(ret) == okey(first(self@)),
//@ fn skiplist::set::SkipSet::max
    requires self.inv(),
    ensures oref(ret) == okey(last(self@)),
//@ fn skiplist::set::SkipSet::iter
    requires self.map.wf(),
    ensures ret.map_iter.inv(), ret@ == self@,
//@ fn skiplist::set::SkipSet::IntoIterator::into_iter
    requires self.map.wf(),
    ensures ret.map_iter.inv(), ret@ == self@,
//@ fn skiplist::set::SkipSetIntoIter::Iterator::next
    requires old(self).map_iter.inv(),
    ensures
        final(self).map_iter.inv(),
        match ret {
            Some(k) => old(self)@ =~= seq![Entry { key: k, value: () }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ fn skiplist::set::SkipSetIter::Iterator::next
    requires old(self).map_iter.inv(),
    ensures
        final(self).map_iter.inv(),
        match ret {
            Some(k) => old(self)@ =~= seq![Entry { key: *k, value: () }] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ fn skiplist::set::SkipSet::union
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures ret.inv(), is_union(ret@, left@, right@),
//@ fn skiplist::set::SkipSet::intersection
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures ret.inv(), is_inter(ret@, left@, right@),
//@ fn skiplist::set::SkipSet::difference
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures ret.inv(), is_diff(ret@, left@, right@),
//@ fn skiplist::set::SkipSet::symmetric_difference
    requires left.inv(), right.inv(), left@.len() + right@.len() <= usize::MAX,
    ensures ret.inv(), is_sym(ret@, left@, right@),
//@ fn skiplist::set::SkipSet::Add::add
    requires self.inv(), other.inv(), self@.len() + other@.len() <= usize::MAX,
    ensures ret.inv(), is_union(ret@, self@, other@),
//@ fn skiplist::set::SkipSet::Sub::sub
    requires self.inv(), other.inv(), self@.len() + other@.len() <= usize::MAX,
    ensures ret.inv(), is_diff(ret@, self@, other@),
