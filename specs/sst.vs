//@ # SSTables of the LSM tree
//@ use std::cmp::Ordering => std::cmp::Ordering
//@ use std::cmp => crate::fsm::cmp
//@ include vp.vs
//@ include omap.vs
//@ file src/lsm_tree/mod.rs as lsm_tree
//@ file src/lsm_tree/sstable.rs as lsm_tree::sstable
//@ results lsm_tree::sstable::SSTable::get
//@ use std::io => crate::fsm::io
//@ use std::fs => crate::fsm::fs
//@ use std::path => crate::fsm
//@ use std::hash::Hash => crate::fsm::Hash
//@ use serde::de::DeserializeOwned => crate::fsm::DeserializeOwned
//@ use serde::ser::Serialize => crate::fsm::Serialize
//@ use serde::de => -
//@ use serde::ser => -
//@ use self::map => -
//@ use serde_derive => -
//@ use bincode => crate::fsm::bincode
//@ use byteorder => -
//@ use probabilistic_collections::bloom => crate::fsm
//@ use rand => -
//@ use std::fmt => -
//@ use std::result => std::result
//@ use std::marker::PhantomData => std::marker::PhantomData
//@ prelude
// ---------------------------------------------------------------------------
// Files that are written once, encodings, Bloom filters (assumed contracts)
// ---------------------------------------------------------------------------
pub mod fsm {
use vstd::prelude::*;
use crate::vp::{Ord, Borrow};
pub trait Serialize {}
pub trait DeserializeOwned {}
pub trait Hash {}
pub struct BigEndian;
// TRUSTED: std::clone::Clone of a user's key type returns an equal value
pub trait Clone: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
}
impl<A: Clone> Clone for Option<A> { fn clone(&self) -> (r: Self) { match self { Some(x) => Some(x.clone()), None => None } } }
impl<A: Clone, B: Clone> Clone for (A, B) { fn clone(&self) -> (r: Self) { (self.0.clone(), self.1.clone()) } }
impl Clone for u64 { fn clone(&self) -> (r: Self) { *self } }
impl<A: Clone> Clone for Vec<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }

// a path; which file it names is left open
#[verifier::external_body]
pub struct Path { p: u8 }
pub type PathBuf = Path;
pub uninterp spec fn joined(p: Path, s: Seq<char>) -> Path;
impl Path {
    #[verifier::external_body]
    pub fn join<S: Name>(&self, s: S) -> (r: Path) ensures r == joined(*self, s.name()) { unimplemented!() }
    pub fn as_path(&self) -> (r: &Path) ensures *r == *self { self }
    #[verifier::external_body]
    pub fn from(p: &Path) -> (r: Path) ensures r == *p { unimplemented!() }
}
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub trait Name { spec fn name(&self) -> Seq<char>; }
impl Name for &str { open spec fn name(&self) -> Seq<char> { self@ } }
impl Name for String { open spec fn name(&self) -> Seq<char> { self@ } }
pub trait AsRef<A> { spec fn path(&self) -> A; fn as_ref(&self) -> (r: &A) ensures *r == self.path(); }
impl AsRef<Path> for Path { open spec fn path(&self) -> Path { *self } fn as_ref(&self) -> (r: &Path) { self } }
impl AsRef<Path> for &Path { open spec fn path(&self) -> Path { **self } fn as_ref(&self) -> (r: &Path) { *self } }

// the bytes bincode writes for a value
pub uninterp spec fn enc<A: ?Sized>(a: &A) -> Seq<u8>;
pub uninterp spec fn dec<A>(b: Seq<u8>) -> A;
// TRUSTED: bincode encodes &A as A, and a pair as a struct of two fields
pub broadcast axiom fn ax_enc_ref<A>(a: &A)
    ensures #[trigger] enc::<&A>(&a) == enc::<A>(a);
pub broadcast axiom fn ax_enc_pair<A, B>(a: A, b: B)
    ensures #[trigger] enc(&(a, b)) == enc(&crate::entry::Entry { key: a, value: b });
// TRUSTED: what bincode has encoded, it decodes again (serde round trip of the key and value types)
pub broadcast axiom fn ax_dec<A>(a: &A)
    ensures #[trigger] dec::<A>(enc(a)) == *a;
pub uninterp spec fn io_fault(e: io::Error) -> bool;
pub uninterp spec fn ser_fault(e: bincode::Error) -> bool;
// byteorder's big-endian numbers
pub uninterp spec fn be(n: u64) -> Seq<u8>;
pub uninterp spec fn debe(b: Seq<u8>) -> u64;
// TRUSTED: a u64 is written as 8 bytes and read back
pub broadcast axiom fn ax_be(n: u64)
    ensures (#[trigger] be(n)).len() == 8, debe(be(n)) == n;
pub open spec fn rec<A>(a: A) -> Seq<u8> { be(enc(&a).len() as u64) + enc(&a) }
// what a file holds when its (only) writer has flushed it
pub uninterp spec fn content(p: Path) -> Seq<u8>;

// TRUSTED: a BufWriter passes on all bytes written to it at the latest when it is flushed; files have fewer than 2^63 bytes;
// TRUSTED: the files of an SSTable are written by one builder (fresh directory) and not changed afterwards
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
pub struct BufWriter<W> { w: W }
impl BufWriter<fs::File> {
    pub uninterp spec fn written(&self) -> Seq<u8>;
    pub uninterp spec fn path(&self) -> Path;
    pub uninterp spec fn open(&self) -> bool;
    pub broadcast axiom fn ax_size(&self)
        ensures (#[trigger] self.written()).len() <= 0x7fff_ffff_ffff_ffff;
    #[verifier::external_body]
    pub fn new(f: fs::File) -> (r: Self)
        requires f.bytes().len() == 0, f.cur() == 0,
        ensures r.written() == Seq::<u8>::empty(), r.path() == f.path(), r.open(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64<E>(&mut self, n: u64) -> (r: Result<(), io::Error>)
        requires old(self).open(),
        ensures final(self).path() == old(self).path(), final(self).open(), r is Ok ==> final(self).written() == old(self).written() + be(n), r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), io::Error>)
        requires old(self).open(),
        ensures final(self).path() == old(self).path(), final(self).open(), r is Ok ==> final(self).written() == old(self).written() + b@, r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    // the last call on a writer
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), io::Error>)
        requires old(self).open(),
        ensures !final(self).open(), r is Ok ==> content(old(self).path()) == old(self).written(), r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
}
pub mod fs {
    use super::*;
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct File { f: u8 }
    impl File {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        pub uninterp spec fn cur(&self) -> int;
        pub uninterp spec fn path(&self) -> Path;
        #[verifier::external_body]
        pub fn create(p: Path) -> (r: Result<File, io::Error>)
            ensures r matches Ok(f) ==> f.bytes() == Seq::<u8>::empty() && f.cur() == 0 && f.path() == p, r matches Err(e) ==> io_fault(e),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn open<P: AsRef<Path>>(p: P) -> (r: Result<File, io::Error>)
            ensures r matches Ok(f) ==> f.bytes() == content(p.path()) && f.cur() == 0 && f.path() == p.path(), r matches Err(e) ==> io_fault(e),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, to: io::SeekFrom) -> (r: Result<u64, io::Error>)
            ensures
                final(self).bytes() == old(self).bytes(),
                r is Ok ==> (to matches io::SeekFrom::Start(n) ==> final(self).cur() == n),
                r matches Err(e) ==> io_fault(e),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_exact(&mut self, d: &mut [u8]) -> (r: Result<(), io::Error>)
            ensures
                final(self).bytes() == old(self).bytes(), final(d)@.len() == old(d)@.len(),
                r is Ok ==> old(self).cur() + old(d)@.len() <= old(self).bytes().len() && final(d)@ == old(self).bytes().subrange(old(self).cur(), old(self).cur() + old(d)@.len())
                    && final(self).cur() == old(self).cur() + old(d)@.len(),
                r matches Err(e) ==> io_fault(e) || (e.eof() && old(self).cur() + old(d)@.len() > old(self).bytes().len()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_u64<E>(&mut self) -> (r: Result<u64, io::Error>)
            ensures
                final(self).bytes() == old(self).bytes(),
                r matches Ok(n) ==> old(self).cur() + 8 <= old(self).bytes().len() && n == debe(old(self).bytes().subrange(old(self).cur(), old(self).cur() + 8))
                    && final(self).cur() == old(self).cur() + 8,
                r matches Err(e) ==> (io_fault(e) && !e.eof()) || (e.eof() && old(self).cur() + 8 > old(self).bytes().len()),
                // nothing is read at the end of the file
                r is Err && old(self).cur() == old(self).bytes().len() ==> final(self).cur() == old(self).cur(),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn create_dir<P>(p: P) -> (r: Result<(), io::Error>)
        ensures r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(p: Path, b: &[u8]) -> (r: Result<(), io::Error>)
        ensures r is Ok ==> content(p) == b@, r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(p: Path) -> (r: Result<Vec<u8>, io::Error>)
        ensures r matches Ok(b) ==> b@ == content(p), r matches Err(e) ==> io_fault(e),
    { unimplemented!() }
}
pub mod io {
    use vstd::prelude::*;
    pub use super::BufWriter;
    #[verifier::external_body]
    pub struct Error { e: u8 }
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    pub enum ErrorKind { UnexpectedEof, Other }
    impl Error {
        pub uninterp spec fn eof(&self) -> bool;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r is UnexpectedEof <==> self.eof() { unimplemented!() }
    }
    pub trait Read {}
    pub trait Write {}
    pub trait Seek {}
}
pub mod bincode {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Error { e: u8 }
    #[verifier::external_body]
    pub fn serialize<A: ?Sized>(a: &A) -> (r: Result<Vec<u8>, Error>)
        ensures r matches Ok(v) ==> v@ == enc(a), r matches Err(e) ==> ser_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialized_size<A: ?Sized>(a: &A) -> (r: Result<u64, Error>)
        ensures r matches Ok(n) ==> n == enc(a).len(), r matches Err(e) ==> ser_fault(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<A>(b: &[u8]) -> (r: Result<A, Error>)
        ensures enc(&dec::<A>(b@)) == b@ ==> r == Ok::<A, Error>(dec::<A>(b@)),
    { unimplemented!() }
}
// TRUSTED: a Bloom filter has no false negatives; keys that compare equal hash alike (contracts of Hash and Borrow)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BloomFilter<T> { t: Option<T> }
impl<T: Ord> BloomFilter<T> {
    pub uninterp spec fn has(&self, r: real) -> bool;
    #[verifier::external_body]
    pub fn insert(&mut self, k: &T)
        ensures final(self).has(k.rank()), forall|r: real| old(self).has(r) ==> #[trigger] final(self).has(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<V: Ord + ?Sized>(&self, k: &V) -> (r: bool)
        where T: Borrow<V>,
        ensures self.has(k.rank()) ==> r,
    { unimplemented!() }
}
impl<T> BloomFilter<T> {
    #[verifier::external_body]
    pub fn new(n: usize, p: f64) -> Self { unimplemented!() }
}
// (n as f64).sqrt().ceil() as usize: any number will do
#[verifier::external_body]
pub fn block_size(n: usize) -> usize { unimplemented!() }
// slice::binary_search_by_key on the keys of the index
#[verifier::external_body]
pub fn search_key<T: Borrow<V>, V: Ord + ?Sized>(b: &Vec<(T, u64)>, key: &V) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < b@.len() ==> (#[trigger] b@[i]).0.rank() < (#[trigger] b@[j]).0.rank(),
    ensures
        r matches Ok(i) ==> i < b@.len() && b@[i as int].0.rank() == key.rank(),
        r is Err ==> forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]).0.rank() != key.rank(),
{ unimplemented!() }
pub mod cmp {
    pub use std::cmp::Ordering;
    pub use super::Reverse;
    use vstd::prelude::*;
    use crate::vp::Ord;
    // std::cmp::min and max, verified against their documentation
    pub trait Total: Sized { spec fn tot(self) -> real; fn less(a: &Self, b: &Self) -> (r: bool) ensures r == (a.tot() < b.tot()); }
    impl<A: Ord> Total for A { open spec fn tot(self) -> real { self.rank() } fn less(a: &Self, b: &Self) -> (r: bool) { crate::vp::lt(a, b) } }
    impl Total for u64 { open spec fn tot(self) -> real { self as real } fn less(a: &Self, b: &Self) -> (r: bool) { *a < *b } }
    impl Total for usize { open spec fn tot(self) -> real { self as real } fn less(a: &Self, b: &Self) -> (r: bool) { *a < *b } }
    pub fn min<A: Total>(a: A, b: A) -> (r: A) ensures r == (if b.tot() < a.tot() { b } else { a }) { if A::less(&b, &a) { b } else { a } }
    pub fn max<A: Total>(a: A, b: A) -> (r: A) ensures r == (if b.tot() < a.tot() { a } else { b }) { if A::less(&b, &a) { a } else { b } }
}
impl<A: Ord> Ord for &A {
    open spec fn rank(&self) -> real { (**self).rank() }
    fn cmp(&self, other: &Self) -> (r: std::cmp::Ordering) { Ord::cmp(*self, *other) }
}
pub struct Reverse<A>(pub A);
}
//@ skip lsm_tree::sstable::SSTable::Debug
//@ skip lsm_tree::sstable::SSTable::Serialize
//@ skip lsm_tree::sstable::SSTable::Deserialize
//@ external lsm_tree::sstable::SSTableBuilder::generate_file_name
//@ keep lsm_tree::Error::From
//@ try lsm_tree
//@ keep lsm_tree::sstable::SSTableValue::Ord
//@ inherent lsm_tree::sstable::SSTableValue::PartialOrd
//@ inherent lsm_tree::sstable::SSTableValue::PartialEq
//@ inherent Iterator
//@ cmpops lsm_tree::sstable::is_intersecting l
//@ cmpops lsm_tree::sstable::SSTable::floor_offset key
//@ cmpops lsm_tree::sstable::SSTable::get key
//@ subst lsm_tree::sstable::SSTableBuilder::new `(entry_count_hint as f64).sqrt().ceil() as usize` => `block_size(entry_count_hint)`
//@ subst lsm_tree::sstable::SSTable::get `index_block.binary_search_by_key(&key, |index_entry| index_entry.0.borrow())` => `search_key(&index_block, key)`
//@ spec lsm_tree
use crate::fsm::*;
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: io::Error) -> Error { Error::IOError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<bincode::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: bincode::Error) -> Error { Error::SerdeError(e) } }
// the device failed, or a key or value type refused to be serialized
pub open spec fn fault(e: Error) -> bool { match e { Error::IOError(x) => io_fault(x), Error::SerdeError(x) => ser_fault(x) } }
//@ spec lsm_tree::sstable
use crate::fsm::*;
use crate::omap::*;
use crate::lsm_tree::fault;
broadcast use {ax_enc_ref, ax_enc_pair, ax_dec, ax_be, BufWriter::ax_size};
global size_of usize == 8;

pub open spec fn lim() -> int { 0x7fff_ffff_ffff_ffff }
// records one after another
pub open spec fn recs<A>(s: Seq<A>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { recs(s.drop_last()) + rec(s.last()) } }
pub open spec fn roff<A>(s: Seq<A>, i: int) -> int { recs(s.take(i)).len() as int }
pub open spec fn unrecs<A>(b: Seq<u8>) -> Seq<A> { choose|s: Seq<A>| #[trigger] recs(s) == b }

pub proof fn lemma_push<A>(s: Seq<A>, a: A)
    ensures recs(s.push(a)) == recs(s) + rec(a), rec(a).len() == 8 + enc(&a).len(),
{ assert(s.push(a).drop_last() =~= s); }
pub proof fn lemma_at<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(),
    ensures
        rec(s[i]).len() == 8 + enc(&s[i]).len(),
        roff(s, i + 1) == roff(s, i) + rec(s[i]).len() <= recs(s).len(),
        recs(s).subrange(roff(s, i), roff(s, i) + 8) == be(enc(&s[i]).len() as u64),
        recs(s).subrange(roff(s, i) + 8, roff(s, i) + 8 + enc(&s[i]).len()) == enc(&s[i]),
    decreases s.len(),
{
    let l = s.drop_last();
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i < s.len() - 1 {
        lemma_at(l, i);
        assert(l.take(i) =~= s.take(i));
        assert(l.take(i + 1) =~= s.take(i + 1));
    } else {
        assert(l =~= s.take(i));
        assert(s.take(i + 1) =~= s);
    }
    let o = roff(s, i);
    assert(recs(s).subrange(o, o + 8) =~= be(enc(&s[i]).len() as u64));
    assert(recs(s).subrange(o + 8, o + 8 + enc(&s[i]).len()) =~= enc(&s[i]));
}
pub proof fn lemma_len<A>(s: Seq<A>)
    ensures recs(s).len() >= 8 * s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_len(s.drop_last()); } }
pub proof fn lemma_mono<A>(s: Seq<A>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures roff(s, i) + 8 <= roff(s, j), roff(s, j) <= recs(s).len(),
    decreases j - i,
{ lemma_at(s, j - 1); if i < j - 1 { lemma_mono(s, i, j - 1); } }
proof fn lemma_inj<A>(a: Seq<A>, b: Seq<A>, n: int)
    requires recs(a) == recs(b), recs(a).len() <= lim(), 0 <= n <= a.len(), n <= b.len(),
    ensures a.take(n) == b.take(n),
    decreases n,
{
    if n > 0 {
        let i = n - 1;
        lemma_inj(a, b, i);
        lemma_at(a, i);
        lemma_at(b, i);
        assert(dec::<A>(enc(&a[i])) == a[i] && dec::<A>(enc(&b[i])) == b[i]);
        assert(debe(be(enc(&a[i]).len() as u64)) == enc(&a[i]).len() && debe(be(enc(&b[i]).len() as u64)) == enc(&b[i]).len());
        assert(a.take(n) =~= a.take(i).push(a[i]));
        assert(b.take(n) =~= b.take(i).push(b[i]));
    } else { assert(a.take(0) =~= b.take(0)); }
}
pub broadcast proof fn lemma_unrecs<A>(s: Seq<A>)
    requires recs(s).len() <= lim(),
    ensures unrecs::<A>(#[trigger] recs(s)) == s,
{
    let t = unrecs::<A>(recs(s));
    assert(recs(t) == recs(s));
    let n = if s.len() < t.len() { s.len() as int } else { t.len() as int };
    lemma_inj(s, t, n);
    if s.len() < t.len() { lemma_mono(t, n, t.len() as int); assert(t.take(t.len() as int) =~= t); assert(s.take(n) =~= s); }
    if t.len() < s.len() { lemma_mono(s, n, s.len() as int); assert(s.take(s.len() as int) =~= s); assert(t.take(n) =~= t); }
    assert(s.take(n) =~= s && t.take(n) =~= t);
}

// ---- entries ----
pub type Ent<T, U> = Entry<T, SSTableValue<U>>;
pub open spec fn tm<T, U>(e: Ent<T, U>) -> u64 { e.value.logical_time }
pub open spec fn tombs<T, U>(es: Seq<Ent<T, U>>) -> nat
    decreases es.len()
{ if es.len() == 0 { 0 } else { tombs(es.drop_last()) + (if es.last().value.data is None { 1nat } else { 0 }) } }
pub open spec fn tmin<T, U>(es: Seq<Ent<T, U>>) -> u64
    decreases es.len()
{ if es.len() <= 1 { tm(es[0]) } else { let m = tmin(es.drop_last()); if tm(es.last()) < m { tm(es.last()) } else { m } } }
pub open spec fn tmax<T, U>(es: Seq<Ent<T, U>>) -> u64
    decreases es.len()
{ if es.len() <= 1 { tm(es[0]) } else { let m = tmax(es.drop_last()); if tm(es.last()) < m { m } else { tm(es.last()) } } }
pub proof fn lemma_tombs<T, U>(es: Seq<Ent<T, U>>)
    ensures tombs(es) <= es.len(),
    decreases es.len(),
{ if es.len() > 0 { lemma_tombs(es.drop_last()); } }
// the index: keys and offsets of the entries
pub open spec fn ko<T, U>(es: Seq<Ent<T, U>>) -> Seq<(T, u64)> { Seq::new(es.len(), |j: int| (es[j].key, roff(es, j) as u64)) }
pub open spec fn flat<A>(bs: Seq<Vec<A>>) -> Seq<A>
    decreases bs.len()
{ if bs.len() == 0 { Seq::empty() } else { flat(bs.drop_last()) + bs.last()@ } }
pub open spec fn idx_ok<T>(ix: Seq<(T, u64)>, bs: Seq<Vec<(T, u64)>>) -> bool {
    &&& ix.len() == bs.len()
    &&& forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i])@.len() > 0 && ix[i] == (bs[i]@[0].0, roff(bs, i) as u64)
}
pub proof fn lemma_ko_push<T, U>(es: Seq<Ent<T, U>>, e: Ent<T, U>)
    ensures ko(es.push(e)) == ko(es).push((e.key, recs(es).len() as u64)),
{
    let p = es.push(e);
    assert forall|j: int| 0 <= j < es.len() implies #[trigger] roff(p, j) == roff(es, j) by { assert(p.take(j) =~= es.take(j)); }
    assert(p.take(es.len() as int) =~= es);
    assert(ko(p) =~= ko(es).push((e.key, recs(es).len() as u64)));
}
pub proof fn lemma_idx_push<T>(ix: Seq<(T, u64)>, bs: Seq<Vec<(T, u64)>>, b: Vec<(T, u64)>)
    requires idx_ok(ix, bs), b@.len() > 0,
    ensures idx_ok(ix.push((b@[0].0, recs(bs).len() as u64)), bs.push(b)), flat(bs.push(b)) == flat(bs) + b@,
{
    let p = bs.push(b);
    assert(p.drop_last() =~= bs);
    assert forall|i: int| 0 <= i < bs.len() implies #[trigger] roff(p, i) == roff(bs, i) by { assert(p.take(i) =~= bs.take(i)); }
    assert(p.take(bs.len() as int) =~= bs);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i])@.len() > 0 && ix.push((b@[0].0, recs(bs).len() as u64))[i] == (p[i]@[0].0, roff(p, i) as u64) by {
        if i < bs.len() { assert(p[i] == bs[i]); assert(roff(p, i) == roff(bs, i)); }
    }
}
// block i is a stretch of the index
pub proof fn lemma_flat<A>(bs: Seq<Vec<A>>, i: int)
    requires 0 <= i < bs.len(),
    ensures
        flat(bs.take(i + 1)).len() == flat(bs.take(i)).len() + bs[i]@.len(), flat(bs.take(i + 1)).len() <= flat(bs).len(),
        bs[i]@ == flat(bs).subrange(flat(bs.take(i)).len() as int, flat(bs.take(i + 1)).len() as int),
    decreases bs.len(),
{
    let l = bs.drop_last();
    assert(bs.take(i + 1).drop_last() =~= bs.take(i));
    if i < bs.len() - 1 {
        lemma_flat(l, i);
        assert(l.take(i) =~= bs.take(i));
        assert(l.take(i + 1) =~= bs.take(i + 1));
    } else {
        assert(l =~= bs.take(i));
        assert(bs.take(i + 1) =~= bs);
    }
    assert(bs[i]@ =~= flat(bs).subrange(flat(bs.take(i)).len() as int, flat(bs.take(i + 1)).len() as int));
}
pub proof fn lemma_block<A>(bs: Seq<A>, b: A)
    ensures recs(bs.push(b)) == recs(bs) + be(enc(&b).len() as u64) + enc(&b), recs(bs.push(b)).len() == recs(bs).len() + 8 + enc(&b).len(),
{ lemma_push(bs, b); assert(recs(bs.push(b)) =~= recs(bs) + be(enc(&b).len() as u64) + enc(&b)); }
pub proof fn lemma_krange<T: Ord, U>(es: Seq<Ent<T, U>>, e: Ent<T, U>)
    requires sorted(es), es.len() > 0 ==> rk(es.last()) < rk(e),
    ensures
        sorted(es.push(e)),
        tombs(es.push(e)) == tombs(es) + (if e.value.data is None { 1nat } else { 0 }),
        tmin(es.push(e)) == (if es.len() == 0 || tm(e) < tmin(es) { tm(e) } else { tmin(es) }),
        tmax(es.push(e)) == (if es.len() == 0 || tmax(es) <= tm(e) { tm(e) } else { tmax(es) }),
{
    let p = es.push(e);
    assert(p.drop_last() =~= es);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies rk(#[trigger] p[i]) < rk(#[trigger] p[j]) by {
        if es.len() > 0 && i < es.len() - 1 { assert(rk(es[i]) < rk(es.last())); }
    }
}
pub open spec fn hasall<T: Ord, U>(f: BloomFilter<T>, es: Seq<Ent<T, U>>) -> bool { forall|i: int| 0 <= i < es.len() ==> f.has(rk(#[trigger] es[i])) }
pub open spec fn data_path(p: Path) -> Path { joined(p, "data.dat"@) }
pub open spec fn index_path(p: Path) -> Path { joined(p, "index.dat"@) }
// the files of the table at p hold es
pub open spec fn sok<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>) -> bool {
    &&& es.len() > 0 && sorted(es)
    &&& recs(es) == content(data_path(p)) && recs(es).len() <= lim()
    &&& recs(bs) == content(index_path(p)) && recs(bs).len() <= lim()
    &&& flat(bs) == ko(es)
    &&& idx_ok(s.index@, bs)
    &&& s.entry_count == es.len() && s.tombstone_count == tombs(es)
    &&& s.key_range == (es[0].key, es.last().key)
    &&& s.logical_time_range == (tmin(es), tmax(es))
    &&& hasall(f, es)
}
pub proof fn lemma_ix_sorted<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>)
    requires sok(p, s, f, es, bs),
    ensures
        bs.len() > 0, s.index@.len() < 0x1000_0000_0000_0000, s.index@[0].0 == es[0].key,
        forall|i: int, j: int| 0 <= i < j < s.index@.len() ==> (#[trigger] s.index@[i]).0.rank() < (#[trigger] s.index@[j]).0.rank(),
        forall|r: real| #![trigger at(es, r)] r < rk(es[0]) || r > rk(es.last()) ==> at(es, r) is None,
{
    lemma_len(bs);
    assert(ko(es).len() == es.len());
    if bs.len() == 0 { assert(flat(bs).len() == 0); }
    lemma_flat(bs, 0);
    assert(bs.take(0).len() == 0);
    assert(bs[0]@[0] == ko(es)[0]);
    assert forall|i: int, j: int| 0 <= i < j < s.index@.len() implies (#[trigger] s.index@[i]).0.rank() < (#[trigger] s.index@[j]).0.rank() by {
        lemma_flat(bs, i);
        lemma_flat(bs, j);
        lemma_starts(bs, i + 1, j);
        let a = flat(bs.take(i)).len() as int;
        let b = flat(bs.take(j)).len() as int;
        assert(bs[i]@[0] == ko(es)[a] && bs[j]@[0] == ko(es)[b]);
        assert(rk(es[a]) < rk(es[b]));
    }
    assert forall|r: real| #![trigger at(es, r)] r < rk(es[0]) || r > rk(es.last()) implies at(es, r) is None by {
        lemma_pos(es, r);
        if hask(es, r) {
            let q = pos(es, r);
            if q > 0 { assert(rk(es[0]) < rk(es[q])); }
            if q < es.len() - 1 { assert(rk(es[q]) < rk(es.last())); }
        }
    }
}
pub proof fn lemma_starts<A>(bs: Seq<Vec<A>>, i: int, j: int)
    requires 0 <= i <= j <= bs.len(),
    ensures flat(bs.take(i)).len() <= flat(bs.take(j)).len() <= flat(bs).len(),
    decreases j - i,
{
    if j > 0 { lemma_flat(bs, j - 1); }
    else { assert(flat(bs.take(0)).len() == 0); }
    if i < j { lemma_starts(bs, i, j - 1); }
}
pub open spec fn start<A>(bs: Seq<Vec<A>>, i: int) -> int { flat(bs.take(i)).len() as int }
// what block i holds
pub proof fn lemma_blk<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>, i: int)
    requires sok(p, s, f, es, bs), 0 <= i < s.index@.len(),
    ensures
        sorted(es), bs.len() == s.index@.len(), bs[i]@.len() > 0, s.index@[i].0 == bs[i]@[0].0, s.index@[i].1 == roff(bs, i) as u64,
        0 <= start(bs, i), start(bs, i + 1) == start(bs, i) + bs[i]@.len() <= es.len(), i + 1 == bs.len() ==> start(bs, i + 1) == es.len(),
        forall|l: int| 0 <= l < bs[i]@.len() ==> (#[trigger] bs[i]@[l]) == (es[start(bs, i) + l].key, roff(es, start(bs, i) + l) as u64),
{
    hide(roff);
    hide(sorted);
    lemma_flat(bs, i);
    assert forall|l: int| 0 <= l < bs[i]@.len() implies (#[trigger] bs[i]@[l]) == (es[start(bs, i) + l].key, roff(es, start(bs, i) + l) as u64) by {
        assert(bs[i]@[l] == ko(es)[start(bs, i) + l]);
    }
    if i + 1 == bs.len() { assert(bs.take(i + 1) =~= bs); }
}
// an entry with key r is in block i
pub proof fn lemma_lookup<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>, i: int, r: real)
    requires
        sok(p, s, f, es, bs), 0 <= i < s.index@.len(), s.index@[i].0.rank() <= r,
        i + 1 < s.index@.len() ==> s.index@[i + 1].0.rank() > r,
    ensures
        0 <= start(bs, i), start(bs, i) + bs[i]@.len() <= es.len(),
        forall|l: int| 0 <= l < bs[i]@.len() ==> (#[trigger] bs[i]@[l]) == (es[start(bs, i) + l].key, roff(es, start(bs, i) + l) as u64),
        hask(es, r) ==> start(bs, i) <= pos(es, r) < start(bs, i) + bs[i]@.len(),
{
    hide(sok);
    hide(start);
    hide(roff);
    lemma_blk(p, s, f, es, bs, i);
    let st = start(bs, i);
    assert(bs[i]@[0].0 == es[st].key);
    if hask(es, r) {
        lemma_pos(es, r);
        let q = pos(es, r);
        if q < st { assert(rk(es[q]) < rk(es[st])); }
        if q >= st + bs[i]@.len() {
            if i + 1 < bs.len() {
                lemma_blk(p, s, f, es, bs, i + 1);
                let s2 = st + bs[i]@.len();
                assert(bs[i + 1]@[0].0 == es[s2].key);
                if s2 < q { assert(rk(es[s2]) < rk(es[q])); }
            }
        }
    }
}
// c holds the record of a at off
pub open spec fn record_at<A>(c: Seq<u8>, off: int, a: A) -> bool {
    let n = enc(&a).len();
    &&& n <= lim() && 0 <= off && off + 8 + n <= c.len()
    &&& debe(c.subrange(off, off + 8)) == n
    &&& c.subrange(off + 8, off + 8 + n) == enc(&a)
    &&& dec::<A>(enc(&a)) == a
}
pub proof fn lemma_record<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(), recs(s).len() <= lim(),
    ensures record_at(recs(s), roff(s, i), s[i]), roff(s, i) as u64 == roff(s, i),
{
    lemma_at(s, i);
    assert(dec::<A>(enc(&s[i])) == s[i]);
    assert(debe(be(enc(&s[i]).len() as u64)) == enc(&s[i]).len());
}
// the three steps of a lookup
pub proof fn lemma_get_0<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>, r: real)
    requires sok(p, s, f, es, bs),
    ensures
        0 < s.index@.len() < 0x1000_0000_0000_0000,
        forall|i: int, j: int| 0 <= i < j < s.index@.len() ==> (#[trigger] s.index@[i]).0.rank() < (#[trigger] s.index@[j]).0.rank(),
        r < s.key_range.0.rank() || r > s.key_range.1.rank() || !hask(es, r) || !f.has(r) || s.index@[0].0.rank() > r ==> at(es, r) is None,
        at(es, r) is None ==> oval(at(es, r)) is None,
{
    lemma_ix_sorted(p, s, f, es, bs);
    lemma_pos(es, r);
    if hask(es, r) { assert(f.has(rk(es[pos(es, r)]))); }
}
pub proof fn lemma_get_1<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>, i: int, r: real)
    requires
        sok(p, s, f, es, bs), 0 <= i < s.index@.len(), s.index@[i].0.rank() <= r,
        i + 1 < s.index@.len() ==> s.index@[i + 1].0.rank() > r,
    ensures
        record_at(content(index_path(p)), s.index@[i].1 as int, bs[i]),
        forall|k: int, j: int| 0 <= k < j < bs[i]@.len() ==> (#[trigger] bs[i]@[k]).0.rank() < (#[trigger] bs[i]@[j]).0.rank(),
        (forall|j: int| 0 <= j < bs[i]@.len() ==> (#[trigger] bs[i]@[j]).0.rank() != r) ==> at(es, r) is None,
{
    lemma_lookup(p, s, f, es, bs, i, r);
    lemma_blk(p, s, f, es, bs, i);
    lemma_record(bs, i);
    assert(record_at(content(index_path(p)), s.index@[i].1 as int, bs[i]));
    lemma_get_1b(es, bs[i], start(bs, i), r);
}
proof fn lemma_get_1b<T: Ord, U>(es: Seq<Ent<T, U>>, b: Vec<(T, u64)>, st: int, r: real)
    requires
        sorted(es), 0 <= st, st + b@.len() <= es.len(),
        forall|l: int| 0 <= l < b@.len() ==> (#[trigger] b@[l]) == (es[st + l].key, roff(es, st + l) as u64),
        hask(es, r) ==> st <= pos(es, r) < st + b@.len(),
    ensures
        forall|k: int, j: int| 0 <= k < j < b@.len() ==> (#[trigger] b@[k]).0.rank() < (#[trigger] b@[j]).0.rank(),
        (forall|j: int| 0 <= j < b@.len() ==> (#[trigger] b@[j]).0.rank() != r) ==> at(es, r) is None,
{
    hide(roff);
    assert forall|k: int, j: int| 0 <= k < j < b@.len() implies (#[trigger] b@[k]).0.rank() < (#[trigger] b@[j]).0.rank() by {
        assert(b@[k].0 == es[st + k].key && b@[j].0 == es[st + j].key);
        assert(rk(es[st + k]) < rk(es[st + j]));
    }
    lemma_pos(es, r);
    if hask(es, r) { assert(b@[pos(es, r) - st].0 == es[pos(es, r)].key); }
}
pub proof fn lemma_get_2<T: Ord, U>(p: Path, s: SSTableSummary<T>, f: BloomFilter<T>, es: Seq<Ent<T, U>>, bs: Seq<Vec<(T, u64)>>, i: int, j: int, r: real)
    requires
        sok(p, s, f, es, bs), 0 <= i < s.index@.len(), s.index@[i].0.rank() <= r,
        i + 1 < s.index@.len() ==> s.index@[i + 1].0.rank() > r,
        0 <= j < bs[i]@.len(), bs[i]@[j].0.rank() == r,
    ensures
        record_at(content(data_path(p)), bs[i]@[j].1 as int, es[start(bs, i) + j]),
        oval(at(es, r)) == Some(es[start(bs, i) + j].value),
{
    lemma_lookup(p, s, f, es, bs, i, r);
    let q = start(bs, i) + j;
    assert(bs[i]@[j].0 == es[q].key);
    lemma_at_mem(es, q);
    lemma_record(es, q);
}
pub open spec fn table<T, U>(p: Path) -> Seq<Ent<T, U>> { unrecs(content(data_path(p))) }
// p names a complete table
pub open spec fn stored<T: Ord, U>(p: Path) -> bool {
    let s = dec::<SSTableSummary<T>>(content(joined(p, "summary.dat"@)));
    let f = dec::<BloomFilter<T>>(content(joined(p, "filter.dat"@)));
    &&& enc(&s) == content(joined(p, "summary.dat"@))
    &&& enc(&f) == content(joined(p, "filter.dat"@))
    &&& sok(p, s, f, table::<T, U>(p), unrecs(content(index_path(p))))
}
impl<T: Ord, U> SSTableBuilder<T, U> {
    pub open spec fn es(&self) -> Seq<Ent<T, U>> { unrecs(self.data_stream.written()) }
    pub open spec fn bs(&self) -> Seq<Vec<(T, u64)>> { unrecs(self.index_stream.written()) }
    pub open spec fn binv(&self) -> bool {
        let es = self.es();
        let bs = self.bs();
        &&& recs(es) == self.data_stream.written() && recs(bs) == self.index_stream.written()
        &&& self.data_stream.open() && self.index_stream.open()
        &&& self.data_stream.path() == data_path(self.sstable_path) && self.index_stream.path() == index_path(self.sstable_path)
        &&& self.data_offset == recs(es).len() && self.index_offset == recs(bs).len() && self.size == self.data_offset + self.index_offset
        &&& sorted(es)
        &&& flat(bs) + self.index_block@ == ko(es)
        &&& idx_ok(self.index@, bs)
        &&& self.block_index == self.index_block@.len()
        &&& self.entry_count == es.len() && self.tombstone_count == tombs(es)
        &&& self.key_range == (if es.len() == 0 { None } else { Some((es[0].key, es.last().key)) })
        &&& self.logical_time_range == (if es.len() == 0 { None } else { Some((tmin(es), tmax(es))) })
        &&& hasall(self.filter, es)
    }
}
impl<T: Ord, U> SSTable<T, U> {
    pub open spec fn es(&self) -> Seq<Ent<T, U>> { table(self.path) }
    pub open spec fn sinv(&self) -> bool { sok(self.path, self.summary, self.filter, self.es(), unrecs(content(index_path(self.path)))) }
}
impl<T, U> SSTableDataIter<T, U> {
    pub open spec fn all(&self) -> Seq<Ent<T, U>> { unrecs(content(self.data_path)) }
    // i entries have been read
    pub open spec fn at(&self, i: int) -> bool {
        &&& 0 <= i <= self.all().len()
        &&& recs(self.all()) == content(self.data_path) && content(self.data_path).len() <= lim()
        &&& (self.data_file matches Some(f) ==> f.bytes() == content(self.data_path) && f.cur() == roff(self.all(), i))
        &&& self.data_file is None ==> i == 0
    }
    pub open spec fn ix(&self) -> int { choose|i: int| self.at(i) }
    pub open spec fn dinv(&self) -> bool { self.at(self.ix()) }
    // what is left
    pub open spec fn rest(&self) -> Seq<Ent<T, U>> { self.all().skip(self.ix()) }
}
pub broadcast proof fn lemma_fresh<T, U>(d: SSTableDataIter<T, U>)
    requires d.data_file is None, recs(d.all()) == content(d.data_path), content(d.data_path).len() <= lim(),
    ensures #[trigger] d.dinv(), d.ix() == 0,
{ assert(d.at(0)); lemma_ix(d, 0); }
pub broadcast proof fn lemma_end<T, U>(d: SSTableDataIter<T, U>)
    ensures d.at(d.all().len() as int) ==> #[trigger] d.dinv() && d.ix() == d.all().len(),
{ if d.at(d.all().len() as int) { lemma_ix(d, d.all().len() as int); } }
pub broadcast proof fn lemma_ix<T, U>(d: SSTableDataIter<T, U>, i: int)
    requires #[trigger] d.at(i),
    ensures d.ix() == i, d.dinv(),
{
    let j = d.ix();
    assert(d.at(j));
    if i < j { lemma_mono(d.all(), i, j); }
    if j < i { lemma_mono(d.all(), j, i); }
}

//@ fn lsm_tree::sstable::SSTableValue::Ord::cmp
//@ attr open spec fn rank(&self) -> real { -(self.logical_time as real) }
//@ fn lsm_tree::sstable::SSTableValue::PartialOrd::partial_cmp
    ensures ret matches Some(o) && (o == cmp::Ordering::Less <==> self.rank() < other.rank()) && (o == cmp::Ordering::Greater <==> self.rank() > other.rank()),
//@ fn lsm_tree::sstable::SSTableValue::PartialEq::eq
    ensures ret == (self.rank() == other.rank()),
//@ fn lsm_tree::sstable::merge_ranges
    ensures
        ret.0 == (if range_2.0.rank() < range_1.0.rank() { range_2.0 } else { range_1.0 }),
        ret.1 == (if range_2.1.rank() < range_1.1.rank() { range_1.1 } else { range_2.1 }),
//@ fn lsm_tree::sstable::is_intersecting
    ensures ret == (range_1.0.rank() <= range_2.1.rank() && range_2.0.rank() <= range_1.1.rank() && range_1.0.rank() <= range_1.1.rank() && range_2.0.rank() <= range_2.1.rank()),
//@ fn lsm_tree::sstable::SSTableBuilder::new
//@ where T: Ord
    ensures ret matches Ok(b) ==> b.binv() && b.es() =~= Seq::<Ent<T, U>>::empty(), ret matches Err(e) ==> fault(e),
//@ entry
    broadcast use lemma_unrecs;
    proof {
        assert(recs(Seq::<Ent<T, U>>::empty()) == Seq::<u8>::empty());
        assert(recs(Seq::<Vec<(T, u64)>>::empty()) == Seq::<u8>::empty());
        lemma_unrecs(Seq::<Ent<T, U>>::empty());
        lemma_unrecs(Seq::<Vec<(T, u64)>>::empty());
        assert(ko(Seq::<Ent<T, U>>::empty()) =~= Seq::empty());
        assert(flat(Seq::<Vec<(T, u64)>>::empty()) + Seq::<(T, u64)>::empty() =~= Seq::empty());
    }
//@ fn lsm_tree::sstable::SSTableBuilder::append
//@ attr #[verifier::rlimit(60)]
//@ where T: Ord
    requires
        old(self).binv(),
        old(self).es().len() > 0 ==> rk(old(self).es().last()) < key.rank(),
    ensures
        ret is Ok ==> final(self).binv() && final(self).es() == old(self).es().push(Entry { key, value }) && final(self).sstable_path == old(self).sstable_path,
        ret matches Err(e) ==> fault(e),
//@ entry
    broadcast use lemma_unrecs;
    let ghost e0 = old(self).es();
    let ghost b0 = old(self).bs();
    let ghost e = Entry { key, value };
    let ghost es = e0.push(e);
    proof {
        lemma_push(e0, e);
        lemma_len(e0);
        lemma_tombs(e0);
        lemma_ko_push(e0, e);
        assert(es.drop_last() =~= e0);
        assert(enc(&(key, value)) == enc(&e));
        assert(old(self).data_stream.written().len() <= lim());
        assert(old(self).index_stream.written().len() <= lim());
        assert(old(self).index_block@.len() <= ko(e0).len());
        assert(recs(es) =~= old(self).data_stream.written() + be(enc(&e).len() as u64) + enc(&e));
        lemma_krange(e0, e);
    }
//@ before 0 `self.block_index = 0`
    proof { lemma_block(b0, self.index_block); lemma_idx_push(old(self).index@, b0, self.index_block); }
//@ before 0 `Ok(())`
    proof {
        assert(self.es() == es);
        assert(hasall(self.filter, es)) by {
            assert forall|i: int| 0 <= i < es.len() implies self.filter.has(rk(#[trigger] es[i])) by { if i < e0.len() { assert(es[i] == e0[i]); } }
        }
        assert(flat(self.bs()) + self.index_block@ =~= ko(es));
    }
//@ fn lsm_tree::sstable::SSTableBuilder::flush
//@ where T: Ord
    requires old(self).binv(), old(self).es().len() > 0,
    ensures
        ret matches Ok(p) ==> p == old(self).sstable_path && stored::<T, U>(p) && table::<T, U>(p) == old(self).es(),
        ret matches Err(e) ==> fault(e),
//@ entry
    broadcast use lemma_unrecs;
    let ghost b0 = old(self).bs();
    proof {
        assert(old(self).data_stream.written().len() <= lim());
        assert(old(self).index_stream.written().len() <= lim());
        if old(self).index_block@.len() > 0 {
            lemma_block(b0, old(self).index_block);
            lemma_idx_push(old(self).index@, b0, old(self).index_block);
        }
    }
//@ before 0 `let key_range`
    proof {
        assert(flat(self.bs()) =~= ko(old(self).es()));
        assert(self.index_stream.written().len() <= lim());
    }
//@ fn lsm_tree::sstable::SSTable::new
//@ where T: Ord
    requires stored::<T, U>(path.path()),
    ensures
        ret matches Ok(t) ==> t.path == path.path() && t.sinv(),
        ret matches Err(e) ==> fault(e),
//@ fn lsm_tree::sstable::SSTable::floor_offset
    requires
        index@.len() < 0x1000_0000_0000_0000,
        forall|i: int, j: int| 0 <= i < j < index@.len() ==> (#[trigger] index@[i]).0.rank() < (#[trigger] index@[j]).0.rank(),
    ensures
        ret is None ==> (index@.len() > 0 ==> index@[0].0.rank() > key.rank()),
        ret matches Some(i) ==> i < index@.len() && index@[i as int].0.rank() <= key.rank() && (i + 1 < index@.len() ==> index@[i + 1].0.rank() > key.rank()),
//@ loop 0
    invariant
        index@.len() < 0x1000_0000_0000_0000,
        forall|i: int, j: int| 0 <= i < j < index@.len() ==> (#[trigger] index@[i]).0.rank() < (#[trigger] index@[j]).0.rank(),
        0 <= lo <= hi + 1 <= index@.len(),
        forall|i: int| 0 <= i < lo ==> (#[trigger] index@[i]).0.rank() <= key.rank(),
        forall|i: int| hi < i < index@.len() ==> (#[trigger] index@[i]).0.rank() > key.rank(),
    decreases hi + 1 - lo,
//@ fn lsm_tree::sstable::SSTable::get
    requires self.sinv(),
    ensures
        ret matches Ok(r) ==> r == oval(at(self.es(), key.rank())),
        ret matches Err(e) ==> fault(e),
//@ entry
    hide(sok);
    hide(unrecs);
    hide(hask);
    hide(at);
    hide(start);
    let ghost es = self.es();
    let ghost bs = unrecs::<Vec<(T, u64)>>(content(index_path(self.path)));
    let ghost r = key.rank();
    let ghost mut bi = 0int;
    proof { lemma_get_0(self.path, self.summary, self.filter, es, bs, r); }
//@ before 0 `let mut index_file`
    proof {
        bi = index as int;
        lemma_get_1(self.path, self.summary, self.filter, es, bs, bi, r);
    }
//@ before 0 `let mut data_file`
    proof {
        assert(index_block == bs[bi]);
        lemma_get_2(self.path, self.summary, self.filter, es, bs, bi, index as int, r);
    }
//@ fn lsm_tree::sstable::SSTable::data_iter
//@ where T: Ord
    requires self.sinv(),
    ensures ret.dinv(), ret.all() == self.es(), ret.ix() == 0, ret.data_path == data_path(self.path),
//@ entry
    broadcast use lemma_fresh;
//@ fn lsm_tree::sstable::SSTableDataIter::Iterator::next
    requires old(self).dinv(),
    ensures
        ret matches Some(Err(e)) ==> fault(e),
        !(ret matches Some(Err(e))) ==> final(self).dinv() && final(self).all() == old(self).all() && final(self).data_path == old(self).data_path,
        ret matches Some(Ok(e)) ==> old(self).ix() < old(self).all().len() && e == old(self).all()[old(self).ix()] && final(self).ix() == old(self).ix() + 1,
        ret is None ==> old(self).ix() == old(self).all().len() && final(self).ix() == old(self).ix(),
        ret matches Some(Ok(e)) ==> old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1),
        ret is None ==> old(self).rest().len() == 0 && final(self).rest().len() == 0,
//@ entry
    broadcast use lemma_end;
    let ghost i = self.ix();
    let ghost all = self.all();
    proof {
        assert(self.at(i));
        assert(all.take(0) =~= Seq::<Ent<T, U>>::empty());
        if i < all.len() { lemma_record(all, i); lemma_at(all, i); }
        else { assert(all.take(i) =~= all); }
    }
//@ before 0 `let size`
    proof {
        assert(data_file.bytes() == content(self.data_path) && data_file.cur() == roff(all, i));
    }
//@ before 0 `let mut buffer`
    assert(i < all.len());
//@ before 0 `Some`
    proof {
        assert(self.at(i + 1));
        lemma_ix(*self, i + 1);
        assert(buffer@ == enc(&all[i]));
        assert(self.rest() =~= old(self).rest().skip(1));
    }
