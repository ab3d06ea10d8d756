//@ # TypedArena
//@ include vp.vs
//@ inherent Index
//@ inherent IndexMut
//@ use std::vec::Vec => -
//@ file src/arena.rs as arena
//@ spec arena
pub open spec fn valid<T>(c: Seq<Vec<Block<T>>>, e: Entry) -> bool { e.chunk_index < c.len() && e.block_index < c[e.chunk_index as int]@.len() }
pub open spec fn blk<T>(c: Seq<Vec<Block<T>>>, e: Entry) -> Block<T> { c[e.chunk_index as int]@[e.block_index as int] }
pub open spec fn nxt(fl: Seq<Entry>, i: int) -> Option<Entry> { if 0 <= i < fl.len() { Some(fl[i]) } else { None } }
// number of blocks
pub open spec fn total<T>(c: Seq<Vec<Block<T>>>) -> int
    decreases c.len()
{
    if c.len() == 0 { 0 } else { total(c.drop_last()) + c.last()@.len() }
}
// fl is the free list that starts at head: every block on it is vacant and names the next one
pub open spec fn flist<T>(c: Seq<Vec<Block<T>>>, head: Option<Entry>, fl: Seq<Entry>) -> bool {
    &&& head == nxt(fl, 0)
    &&& forall|i: int| 0 <= i < fl.len() ==> valid(c, #[trigger] fl[i]) && blk(c, fl[i]) == Block::<T>::Vacant(nxt(fl, i + 1))
    &&& forall|i: int, j: int| 0 <= i < j < fl.len() ==> fl[i] != fl[j]
}
pub open spec fn shape<T>(c: Seq<Vec<Block<T>>>, cs: int) -> bool {
    &&& cs > 0
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> (#[trigger] c[i])@.len() == cs
    &&& c.len() > 0 ==> c.last()@.len() <= cs
}
pub open spec fn good<T>(a: TypedArena<T>, fl: Seq<Entry>) -> bool {
    &&& flist(a.chunks@, a.head, fl)
    &&& a.size + fl.len() == total(a.chunks@)
    &&& a.capacity == a.chunks@.len() * a.chunk_size
    &&& shape(a.chunks@, a.chunk_size as int)
}
impl<T> TypedArena<T> {
    pub closed spec fn inv(&self) -> bool { exists|fl: Seq<Entry>| good(*self, fl) }
    // the object under an entry
    pub open spec fn val(&self, e: Entry) -> Option<T> {
        if valid(self.chunks@, e) {
            match blk(self.chunks@, e) { Block::Occupied(v) => Some(v), Block::Vacant(_) => None }
        } else { None }
    }
    pub open spec fn others(&self, o: &Self, e: Entry) -> bool { forall|d: Entry| d != e ==> #[trigger] self.val(d) == o.val(d) }
}
pub open spec fn lin<T>(c: Seq<Vec<Block<T>>>, e: Entry) -> int { total(c.subrange(0, e.chunk_index as int)) + e.block_index }
pub proof fn lemma_total_sub<T>(c: Seq<Vec<Block<T>>>, i: int, j: int)
    requires 0 <= i <= j <= c.len(),
    ensures 0 <= total(c.subrange(0, i)) <= total(c.subrange(0, j)), i < j ==> total(c.subrange(0, i)) + c[i]@.len() <= total(c.subrange(0, j)),
    decreases j,
{
    if j > 0 {
        assert(c.subrange(0, j).drop_last() =~= c.subrange(0, j - 1));
        if i < j { lemma_total_sub(c, i, j - 1); } else { lemma_total_sub(c, j - 1, j - 1); }
    }
}
pub proof fn lemma_lin<T>(c: Seq<Vec<Block<T>>>, d: Entry, e: Entry)
    requires valid(c, d), valid(c, e),
    ensures 0 <= lin(c, d) < total(c), d != e ==> lin(c, d) != lin(c, e),
{
    assert(c.subrange(0, c.len() as int) =~= c);
    lemma_total_sub(c, d.chunk_index as int, c.len() as int);
    if d.chunk_index < e.chunk_index { lemma_total_sub(c, d.chunk_index as int, e.chunk_index as int); }
    if d.chunk_index > e.chunk_index { lemma_total_sub(c, e.chunk_index as int, d.chunk_index as int); }
}
// an occupied block is not on the free list, so there are fewer free blocks than blocks
pub proof fn lemma_pigeon<T>(c: Seq<Vec<Block<T>>>, head: Option<Entry>, fl: Seq<Entry>, e: Entry)
    requires flist(c, head, fl), valid(c, e), blk(c, e) is Occupied,
    ensures fl.len() < total(c),
{
    let s = Seq::new(fl.len() + 1, |i: int| if i < fl.len() { lin(c, fl[i]) } else { lin(c, e) });
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            let x = if i < fl.len() { fl[i] } else { e };
            let y = if j < fl.len() { fl[j] } else { e };
            if i < fl.len() && j < fl.len() { if i < j { assert(fl[i] != fl[j]); } else { assert(fl[j] != fl[i]); } }
            assert(x != y);
            lemma_lin(c, x, y);
        }
    }
    s.unique_seq_to_set();
    lemma_lin(c, e, e);
    vstd::set_lib::lemma_int_range(0, total(c));
    let r = vstd::set_lib::set_int_range(0, total(c));
    assert(s.to_set().subset_of(r)) by {
        assert forall|x: int| #[trigger] s.to_set().contains(x) implies r.contains(x) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            let d = if i < fl.len() { fl[i] } else { e };
            lemma_lin(c, d, d);
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
// replacing a block by another keeps the number of blocks
pub proof fn lemma_total_upd<T>(c: Seq<Vec<Block<T>>>, i: int, v: Vec<Block<T>>)
    requires 0 <= i < c.len(),
    ensures total(c.update(i, v)) == total(c) - c[i]@.len() + v@.len(),
    decreases c.len(),
{
    let d = c.update(i, v);
    if i == c.len() - 1 {
        assert(d.drop_last() =~= c.drop_last());
    } else {
        assert(d.drop_last() =~= c.drop_last().update(i, v));
        lemma_total_upd(c.drop_last(), i, v);
    }
}
pub proof fn lemma_total_shape<T>(c: Seq<Vec<Block<T>>>, cs: int)
    requires shape(c, cs), cs > 0, c.len() > 0,
    ensures total(c) == (c.len() - 1) * cs + c.last()@.len(),
    decreases c.len(),
{
    if c.len() > 1 {
        let d = c.drop_last();
        assert(d.last() == c[c.len() - 2]);
        assert(shape(d, cs)) by { assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d[i])@.len() == cs by { assert(d[i] == c[i]); } }
        lemma_total_shape(d, cs);
        assert((c.len() - 1) * cs == (c.len() - 2) * cs + cs) by (nonlinear_arith);
    } else {
        assert(c.drop_last().len() == 0);
        assert(total(c.drop_last()) == 0);
        assert((c.len() - 1) * cs == 0) by (nonlinear_arith) requires c.len() == 1;
    }
}
pub proof fn lemma_total0<T>(c: Seq<Vec<Block<T>>>)
    requires total(c) > 0,
    ensures c.len() > 0,
{}
// c2 is c with the block at e replaced
pub open spec fn upd<T>(c: Seq<Vec<Block<T>>>, c2: Seq<Vec<Block<T>>>, e: Entry) -> bool {
    &&& c2.len() == c.len() && valid(c, e)
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c2[i])@.len() == c[i]@.len()
    &&& forall|d: Entry| d != e && valid(c, d) ==> #[trigger] blk(c2, d) == blk(c, d)
}
// c2 is c with a block added, in a new chunk if the last one is full
pub open spec fn grown<T>(c: Seq<Vec<Block<T>>>, c2: Seq<Vec<Block<T>>>, fresh: bool) -> bool {
    &&& c2.len() > 0
    &&& c2.len() == c.len() + (if fresh { 1int } else { 0 })
    &&& forall|i: int| 0 <= i < c2.len() - 1 ==> (#[trigger] c2[i])@ =~= c[i]@
    &&& fresh ==> c2.last()@.len() == 1
    &&& !fresh ==> c2.last()@.len() == c.last()@.len() + 1 && c2.last()@.drop_last() =~= c.last()@
}
pub proof fn lemma_total_eq<T>(c: Seq<Vec<Block<T>>>, d: Seq<Vec<Block<T>>>)
    requires c.len() == d.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] d[i])@.len() == c[i]@.len(),
    ensures total(c) == total(d),
    decreases c.len(),
{
    if c.len() > 0 {
        assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] d.drop_last()[i])@.len() == c.drop_last()[i]@.len() by { assert(d[i]@.len() == c[i]@.len()); }
        lemma_total_eq(c.drop_last(), d.drop_last());
        assert(d[c.len() - 1]@.len() == c[c.len() - 1]@.len());
    }
}
// the three ways in which the invariant is kept
pub proof fn lemma_free<T>(a: TypedArena<T>, b: TypedArena<T>, e: Entry)
    requires
        a.inv(), upd(a.chunks@, b.chunks@, e), b.chunk_size == a.chunk_size, b.capacity == a.capacity,
        blk(a.chunks@, e) is Occupied, b.size + 1 == a.size, b.head == Some(e), blk(b.chunks@, e) == Block::<T>::Vacant(a.head),
    ensures b.inv(),
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    let gl = seq![e] + fl;
    lemma_total_eq(a.chunks@, b.chunks@);
    assert forall|i: int| 0 <= i < gl.len() implies valid(b.chunks@, #[trigger] gl[i]) && blk(b.chunks@, gl[i]) == Block::<T>::Vacant(nxt(gl, i + 1)) by {
        if i > 0 { assert(gl[i] == fl[i - 1]); assert(gl[i] != e); assert(nxt(gl, i + 1) == nxt(fl, i)); } else { assert(nxt(gl, 1) == nxt(fl, 0)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < gl.len() implies gl[i] != gl[j] by { if i == 0 { assert(blk(a.chunks@, fl[j - 1]) is Vacant); } }
    assert(shape(b.chunks@, b.chunk_size as int)) by {
        if b.chunks@.len() > 0 { assert(b.chunks@[b.chunks@.len() - 1]@.len() == a.chunks@[b.chunks@.len() - 1]@.len()); }
    }
    assert(good(b, gl));
}
pub proof fn lemma_reuse<T>(a: TypedArena<T>, b: TypedArena<T>, e: Entry)
    requires
        a.inv(), upd(a.chunks@, b.chunks@, e), b.chunk_size == a.chunk_size, b.capacity == a.capacity,
        a.head == Some(e), blk(b.chunks@, e) is Occupied, b.size == a.size + 1, blk(a.chunks@, e) == Block::<T>::Vacant(b.head),
    ensures b.inv(),
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    let gl = fl.subrange(1, fl.len() as int);
    lemma_total_eq(a.chunks@, b.chunks@);
    assert(fl[0] == e);
    assert(nxt(fl, 1) == nxt(gl, 0));
    assert forall|i: int| 0 <= i < gl.len() implies valid(b.chunks@, #[trigger] gl[i]) && blk(b.chunks@, gl[i]) == Block::<T>::Vacant(nxt(gl, i + 1)) by {
        assert(gl[i] == fl[i + 1]); assert(fl[0] != fl[i + 1]);
        assert(nxt(gl, i + 1) == nxt(fl, i + 2));
    }
    assert(shape(b.chunks@, b.chunk_size as int)) by {
        if b.chunks@.len() > 0 { assert(b.chunks@[b.chunks@.len() - 1]@.len() == a.chunks@[b.chunks@.len() - 1]@.len()); }
    }
    assert(good(b, gl));
}
pub proof fn lemma_full<T>(a: TypedArena<T>)
    requires a.inv(),
    ensures a.size <= a.capacity, a.chunk_size > 0, a.head is None && a.size < a.capacity ==> a.chunks@.len() > 0 && a.chunks@.last()@.len() < a.chunk_size, a.size >= a.capacity ==> a.head is None,
            a.chunks@.len() > 0 ==> total(a.chunks@) == (a.chunks@.len() - 1) * a.chunk_size + a.chunks@.last()@.len(),
            a.size == a.capacity && a.chunks@.len() > 0 ==> a.chunks@.last()@.len() == a.chunk_size,
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    let n = a.chunks@.len() as int;
    let cs = a.chunk_size as int;
    if n > 0 { lemma_total_shape(a.chunks@, cs); assert(n * cs == (n - 1) * cs + cs) by (nonlinear_arith); } else { assert(n * cs == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_grow<T>(a: TypedArena<T>, b: TypedArena<T>)
    requires
        a.inv(), a.head is None, grown(a.chunks@, b.chunks@, a.size == a.capacity), b.chunk_size == a.chunk_size,
        b.capacity == a.capacity + (if a.size == a.capacity { a.chunk_size } else { 0 }), b.head is None, b.size == a.size + 1,
    ensures b.inv(),
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    assert(fl.len() == 0);
    let c = a.chunks@;
    let d = b.chunks@;
    let n = c.len() as int;
    let cs = a.chunk_size as int;
    assert((n + 1) * cs == n * cs + cs) by (nonlinear_arith);
    if a.size == a.capacity {
        lemma_total_eq(c, d.drop_last());
    } else {
        lemma_total_eq(c.drop_last(), d.drop_last());
    }
    assert(total(d) == total(c) + 1);
    lemma_full(a);
    assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d[i])@.len() == cs by { assert(d[i]@ == c[i]@); }
    assert(good(b, fl));
}
pub open spec fn same<T>(a: TypedArena<T>, b: TypedArena<T>) -> bool {
    &&& a.chunk_size == b.chunk_size && a.capacity == b.capacity && a.size == b.size && a.head == b.head && a.chunks@.len() == b.chunks@.len()
    &&& forall|i: int| 0 <= i < a.chunks@.len() ==> (#[trigger] b.chunks@[i])@ =~= a.chunks@[i]@
}
pub proof fn lemma_eq<T>(a: TypedArena<T>, b: TypedArena<T>)
    requires a.inv(), same(a, b),
    ensures b.inv(),
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    lemma_total_eq(a.chunks@, b.chunks@);
    assert(good(b, fl));
}
pub proof fn lemma_same<T>(a: TypedArena<T>, b: TypedArena<T>, e: Entry)
    requires
        a.inv(), upd(a.chunks@, b.chunks@, e), b.chunk_size == a.chunk_size, b.capacity == a.capacity,
        b.size == a.size, b.head == a.head, blk(a.chunks@, e) is Occupied, blk(b.chunks@, e) is Occupied,
    ensures b.inv(),
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    lemma_total_eq(a.chunks@, b.chunks@);
    assert forall|i: int| 0 <= i < fl.len() implies valid(b.chunks@, #[trigger] fl[i]) && blk(b.chunks@, fl[i]) == Block::<T>::Vacant(nxt(fl, i + 1)) by { assert(fl[i] != e); }
    assert(shape(b.chunks@, b.chunk_size as int)) by {
        if b.chunks@.len() > 0 { assert(b.chunks@[b.chunks@.len() - 1]@.len() == a.chunks@[b.chunks@.len() - 1]@.len()); }
    }
    assert(good(b, fl));
}
pub proof fn lemma_live<T>(a: TypedArena<T>)
    requires a.inv(),
    ensures
        (exists|e: Entry| a.val(e) is Some) ==> a.size > 0,
        a.head matches Some(e) ==> valid(a.chunks@, e) && blk(a.chunks@, e) is Vacant,
        a.chunks@.len() == 0 ==> a.size == 0 && a.capacity == 0,
{
    let fl = choose|fl: Seq<Entry>| good(a, fl);
    if exists|e: Entry| a.val(e) is Some {
        let e = choose|e: Entry| a.val(e) is Some;
        lemma_pigeon(a.chunks@, a.head, fl, e);
    }
    if a.chunks@.len() == 0 { assert(a.capacity == 0) by (nonlinear_arith) requires a.capacity == a.chunks@.len() * a.chunk_size, a.chunks@.len() == 0; }
}
//@ fn arena::TypedArena::is_valid_entry
    ensures ret == valid(self.chunks@, *entry),
//@ fn arena::TypedArena::new
    requires chunk_size > 0,
    ensures ret.inv(), forall|e: Entry| (#[trigger] ret.val(e)) is None,
//@ entry
    proof {
        let fl = Seq::<Entry>::empty();
        assert forall|b: TypedArena<T>| b.head is None && b.chunks@.len() == 0 && b.chunk_size > 0 && b.size == 0 && b.capacity == 0 implies #[trigger] b.inv() by {
            assert(0 == 0 * b.chunk_size) by (nonlinear_arith);
            assert(good(b, fl));
        }
    }
//@ fn arena::TypedArena::allocate
    requires
        old(self).inv(), old(self).size < usize::MAX, old(self).capacity + old(self).chunk_size <= usize::MAX,
    ensures
        final(self).inv(),
        old(self).val(ret) is None, final(self).val(ret) == Some(value), final(self).others(old(self), ret),
        old(self).size < old(self).capacity ==> final(self).chunks@.len() == old(self).chunks@.len(),
        final(self).chunk_size == old(self).chunk_size,
//@ entry
    let ghost a = *self;
    proof {
        lemma_live(a); lemma_full(a);
        assert forall|b: TypedArena<T>| a.head is None && grown(a.chunks@, b.chunks@, a.size == a.capacity) && b.chunk_size == a.chunk_size
            && b.capacity == a.capacity + (if a.size == a.capacity { a.chunk_size } else { 0 }) && b.head is None && b.size == a.size + 1
            implies #[trigger] b.inv() by { lemma_grow(a, b); }
        assert forall|b: TypedArena<T>| a.head is Some && upd(a.chunks@, b.chunks@, a.head->0) && b.chunk_size == a.chunk_size && b.capacity == a.capacity
            && blk(b.chunks@, a.head->0) is Occupied && b.size == a.size + 1 && blk(a.chunks@, a.head->0) == Block::<T>::Vacant(b.head)
            implies #[trigger] b.inv() by { lemma_reuse(a, b, a.head->0); }
    }
//@ fn arena::TypedArena::free
    requires old(self).inv(), old(self).val(*entry) is Some,
    ensures
        final(self).inv(),
        old(self).val(*entry) == Some(ret), final(self).val(*entry) is None, final(self).others(old(self), *entry),
//@ entry
    let ghost a = *self;
    proof {
        lemma_live(a);
        assert forall|b: TypedArena<T>| upd(a.chunks@, b.chunks@, *entry) && b.chunk_size == a.chunk_size && b.capacity == a.capacity
            && b.size + 1 == a.size && b.head == Some(*entry) && blk(b.chunks@, *entry) == Block::<T>::Vacant(a.head)
            implies #[trigger] b.inv() by { lemma_free(a, b, *entry); }
    }
//@ fn arena::TypedArena::get
    ensures ret == (match self.val(*entry) { Some(v) => Some(&v), None => None }),
//@ fn arena::TypedArena::get_mut
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match ret {
            Some(r) => old(self).val(*entry) == Some(*r) && final(self).val(*entry) == Some(*final(r)) && final(self).others(old(self), *entry),
            None => old(self).val(*entry) is None && forall|e: Entry| #[trigger] final(self).val(e) == old(self).val(e),
        },
//@ entry
    let ghost a = *self;
    proof {
        assert forall|b: TypedArena<T>| same(a, b) implies #[trigger] b.inv() by { lemma_eq(a, b); }
        if a.val(*entry) is Some {
            assert forall|b: TypedArena<T>| upd(a.chunks@, b.chunks@, *entry) && b.chunk_size == a.chunk_size && b.capacity == a.capacity
                && b.size == a.size && b.head == a.head && blk(b.chunks@, *entry) is Occupied
                implies #[trigger] b.inv() by { lemma_same(a, b, *entry); }
        }
    }
//@ fn arena::TypedArena::Index::index
    requires self.val(entry) is Some,
    ensures self.val(entry) == Some(*ret),
//@ fn arena::TypedArena::IndexMut::index_mut
    requires old(self).inv(), old(self).val(entry) is Some,
    ensures
        final(self).inv(),
        old(self).val(entry) == Some(*ret) && final(self).val(entry) == Some(*final(ret)) && final(self).others(old(self), entry),
