//! Ordered maps and sets against a BTreeMap, with identity and drop tracking.
use crate::fw::*;
use crate::{chk, chkeq};
use std::collections::BTreeMap;

pub trait MapApi: Sized {
    const TREAP: bool = false;
    const ALG: bool = false;
    const SET: bool = false;
    fn new() -> Self;
    fn default_() -> Self;
    fn insert(&mut self, k: K, v: W) -> Option<(K, Option<W>)>;
    fn remove(&mut self, k: i64) -> Option<(K, Option<W>)>;
    fn get(&self, k: i64) -> Option<(i64, u64)>;
    fn get_mut(&mut self, k: i64) -> Option<&mut W>;
    fn contains(&self, k: i64) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn floor(&self, k: i64) -> Option<&K>;
    fn ceil(&self, k: i64) -> Option<&K>;
    fn min(&self) -> Option<&K>;
    fn max(&self) -> Option<&K>;
    fn index(&self, k: i64) -> (i64, u64);
    fn index_mut(&mut self, k: i64) -> &mut W;
    fn visit(&self, by_ref: bool, f: &mut dyn FnMut(&K, Option<&W>));
    fn visit_mut(&mut self, by_ref: bool, limit: usize, f: &mut dyn FnMut(&K, &mut W));
    fn into(self, limit: usize, f: &mut dyn FnMut(K, Option<W>));
    fn alg(_kind: u8, _op: bool, _a: Self, _b: Self) -> Self {
        unreachable!()
    }
    fn split_off(&mut self, _k: i64, _incl: bool) -> Self {
        unreachable!()
    }
}

macro_rules! map_api {
    ($name:ident, $m:path $(, $extra:ident)?) => {
        impl MapApi for $m {
            fn new() -> Self { <$m>::new() }
            fn default_() -> Self { Default::default() }
            fn insert(&mut self, k: K, v: W) -> Option<(K, Option<W>)> { <$m>::insert(self, k, v).map(|(k, v)| (k, Some(v))) }
            fn remove(&mut self, k: i64) -> Option<(K, Option<W>)> { <$m>::remove(self, &Q(k)).map(|(k, v)| (k, Some(v))) }
            fn get(&self, k: i64) -> Option<(i64, u64)> { <$m>::get(self, &Q(k)).map(|w| (w.v, w.id)) }
            fn get_mut(&mut self, k: i64) -> Option<&mut W> { <$m>::get_mut(self, &Q(k)) }
            fn contains(&self, k: i64) -> bool { <$m>::contains_key(self, &Q(k)) }
            fn len(&self) -> usize { <$m>::len(self) }
            fn is_empty(&self) -> bool { <$m>::is_empty(self) }
            fn clear(&mut self) { <$m>::clear(self) }
            fn floor(&self, k: i64) -> Option<&K> { <$m>::floor(self, &Q(k)) }
            fn ceil(&self, k: i64) -> Option<&K> { <$m>::ceil(self, &Q(k)) }
            fn min(&self) -> Option<&K> { <$m>::min(self) }
            fn max(&self) -> Option<&K> { <$m>::max(self) }
            fn index(&self, k: i64) -> (i64, u64) { let w = &self[&Q(k)]; (w.v, w.id) }
            fn index_mut(&mut self, k: i64) -> &mut W { &mut self[&Q(k)] }
            fn visit(&self, by_ref: bool, f: &mut dyn FnMut(&K, Option<&W>)) {
                if by_ref { for (k, v) in self { f(k, Some(v)) } } else {
                    let mut it = self.iter();
                    while let Some((k, v)) = it.next() { f(k, Some(v)) }
                    if it.next().is_some() || it.next().is_some() { panic!("iter yields after None") }
                }
            }
            fn visit_mut(&mut self, by_ref: bool, limit: usize, f: &mut dyn FnMut(&K, &mut W)) {
                if by_ref { for (k, v) in self.into_iter().take(limit) { f(k, v) } } else {
                    let mut it = self.iter_mut();
                    for _ in 0..limit {
                        match it.next() { Some((k, v)) => f(k, v), None => { if it.next().is_some() { panic!("iter_mut yields after None") } break } }
                    }
                }
            }
            fn into(self, limit: usize, f: &mut dyn FnMut(K, Option<W>)) {
                let mut it = self.into_iter();
                for _ in 0..limit {
                    match it.next() { Some((k, v)) => f(k, Some(v)), None => { if it.next().is_some() { panic!("into_iter yields after None") } break } }
                }
            }
            map_extra!{$m $(, $extra)?}
        }
        #[allow(dead_code)]
        pub struct $name;
    };
}
macro_rules! set_api {
    ($name:ident, $m:path, $q:expr $(, $extra:ident)?) => {
        impl MapApi for $m {
            const SET: bool = true;
            fn new() -> Self { <$m>::new() }
            fn default_() -> Self { Default::default() }
            fn insert(&mut self, k: K, _v: W) -> Option<(K, Option<W>)> { <$m>::insert(self, k).map(|k| (k, None)) }
            fn remove(&mut self, k: i64) -> Option<(K, Option<W>)> { <$m>::remove(self, &$q(k)).map(|k| (k, None)) }
            fn get(&self, _: i64) -> Option<(i64, u64)> { unreachable!() }
            fn get_mut(&mut self, _: i64) -> Option<&mut W> { unreachable!() }
            fn contains(&self, k: i64) -> bool { <$m>::contains(self, &Q(k)) }
            fn len(&self) -> usize { <$m>::len(self) }
            fn is_empty(&self) -> bool { <$m>::is_empty(self) }
            fn clear(&mut self) { <$m>::clear(self) }
            fn floor(&self, k: i64) -> Option<&K> { <$m>::floor(self, &Q(k)) }
            fn ceil(&self, k: i64) -> Option<&K> { <$m>::ceil(self, &Q(k)) }
            fn min(&self) -> Option<&K> { <$m>::min(self) }
            fn max(&self) -> Option<&K> { <$m>::max(self) }
            fn index(&self, _: i64) -> (i64, u64) { unreachable!() }
            fn index_mut(&mut self, _: i64) -> &mut W { unreachable!() }
            fn visit(&self, by_ref: bool, f: &mut dyn FnMut(&K, Option<&W>)) {
                if by_ref { for k in self { f(k, None) } } else {
                    let mut it = self.iter();
                    while let Some(k) = it.next() { f(k, None) }
                    if it.next().is_some() { panic!("iter yields after None") }
                }
            }
            fn visit_mut(&mut self, _: bool, _: usize, _: &mut dyn FnMut(&K, &mut W)) {}
            fn into(self, limit: usize, f: &mut dyn FnMut(K, Option<W>)) {
                let mut it = self.into_iter();
                for _ in 0..limit {
                    match it.next() { Some(k) => f(k, None), None => { if it.next().is_some() { panic!("into_iter yields after None") } break } }
                }
            }
            map_extra!{$m $(, $extra)?}
        }
        #[allow(dead_code)]
        pub struct $name;
    };
}
macro_rules! map_extra {
    ($m:path) => {};
    ($m:path, alg) => {
        const ALG: bool = true;
        fn alg(kind: u8, op: bool, a: Self, b: Self) -> Self {
            match kind {
                0 => if op { a + b } else { <$m>::union(a, b) },
                1 => <$m>::intersection(a, b),
                2 => if op { a - b } else { <$m>::difference(a, b) },
                _ => <$m>::symmetric_difference(a, b),
            }
        }
    };
    ($m:path, treap) => {
        map_extra!{$m, alg}
        const TREAP: bool = true;
        fn split_off(&mut self, k: i64, incl: bool) -> Self { <$m>::split_off(self, &Q(k), incl) }
    };
    ($m:path, treapset) => {
        map_extra!{$m, alg}
        const TREAP: bool = true;
        fn split_off(&mut self, k: i64, incl: bool) -> Self { <$m>::split_off(self, &K::probe(k), incl) }
    };
}
use extended_collections as ec;
map_api!(A1, ec::avl_tree::AvlMap<K, W>);
map_api!(A2, ec::red_black_tree::RedBlackMap<K, W>);
map_api!(A3, ec::splay_tree::SplayMap<K, W>);
map_api!(A4, ec::treap::TreapMap<K, W>, treap);
map_api!(A5, ec::skiplist::SkipMap<K, W>, alg);
set_api!(B1, ec::avl_tree::AvlSet<K>, K::probe);
set_api!(B2, ec::red_black_tree::RedBlackSet<K>, K::probe);
set_api!(B3, ec::splay_tree::SplaySet<K>, K::probe);
set_api!(B4, ec::treap::TreapSet<K>, K::probe, treapset);
set_api!(B5, ec::skiplist::SkipSet<K>, Q, alg);

type Model = BTreeMap<i64, (u64, i64, u64)>; // key -> key id, value, value id

const INSERT: u8 = 0;
const REMOVE: u8 = 1;
const GET: u8 = 2;
const GETMUT: u8 = 3;
const FLOOR: u8 = 4;
const CEIL: u8 = 5;
const MINMAX: u8 = 6;
const CLEAR: u8 = 7;
const ITER: u8 = 8;
const ITERMUT: u8 = 9;
const INTO: u8 = 10;
const INDEX: u8 = 11;
const CONTAINS: u8 = 12;
const INDEXMUT: u8 = 13;
const SWAP: u8 = 14;
const UNION: u8 = 15;
const INTER: u8 = 16;
const DIFF: u8 = 17;
const SYM: u8 = 18;
const SPLIT: u8 = 19;
const NAMES: [&str; 20] = [
    "insert", "remove", "get", "get_mut", "floor", "ceil", "min/max", "clear", "iter", "iter_mut",
    "into_iter", "index", "contains", "index_mut", "swap with the second map", "union", "intersection",
    "difference", "symmetric_difference", "split_off",
];

fn show_op(o: &Op) -> String {
    format!("{}({}, {})", NAMES[o.0 as usize % 20], o.1, o.2)
}

struct OrdMap<M> {
    name: &'static str,
    // kinds of operations in use, by weight
    letters: Vec<u8>,
    ph: std::marker::PhantomData<M>,
}

fn same<M: MapApi>(m: &M, mo: &Model, how: bool) -> Res {
    let mut got = vec![];
    m.visit(how, &mut |k, v| got.push((k.q.0, k.id, v.map(|w| (w.v, w.id)))));
    let want: Vec<_> = mo.iter().map(|(k, e)| (*k, e.0, if M::SET { None } else { Some((e.1, e.2)) })).collect();
    chkeq!(got, want, "entries (key, key id, value) by iteration");
    chkeq!(m.len(), mo.len(), "len");
    chkeq!(m.is_empty(), mo.is_empty(), "is_empty");
    Ok(())
}
fn probe_all<M: MapApi>(m: &M, mo: &Model) -> Res {
    let lo = mo.keys().next().cloned().unwrap_or(0) - 2;
    let hi = mo.keys().last().cloned().unwrap_or(0) + 2;
    let keys: Vec<i64> = if hi - lo <= 40 { (lo..=hi).collect() } else { mo.keys().flat_map(|k| vec![*k, *k + 1]).take(60).collect() };
    for k in keys {
        if !M::SET {
            chkeq!(m.get(k), mo.get(&k).map(|e| (e.1, e.2)), "get({})", k);
        }
        chkeq!(m.contains(k), mo.contains_key(&k), "contains({})", k);
        chkeq!(m.floor(k).map(|k| (k.q.0, k.id)), mo.range(..=k).next_back().map(|(k, e)| (*k, e.0)), "floor({})", k);
        chkeq!(m.ceil(k).map(|k| (k.q.0, k.id)), mo.range(k..).next().map(|(k, e)| (*k, e.0)), "ceil({})", k);
    }
    chkeq!(m.min().map(|k| (k.q.0, k.id)), mo.iter().next().map(|(k, e)| (*k, e.0)), "min");
    chkeq!(m.max().map(|k| (k.q.0, k.id)), mo.iter().next_back().map(|(k, e)| (*k, e.0)), "max");
    Ok(())
}

impl<M: MapApi> OrdMap<M> {
    fn new(name: &'static str) -> Self {
        let mut l = vec![];
        let mut add = |k: u8, n: usize| for _ in 0..n { l.push(k) };
        add(INSERT, 12);
        add(REMOVE, 7);
        for k in &[FLOOR, CEIL, MINMAX, ITER, INTO, CONTAINS] { add(*k, 1) }
        if !M::SET { for k in &[GET, GETMUT, ITERMUT, INDEX, INDEXMUT] { add(*k, 1) } }
        OrdMap { name, letters: l, ph: std::marker::PhantomData }
    }
    fn go(&self, ops: &[Op]) -> Res {
        let mut m = M::new();
        let mut m2 = M::default_();
        let mut mo = Model::new();
        let mut mo2 = Model::new();
        for (i, op) in ops.iter().enumerate() {
            let at = format!("operation {} {}", i, show_op(op));
            let k = op.1;
            self.step(op, k, &mut m, &mut mo, &mut m2, &mut mo2).map_err(|e| format!("{}: {}", at, e))?;
            track_bad().map_err(|e| format!("{}: {}", at, e))?;
            same(&m, &mo, i % 2 == 0).map_err(|e| format!("after {}: {}", at, e))?;
            let live = mo.len() + mo2.len();
            chkeq!(track_live(), if M::SET { live } else { 2 * live }, "after {}: live keys and values", at);
        }
        probe_all(&m, &mo)?;
        same(&m, &mo, true)?;
        probe_all(&m2, &mo2)?;
        same(&m2, &mo2, false)?;
        drop(m);
        drop(m2);
        track_bad()?;
        chkeq!(track_live(), 0, "keys and values still live after drop");
        Ok(())
    }
    fn step(&self, op: &Op, k: i64, m: &mut M, mo: &mut Model, m2: &mut M, mo2: &mut Model) -> Res {
        match op.0 {
            INSERT => {
                let (kk, w) = (K::new(k), W::new(op.2));
                let rec = (kk.id, op.2, w.id);
                let r = m.insert(kk, w).map(|(k, w)| (k.q.0, k.id, w.as_ref().map(|w| (w.v, w.id))));
                let e = mo.insert(k, rec).map(|e| (k, e.0, if M::SET { None } else { Some((e.1, e.2)) }));
                chkeq!(r, e, "returned entry");
            }
            REMOVE => {
                let r = m.remove(k).map(|(k, w)| (k.q.0, k.id, w.as_ref().map(|w| (w.v, w.id))));
                let e = mo.remove(&k).map(|e| (k, e.0, if M::SET { None } else { Some((e.1, e.2)) }));
                chkeq!(r, e, "returned entry");
            }
            GET => chkeq!(m.get(k), mo.get(&k).map(|e| (e.1, e.2)), "value"),
            GETMUT => {
                let e = mo.get_mut(&k);
                match (m.get_mut(k), e) {
                    (Some(w), Some(e)) => {
                        chkeq!((w.v, w.id), (e.1, e.2), "value");
                        w.v = op.2;
                        e.1 = op.2;
                    }
                    (None, None) => (),
                    (a, b) => return Err(format!("got {:?}, expected {:?}", a.is_some(), b.is_some())),
                }
            }
            FLOOR => chkeq!(m.floor(k).map(|k| (k.q.0, k.id)), mo.range(..=k).next_back().map(|(k, e)| (*k, e.0)), "key"),
            CEIL => chkeq!(m.ceil(k).map(|k| (k.q.0, k.id)), mo.range(k..).next().map(|(k, e)| (*k, e.0)), "key"),
            MINMAX => {
                chkeq!(m.min().map(|k| (k.q.0, k.id)), mo.iter().next().map(|(k, e)| (*k, e.0)), "min");
                chkeq!(m.max().map(|k| (k.q.0, k.id)), mo.iter().next_back().map(|(k, e)| (*k, e.0)), "max");
            }
            CLEAR => {
                m.clear();
                mo.clear();
            }
            ITER => {
                same(m, mo, true)?;
                same(m, mo, false)?;
            }
            ITERMUT => {
                let mut seen = vec![];
                let lim = op.1.max(0) as usize;
                let add = op.2;
                m.visit_mut(op.2 % 2 == 0, lim, &mut |k, w| {
                    seen.push((k.q.0, k.id, w.v, w.id));
                    w.v += add;
                });
                let mut want = vec![];
                for (k, e) in mo.iter_mut().take(lim) {
                    want.push((*k, e.0, e.1, e.2));
                    e.1 += add;
                }
                chkeq!(seen, want, "entries visited");
            }
            INTO => {
                let lim = op.1.max(0) as usize;
                let mut seen = vec![];
                std::mem::replace(m, M::new()).into(lim, &mut |k, w| seen.push((k, w)));
                let got: Vec<_> = seen.iter().map(|(k, w)| (k.q.0, k.id, w.as_ref().map(|w| (w.v, w.id)))).collect();
                let want: Vec<_> = mo.iter().take(lim).map(|(k, e)| (*k, e.0, if M::SET { None } else { Some((e.1, e.2)) })).collect();
                chkeq!(got, want, "entries consumed");
                mo.clear();
                for (k, w) in seen {
                    let w = w.unwrap_or_else(|| W::new(0));
                    mo.insert(k.q.0, (k.id, w.v, w.id));
                    m.insert(k, w);
                }
            }
            INDEX | INDEXMUT => {
                let want = mo.get(&k).map(|e| (e.1, e.2));
                let got = catch(|| {
                    if op.0 == INDEX {
                        m.index(k)
                    } else {
                        let w = m.index_mut(k);
                        let r = (w.v, w.id);
                        w.v = op.2;
                        r
                    }
                })
                .ok();
                chkeq!(got, want, "value (None: panics)");
                if op.0 == INDEXMUT {
                    if let Some(e) = mo.get_mut(&k) {
                        e.1 = op.2;
                    }
                }
            }
            CONTAINS => chkeq!(m.contains(k), mo.contains_key(&k), "result"),
            SWAP => {
                std::mem::swap(m, m2);
                std::mem::swap(mo, mo2);
            }
            UNION | INTER | DIFF | SYM => {
                let a = std::mem::replace(m, M::new());
                let b = std::mem::replace(m2, M::new());
                let ma = std::mem::replace(mo, Model::new());
                let mb = std::mem::replace(mo2, Model::new());
                *m = M::alg(op.0 - UNION, op.2 % 2 == 0, a, b);
                for (k, e) in ma.iter() {
                    let keep = match op.0 {
                        UNION => true,
                        INTER => mb.contains_key(k),
                        _ => !mb.contains_key(k),
                    };
                    if keep {
                        mo.insert(*k, *e);
                    }
                }
                if op.0 == UNION || op.0 == SYM {
                    for (k, e) in mb.iter() {
                        if !ma.contains_key(k) {
                            mo.insert(*k, *e);
                        }
                    }
                }
            }
            SPLIT => {
                let incl = op.2 % 2 == 0;
                *m2 = m.split_off(k, incl);
                mo2.clear();
                let cut = if incl { k + 1 } else { k };
                let right = mo.split_off(&cut);
                mo2.extend(right);
                same(m2, mo2, true)?;
            }
            _ => return Err("bad op".into()),
        }
        Ok(())
    }
}

impl<M: MapApi> Target for OrdMap<M> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn exhaustive(&self) -> u64 {
        8 + 64 + 512 + 4096 + 32768
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        if idx < self.exhaustive() {
            // all words over insert/remove of four keys
            let mut n = idx;
            let mut len = 1;
            while n >= 8u64.pow(len) {
                n -= 8u64.pow(len);
                len += 1;
            }
            return word(n, len as usize, 8)
                .iter()
                .enumerate()
                .map(|(i, l)| Op(if *l < 4 { INSERT } else { REMOVE }, (l % 4) as i64, i as i64))
                .collect();
        }
        let (n, uni) = match rng.below(16) {
            0..=7 => (1 + rng.below(14), 1 + rng.below(8)),
            8..=12 => (10 + rng.below(50), 4 + rng.below(30)),
            13 | 14 => (60 + rng.below(100), 20 + rng.below(200)),
            _ => (150 + rng.below(250), 50 + rng.below(400)),
        };
        let mode = rng.below(5);
        let clears = rng.chance(1, 3);
        let mut v = vec![];
        for i in 0..n {
            let mut kind = *rng.pick(&self.letters);
            if clears && rng.chance(1, 25) {
                kind = CLEAR;
            }
            if mode == 3 && i < n / 2 && kind == REMOVE {
                kind = INSERT;
            }
            if mode == 4 && i > n / 2 && kind == INSERT && rng.chance(2, 3) {
                kind = REMOVE;
            }
            let mut k = rng.below(uni) as i64;
            if kind == INSERT {
                if mode == 1 { k = i as i64 }
                if mode == 2 { k = n as i64 - i as i64 }
            } else if kind == ITERMUT || kind == INTO {
                k = rng.below(n.min(20) + 2) as i64;
                if rng.chance(1, 2) { k = 100000 }
                if kind == INTO && rng.chance(1, 2) { kind = ITER }
            } else if mode == 1 || mode == 2 {
                k = rng.below(n) as i64;
            }
            v.push(Op(kind, k, rng.below(1000) as i64));
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        self.go(ops)
    }
    fn show(&self, op: &Op) -> String {
        show_op(op)
    }
}

// ---- set algebra and split_off -----------------------------------------------------------
struct Alg<M> {
    name: &'static str,
    split: bool,
    o: OrdMap<M>,
}
impl<M: MapApi> Target for Alg<M> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn exhaustive(&self) -> u64 {
        4 * 64 * 64
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        let mut v = vec![];
        if idx < self.exhaustive() {
            // every pair of subsets of six keys, every operation
            let (kind, a, b) = (idx % 4, idx / 4 % 64, idx / 256);
            for i in 0..6i64 { if b >> i & 1 == 1 { v.push(Op(INSERT, i, 100 + i)) } }
            v.push(Op(SWAP, 0, 0));
            for i in 0..6i64 { let i = (i * 5) % 6; if a >> i & 1 == 1 { v.push(Op(INSERT, i, i)) } }
            if self.split {
                v.push(Op(SPLIT, (b % 7) as i64, (kind % 2) as i64));
            } else {
                v.push(Op(UNION + kind as u8, 0, (a % 2) as i64));
            }
            return v;
        }
        let uni = if rng.chance(1, 2) { 3 + rng.below(10) } else { 10 + rng.below(120) };
        let n = 5 + rng.below(if uni > 20 { 200 } else { 40 });
        for _ in 0..n {
            let r = rng.below(100);
            let kind = if r < 60 { INSERT }
                else if r < 70 { REMOVE }
                else if r < 90 { SWAP }
                else if r < 92 { MINMAX }
                else if self.split { SPLIT }
                else { UNION + rng.below(4) as u8 };
            v.push(Op(kind, rng.below(uni) as i64, rng.below(1000) as i64));
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        self.o.go(ops)
    }
    fn show(&self, op: &Op) -> String {
        show_op(op)
    }
}

// ---- path lengths ------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Bound {
    Avl,
    Rb,
    Treap,
    Splay,
}
struct Path<M> {
    name: &'static str,
    bound: Bound,
    ph: std::marker::PhantomData<M>,
}
// the greatest height a tree of n entries may have
fn max_height(b: Bound, n: usize) -> usize {
    match b {
        Bound::Avl => {
            let (mut a, mut c, mut h) = (0usize, 1usize, 0);
            // a = fewest entries at height h, c = at height h + 1
            while c <= n {
                let d = a + c + 1;
                a = c;
                c = d;
                h += 1;
            }
            h
        }
        Bound::Rb => {
            // fewest nodes of a red-black tree of height h
            fn full(b: usize) -> usize { (1usize << b) - 1 }
            fn black(h: usize, b: usize) -> Option<usize> {
                if b == 0 || h == 0 { return if b == 0 && h == 0 { Some(0) } else { None } }
                let x = black(h - 1, b - 1);
                let y = red(h - 1, b - 1);
                match (x, y) { (Some(x), Some(y)) => Some(x.min(y)), (x, y) => x.or(y) }.map(|m| m + 1 + full(b - 1))
            }
            fn red(h: usize, b: usize) -> Option<usize> {
                if h == 0 { return None }
                black(h - 1, b).map(|m| m + 1 + full(b))
            }
            let mut h = 0;
            loop {
                let need = (1..=h + 1).filter_map(|b| black(h + 1, b)).min();
                match need { Some(m) if m <= n => h += 1, _ => return h }
            }
        }
        Bound::Treap => if n == 0 { 0 } else { n.min(12 + 5 * (n as f64 + 1.0).log2() as usize) },
        Bound::Splay => usize::max_value(),
    }
}
impl<M: MapApi> Target for Path<M> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn exhaustive(&self) -> u64 {
        10 + 100 + 1000 + 10000 + 100000
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        if idx % 2 == 0 && idx / 2 < self.exhaustive() {
            let mut n = idx / 2;
            let mut len = 1;
            while n >= 10u64.pow(len) {
                n -= 10u64.pow(len);
                len += 1;
            }
            let mut v: Vec<Op> = word(n, len as usize, 10)
                .iter()
                .map(|l| Op(if *l < 6 { INSERT } else { REMOVE }, (l % 6) as i64 * 2, 0))
                .collect();
            v.push(Op(CONTAINS, 0, 0));
            return v;
        }
        let n = match rng.below(8) { 0..=4 => 5 + rng.below(25), 5 | 6 => 20 + rng.below(100), _ => 100 + rng.below(500) };
        let mode = rng.below(8);
        let grow = n / 2;
        let uni = 2 * n;
        let mut v = vec![];
        let mut have: Vec<i64> = vec![];
        for i in 0..n {
            let ins = if i < grow { rng.chance(19, 20) } else { rng.chance(1, 4) };
            if ins || have.is_empty() {
                let k = match mode {
                    0 | 5 => i as i64,
                    1 | 6 => (n - i) as i64,
                    2 => if i % 2 == 0 { i as i64 } else { 3 * n as i64 - i as i64 },
                    _ => rng.below(uni) as i64,
                };
                if let Err(p) = have.binary_search(&k) { have.insert(p, k) }
                v.push(Op(INSERT, k, 0));
            } else {
                let p = match mode {
                    0 | 3 => 0,
                    1 | 4 => have.len() - 1,
                    2 => have.len() / 2,
                    5 => have.len() / 3,
                    _ => rng.below(have.len() as u64) as usize,
                };
                v.push(Op(REMOVE, have.remove(p), 0));
            }
            if rng.chance(1, 12) { v.push(Op(CONTAINS, 0, 0)) }
        }
        v.push(Op(CONTAINS, 0, 0));
        if self.bound == Bound::Treap && rng.chance(1, 2) {
            // the same history by joining and taking out maps of one key, and by splitting and joining
            let side = rng.below(3);
            for op in &mut v {
                let r = if side == 2 { rng.below(2) } else { side } as i64;
                match op.0 {
                    INSERT => *op = Op(UNION, op.1, r),
                    REMOVE => *op = Op(if rng.chance(1, 3) { SPLIT } else { DIFF }, op.1, r),
                    _ => {}
                }
            }
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        let mut m = M::new();
        let mut keys: Vec<i64> = vec![];
        for (i, op) in ops.iter().enumerate() {
            match op.0 {
                INSERT => {
                    m.insert(K::new(op.1), W::new(0));
                    if let Err(p) = keys.binary_search(&op.1) { keys.insert(p, op.1) }
                }
                REMOVE => {
                    m.remove(op.1);
                    if let Ok(p) = keys.binary_search(&op.1) { keys.remove(p); }
                }
                UNION | DIFF if M::ALG => {
                    let a = std::mem::replace(&mut m, M::new());
                    let mut b = M::new();
                    // every map draws the same priorities: use the i-th here
                    for _ in 0..i { b.insert(K::new(op.1), W::new(0)); b.remove(op.1); }
                    b.insert(K::new(op.1), W::new(0));
                    m = if op.0 == DIFF { M::alg(2, false, a, b) } else if op.2 == 0 { M::alg(0, false, a, b) } else { M::alg(0, false, b, a) };
                    match keys.binary_search(&op.1) {
                        Err(p) => if op.0 == UNION { keys.insert(p, op.1) },
                        Ok(p) => if op.0 == DIFF { keys.remove(p); },
                    }
                }
                SPLIT if M::ALG => {
                    // take out the key, split there and join the parts
                    m.remove(op.1);
                    if let Ok(p) = keys.binary_search(&op.1) { keys.remove(p); }
                    let b = m.split_off(op.1, false);
                    let a = std::mem::replace(&mut m, M::new());
                    m = if op.2 == 0 { M::alg(0, false, a, b) } else { M::alg(0, false, b, a) };
                }
                _ => {
                    let b = max_height(self.bound, keys.len());
                    for k in &keys {
                        if self.bound == Bound::Splay {
                            m.contains(*k);
                            let s = steps(|| { m.contains(*k); });
                            chk!(s <= 1, "operation {}: looking up {} twice in a row visits {} keys the second time (the key is not at the root)", i, k, s);
                        } else {
                            let s = steps(|| { m.contains(*k); });
                            chk!(s <= b, "operation {}: a lookup of {} among {} keys visits {} keys, the bound is {}", i, k, keys.len(), s, b);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn show(&self, op: &Op) -> String {
        match op.0 {
            CONTAINS => "check the paths".into(),
            UNION => format!("{}", if op.2 == 0 { format!("union(map, {{{}}})", op.1) } else { format!("union({{{}}}, map)", op.1) }),
            DIFF => format!("difference(map, {{{}}})", op.1),
            SPLIT => format!("remove({0}), split at {0} and union", op.1),
            _ => show_op(op),
        }
    }
}

pub fn register(v: &mut Vec<Box<dyn Target>>) {
    macro_rules! om {
        ($n:expr, $t:ty) => { v.push(Box::new(OrdMap::<$t>::new($n))) };
    }
    macro_rules! alg {
        ($n:expr, $s:expr, $t:ty) => { v.push(Box::new(Alg::<$t> { name: $n, split: $s, o: OrdMap::new($n) })) };
    }
    macro_rules! path {
        ($n:expr, $b:expr, $t:ty) => { v.push(Box::new(Path::<$t> { name: $n, bound: $b, ph: std::marker::PhantomData })) };
    }
    om!("avl-map", ec::avl_tree::AvlMap<K, W>);
    om!("avl-set", ec::avl_tree::AvlSet<K>);
    om!("rb-map", ec::red_black_tree::RedBlackMap<K, W>);
    om!("rb-set", ec::red_black_tree::RedBlackSet<K>);
    om!("splay-map", ec::splay_tree::SplayMap<K, W>);
    om!("splay-set", ec::splay_tree::SplaySet<K>);
    om!("treap-map", ec::treap::TreapMap<K, W>);
    om!("treap-set", ec::treap::TreapSet<K>);
    om!("skip-map", ec::skiplist::SkipMap<K, W>);
    om!("skip-set", ec::skiplist::SkipSet<K>);
    alg!("treap-alg-map", false, ec::treap::TreapMap<K, W>);
    alg!("treap-alg-set", false, ec::treap::TreapSet<K>);
    alg!("treap-split-map", true, ec::treap::TreapMap<K, W>);
    alg!("treap-split-set", true, ec::treap::TreapSet<K>);
    alg!("skip-alg-map", false, ec::skiplist::SkipMap<K, W>);
    alg!("skip-alg-set", false, ec::skiplist::SkipSet<K>);
    path!("avl-path", Bound::Avl, ec::avl_tree::AvlMap<K, W>);
    path!("rb-path", Bound::Rb, ec::red_black_tree::RedBlackMap<K, W>);
    path!("treap-path", Bound::Treap, ec::treap::TreapMap<K, W>);
    path!("splay-path", Bound::Splay, ec::splay_tree::SplayMap<K, W>);
}
