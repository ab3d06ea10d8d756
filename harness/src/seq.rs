//! Lists (TreapList, SkipList) against a Vec, with identity and drop tracking.
use crate::fw::*;
use crate::{chk, chkeq};
use extended_collections as ec;

pub trait SeqApi: Sized {
    fn new() -> Self;
    fn default_() -> Self;
    fn insert(&mut self, i: usize, v: W);
    fn remove(&mut self, i: usize) -> W;
    fn push_front(&mut self, v: W);
    fn push_back(&mut self, v: W);
    fn pop_front(&mut self) -> W;
    fn pop_back(&mut self) -> W;
    fn get(&self, i: usize) -> Option<&W>;
    fn get_mut(&mut self, i: usize) -> Option<&mut W>;
    fn index(&self, i: usize) -> &W;
    fn index_mut(&mut self, i: usize) -> &mut W;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn add(self, o: Self) -> Self;
    fn visit(&self, by_ref: bool, f: &mut dyn FnMut(&W));
    fn visit_mut(&mut self, by_ref: bool, limit: usize, f: &mut dyn FnMut(&mut W));
    fn into(self, limit: usize, f: &mut dyn FnMut(W));
}
macro_rules! seq_api {
    ($m:path) => {
        impl SeqApi for $m {
            fn new() -> Self { <$m>::new() }
            fn default_() -> Self { Default::default() }
            fn insert(&mut self, i: usize, v: W) { <$m>::insert(self, i, v) }
            fn remove(&mut self, i: usize) -> W { <$m>::remove(self, i) }
            fn push_front(&mut self, v: W) { <$m>::push_front(self, v) }
            fn push_back(&mut self, v: W) { <$m>::push_back(self, v) }
            fn pop_front(&mut self) -> W { <$m>::pop_front(self) }
            fn pop_back(&mut self) -> W { <$m>::pop_back(self) }
            fn get(&self, i: usize) -> Option<&W> { <$m>::get(self, i) }
            fn get_mut(&mut self, i: usize) -> Option<&mut W> { <$m>::get_mut(self, i) }
            fn index(&self, i: usize) -> &W { &self[i] }
            fn index_mut(&mut self, i: usize) -> &mut W { &mut self[i] }
            fn len(&self) -> usize { <$m>::len(self) }
            fn is_empty(&self) -> bool { <$m>::is_empty(self) }
            fn clear(&mut self) { <$m>::clear(self) }
            fn add(self, o: Self) -> Self { self + o }
            fn visit(&self, by_ref: bool, f: &mut dyn FnMut(&W)) {
                if by_ref { for v in self { f(v) } } else {
                    let mut it = self.iter();
                    while let Some(v) = it.next() { f(v) }
                    if it.next().is_some() { panic!("iter yields after None") }
                }
            }
            fn visit_mut(&mut self, by_ref: bool, limit: usize, f: &mut dyn FnMut(&mut W)) {
                if by_ref { for v in self.into_iter().take(limit) { f(v) } } else {
                    let mut it = self.iter_mut();
                    for _ in 0..limit {
                        match it.next() { Some(v) => f(v), None => { if it.next().is_some() { panic!("iter_mut yields after None") } break } }
                    }
                }
            }
            fn into(self, limit: usize, f: &mut dyn FnMut(W)) {
                let mut it = self.into_iter();
                for _ in 0..limit {
                    match it.next() { Some(v) => f(v), None => { if it.next().is_some() { panic!("into_iter yields after None") } break } }
                }
            }
        }
    };
}
seq_api!(ec::treap::TreapList<W>);
seq_api!(ec::skiplist::SkipList<W>);

const INSERT: u8 = 0;
const REMOVE: u8 = 1;
const PUSHF: u8 = 2;
const PUSHB: u8 = 3;
const POPF: u8 = 4;
const POPB: u8 = 5;
const GET: u8 = 6;
const GETMUT: u8 = 7;
const CLEAR: u8 = 8;
const ITERMUT: u8 = 9;
const INTO: u8 = 10;
const INDEX: u8 = 11;
const INDEXMUT: u8 = 12;
const SWAP: u8 = 13;
const ADD: u8 = 14;
const FAR: u8 = 15;
const NAMES: [&str; 16] = [
    "insert", "remove", "push_front", "push_back", "pop_front", "pop_back", "get", "get_mut", "clear", "iter_mut",
    "into_iter", "index", "index_mut", "swap with the second list", "add the second list", "get/get_mut far out of range",
];

struct Seq<M> {
    name: &'static str,
    ph: std::marker::PhantomData<M>,
}
type Model = Vec<(i64, u64)>;
fn pair(w: &W) -> (i64, u64) {
    (w.v, w.id)
}
fn same<M: SeqApi>(m: &M, mo: &Model, how: bool) -> Res {
    let mut got = vec![];
    m.visit(how, &mut |w| got.push(pair(w)));
    chkeq!(&got, mo, "values (value, id) by iteration");
    chkeq!(m.len(), mo.len(), "len");
    chkeq!(m.is_empty(), mo.is_empty(), "is_empty");
    Ok(())
}
fn probe<M: SeqApi>(m: &M, mo: &Model) -> Res {
    let n = mo.len();
    for i in 0..n.min(80) + 2 {
        chkeq!(m.get(i).map(pair), mo.get(i).cloned(), "get({})", i);
    }
    for j in 0..n.min(3) {
        chkeq!(pair(m.index(n - 1 - j)), mo[n - 1 - j], "[{}]", n - 1 - j);
    }
    Ok(())
}
impl<M: SeqApi> Seq<M> {
    fn step(&self, op: &Op, m: &mut M, mo: &mut Model, m2: &mut M, mo2: &mut Model) -> Res {
        let n = mo.len();
        let at = if n == 0 { 0 } else { (op.1 as u64 % n as u64) as usize };
        let w = |v: i64| W::new(v);
        match op.0 {
            INSERT => {
                let i = (op.1 as u64 % (n as u64 + 1)) as usize;
                let v = w(op.2);
                mo.insert(i, pair(&v));
                m.insert(i, v);
            }
            PUSHF => {
                let v = w(op.2);
                mo.insert(0, pair(&v));
                m.push_front(v);
            }
            PUSHB => {
                let v = w(op.2);
                mo.push(pair(&v));
                m.push_back(v);
            }
            REMOVE | POPF | POPB => {
                let i = match op.0 { REMOVE => at, POPF => 0, _ => n.wrapping_sub(1) };
                if n == 0 {
                    return Ok(());
                }
                let e = mo.remove(i);
                let g = match op.0 { REMOVE => m.remove(i), POPF => m.pop_front(), _ => m.pop_back() };
                chkeq!(pair(&g), e, "removed value (value, id)");
            }
            GET => {
                let i = (op.1 as u64 % (n as u64 + 3)) as usize;
                chkeq!(m.get(i).map(pair), mo.get(i).cloned(), "get({})", i);
            }
            FAR => {
                for i in &[usize::max_value(), usize::max_value() - 1, usize::max_value() / 2 + 1, n + 1000] {
                    chkeq!(m.get(*i).map(pair), None, "get({})", i);
                    chk!(m.get_mut(*i).is_none(), "get_mut({}) is Some", i);
                }
            }
            GETMUT => {
                let i = (op.1 as u64 % (n as u64 + 3)) as usize;
                let g = m.get_mut(i);
                chkeq!(g.as_ref().map(|w| pair(&**w)), mo.get(i).cloned(), "get_mut({})", i);
                if let Some(g) = g {
                    g.v = op.2;
                    mo[i].0 = op.2;
                }
            }
            INDEX => {
                if n > 0 {
                    chkeq!(pair(m.index(at)), mo[at], "[{}]", at);
                } else {
                    chk!(catch(|| { m.index(0); }).is_err(), "indexing an empty list does not panic");
                }
            }
            INDEXMUT => {
                if n > 0 {
                    let g = m.index_mut(at);
                    chkeq!(pair(g), mo[at], "[{}]", at);
                    g.v = op.2;
                    mo[at].0 = op.2;
                }
            }
            CLEAR => {
                m.clear();
                mo.clear();
            }
            ITERMUT => {
                let limit = if op.1 % 3 == 0 { at } else { n + 1 };
                let mut got = vec![];
                m.visit_mut(op.1 % 2 == 0, limit, &mut |w| {
                    got.push(pair(w));
                    w.v += op.2;
                });
                chkeq!(got, mo[..limit.min(n)].to_vec(), "iter_mut");
                for e in mo.iter_mut().take(limit) {
                    e.0 += op.2;
                }
            }
            INTO => {
                let limit = if op.1 % 3 != 0 { at } else { n + 1 };
                let old = std::mem::replace(m, M::new());
                let mut got = vec![];
                old.into(limit, &mut |w| got.push(pair(&w)));
                chkeq!(got, mo[..limit.min(n)].to_vec(), "into_iter");
                mo.clear();
            }
            SWAP => {
                std::mem::swap(m, m2);
                std::mem::swap(mo, mo2);
            }
            ADD => {
                let a = std::mem::replace(m, M::new());
                let b = std::mem::replace(m2, M::default_());
                *m = a.add(b);
                mo.append(mo2);
            }
            _ => {}
        }
        Ok(())
    }
}
impl<M: SeqApi> Target for Seq<M> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn exhaustive(&self) -> u64 {
        7 + 49 + 343 + 2401 + 16807
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        if idx % 2 == 0 && idx / 2 < self.exhaustive() {
            let mut n = idx / 2;
            let mut len = 1;
            while n >= 7u64.pow(len) {
                n -= 7u64.pow(len);
                len += 1;
            }
            return word(n, len as usize, 7)
                .iter()
                .enumerate()
                .map(|(i, l)| match l {
                    0 => Op(PUSHB, 0, i as i64),
                    1 => Op(PUSHF, 0, i as i64),
                    2 => Op(INSERT, 1, i as i64),
                    3 => Op(REMOVE, 1, 0),
                    4 => Op(POPF, 0, 0),
                    5 => Op(ADD, 0, 0),
                    _ => Op(SWAP, 0, 0),
                })
                .collect();
        }
        let n = match rng.below(8) { 0..=4 => 5 + rng.below(25), 5 | 6 => 20 + rng.below(60), _ => 60 + rng.below(200) };
        let grow = 1 + rng.below(4);
        let mut v = vec![];
        for i in 0..n {
            let a = rng.below(1 << 30) as i64;
            let k = match rng.below(24 + 4 * grow) {
                0..=3 => REMOVE,
                4 => POPF,
                5 => POPB,
                6 => GET,
                7 => GETMUT,
                8 => if rng.chance(1, 4) { CLEAR } else { GET },
                9 => ITERMUT,
                10 => if rng.chance(1, 3) { INTO } else { GET },
                11 => INDEX,
                12 => INDEXMUT,
                13 | 14 => SWAP,
                15 => ADD,
                16 => FAR,
                17 | 18 => PUSHF,
                19 | 20 => PUSHB,
                _ => INSERT,
            };
            v.push(Op(k, a, i as i64));
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        let mut m = M::new();
        let mut m2 = M::default_();
        let mut mo = vec![];
        let mut mo2 = vec![];
        for (i, op) in ops.iter().enumerate() {
            let at = format!("operation {} {}", i, self.show(op));
            self.step(op, &mut m, &mut mo, &mut m2, &mut mo2).map_err(|e| format!("{}: {}", at, e))?;
            track_bad().map_err(|e| format!("{}: {}", at, e))?;
            same(&m, &mo, i % 2 == 0).map_err(|e| format!("after {}: {}", at, e))?;
            probe(&m, &mo).map_err(|e| format!("after {}: {}", at, e))?;
            chkeq!(track_live(), mo.len() + mo2.len(), "after {}: live values", at);
        }
        same(&m2, &mo2, false)?;
        probe(&m2, &mo2)?;
        drop(m);
        drop(m2);
        track_bad()?;
        chkeq!(track_live(), 0, "values still live after drop");
        Ok(())
    }
    fn show(&self, op: &Op) -> String {
        format!("{}({}, {})", NAMES[op.0 as usize % 16], op.1, op.2)
    }
}

pub fn register(v: &mut Vec<Box<dyn Target>>) {
    v.push(Box::new(Seq::<ec::treap::TreapList<W>> { name: "treap-list", ph: std::marker::PhantomData }));
    v.push(Box::new(Seq::<ec::skiplist::SkipList<W>> { name: "skip-list", ph: std::marker::PhantomData }));
}
