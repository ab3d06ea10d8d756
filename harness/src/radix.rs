//! RadixMap and RadixSet against a BTreeMap of byte strings.
use crate::fw::*;
use crate::{chk, chkeq};
use extended_collections::radix::{RadixMap, RadixSet};
use std::collections::BTreeMap;

const BYTES: [u8; 5] = [0, 97, 98, 128, 255];
/// keys are numbered: the bijective base-5 numeral of n, over BYTES
fn key(mut n: i64) -> Vec<u8> {
    let mut v = vec![];
    while n > 0 {
        n -= 1;
        v.push(BYTES[(n % 5) as usize]);
        n /= 5;
    }
    v.reverse();
    v
}
type Model = BTreeMap<Vec<u8>, (i64, u64)>;

trait Api: Sized {
    const SET: bool;
    fn new(default: bool) -> Self;
    fn insert(&mut self, k: &[u8], w: W) -> Option<(Vec<u8>, Option<W>)>;
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, Option<W>)>;
    fn get(&self, k: &[u8]) -> Option<(i64, u64)>;
    fn get_mut(&mut self, k: &[u8]) -> Option<&mut W>;
    fn contains(&self, k: &[u8]) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn longest(&self, k: &[u8]) -> Vec<Vec<u8>>;
    fn min(&self) -> Option<Vec<u8>>;
    fn max(&self) -> Option<Vec<u8>>;
    fn index(&self, k: &[u8]) -> (i64, u64);
    fn index_mut(&mut self, k: &[u8]) -> &mut W;
    fn visit(&self, by_ref: bool, limit: usize, f: &mut dyn FnMut(Vec<u8>, Option<&W>));
    fn visit_mut(&mut self, by_ref: bool, limit: usize, f: &mut dyn FnMut(Vec<u8>, &mut W));
    fn into(self, limit: usize, f: &mut dyn FnMut(Vec<u8>, Option<W>));
}
impl Api for RadixMap<W> {
    const SET: bool = false;
    fn new(default: bool) -> Self {
        if default { Default::default() } else { RadixMap::new() }
    }
    fn insert(&mut self, k: &[u8], w: W) -> Option<(Vec<u8>, Option<W>)> {
        RadixMap::insert(self, k, w).map(|(k, v)| (k, Some(v)))
    }
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, Option<W>)> {
        RadixMap::remove(self, k).map(|(k, v)| (k, Some(v)))
    }
    fn get(&self, k: &[u8]) -> Option<(i64, u64)> {
        RadixMap::get(self, k).map(|w| (w.v, w.id))
    }
    fn get_mut(&mut self, k: &[u8]) -> Option<&mut W> {
        RadixMap::get_mut(self, k)
    }
    fn contains(&self, k: &[u8]) -> bool {
        self.contains_key(k)
    }
    fn len(&self) -> usize {
        RadixMap::len(self)
    }
    fn is_empty(&self) -> bool {
        RadixMap::is_empty(self)
    }
    fn clear(&mut self) {
        RadixMap::clear(self)
    }
    fn longest(&self, k: &[u8]) -> Vec<Vec<u8>> {
        self.get_longest_prefix(k)
    }
    fn min(&self) -> Option<Vec<u8>> {
        RadixMap::min(self)
    }
    fn max(&self) -> Option<Vec<u8>> {
        RadixMap::max(self)
    }
    fn index(&self, k: &[u8]) -> (i64, u64) {
        let w = &self[k];
        (w.v, w.id)
    }
    fn index_mut(&mut self, k: &[u8]) -> &mut W {
        &mut self[k]
    }
    fn visit(&self, by_ref: bool, limit: usize, f: &mut dyn FnMut(Vec<u8>, Option<&W>)) {
        let mut it = if by_ref { self.into_iter() } else { self.iter() };
        for _ in 0..limit {
            match it.next() {
                Some((k, v)) => f(k, Some(v)),
                None => {
                    if it.next().is_some() { panic!("iter yields after None") }
                    break;
                }
            }
        }
    }
    fn visit_mut(&mut self, by_ref: bool, limit: usize, f: &mut dyn FnMut(Vec<u8>, &mut W)) {
        let mut it = if by_ref { self.into_iter() } else { self.iter_mut() };
        for _ in 0..limit {
            match it.next() {
                Some((k, v)) => f(k, v),
                None => {
                    if it.next().is_some() { panic!("iter_mut yields after None") }
                    break;
                }
            }
        }
    }
    fn into(self, limit: usize, f: &mut dyn FnMut(Vec<u8>, Option<W>)) {
        let mut it = self.into_iter();
        for _ in 0..limit {
            match it.next() {
                Some((k, v)) => f(k, Some(v)),
                None => {
                    if it.next().is_some() { panic!("into_iter yields after None") }
                    break;
                }
            }
        }
    }
}
impl Api for RadixSet {
    const SET: bool = true;
    fn new(default: bool) -> Self {
        if default { Default::default() } else { RadixSet::new() }
    }
    fn insert(&mut self, k: &[u8], _: W) -> Option<(Vec<u8>, Option<W>)> {
        RadixSet::insert(self, k).map(|k| (k, None))
    }
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, Option<W>)> {
        RadixSet::remove(self, k).map(|k| (k, None))
    }
    fn get(&self, _: &[u8]) -> Option<(i64, u64)> {
        unreachable!()
    }
    fn get_mut(&mut self, _: &[u8]) -> Option<&mut W> {
        unreachable!()
    }
    fn contains(&self, k: &[u8]) -> bool {
        RadixSet::contains(self, k)
    }
    fn len(&self) -> usize {
        RadixSet::len(self)
    }
    fn is_empty(&self) -> bool {
        RadixSet::is_empty(self)
    }
    fn clear(&mut self) {
        RadixSet::clear(self)
    }
    fn longest(&self, k: &[u8]) -> Vec<Vec<u8>> {
        self.get_longest_prefix(k)
    }
    fn min(&self) -> Option<Vec<u8>> {
        RadixSet::min(self)
    }
    fn max(&self) -> Option<Vec<u8>> {
        RadixSet::max(self)
    }
    fn index(&self, _: &[u8]) -> (i64, u64) {
        unreachable!()
    }
    fn index_mut(&mut self, _: &[u8]) -> &mut W {
        unreachable!()
    }
    fn visit(&self, by_ref: bool, limit: usize, f: &mut dyn FnMut(Vec<u8>, Option<&W>)) {
        let mut it = if by_ref { self.into_iter() } else { self.iter() };
        for _ in 0..limit {
            match it.next() {
                Some(k) => f(k, None),
                None => {
                    if it.next().is_some() { panic!("iter yields after None") }
                    break;
                }
            }
        }
    }
    fn visit_mut(&mut self, _: bool, _: usize, _: &mut dyn FnMut(Vec<u8>, &mut W)) {}
    fn into(self, limit: usize, f: &mut dyn FnMut(Vec<u8>, Option<W>)) {
        let mut it = self.into_iter();
        for _ in 0..limit {
            match it.next() {
                Some(k) => f(k, None),
                None => {
                    if it.next().is_some() { panic!("into_iter yields after None") }
                    break;
                }
            }
        }
    }
}

const INSERT: u8 = 0;
const REMOVE: u8 = 1;
const GETMUT: u8 = 2;
const LONGEST: u8 = 3;
const CLEAR: u8 = 4;
const ITER: u8 = 5;
const ITERMUT: u8 = 6;
const INTO: u8 = 7;
const INDEX: u8 = 8;
const INDEXMUT: u8 = 9;
const NAMES: [&str; 10] = ["insert", "remove", "get_mut", "get_longest_prefix", "clear", "iter", "iter_mut", "into_iter", "index", "index_mut"];

fn lcp(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b.iter()).take_while(|p| p.0 == p.1).count()
}
fn longest(mo: &Model, q: &[u8]) -> Vec<Vec<u8>> {
    let m = mo.keys().map(|k| lcp(k, q)).max().unwrap_or(0);
    mo.keys().filter(|k| lcp(k, q) == m && (m > 0 || q.is_empty() || k.is_empty())).cloned().collect()
}
fn all<M: Api>(m: &M, mo: &Model, by_ref: bool) -> Res {
    let mut got = vec![];
    m.visit(by_ref, usize::max_value(), &mut |k, v| got.push((k, v.map(|w| (w.v, w.id)))));
    let want: Vec<_> = mo.iter().map(|(k, v)| (k.clone(), if M::SET { None } else { Some(*v) })).collect();
    chkeq!(got, want, "entries by iteration");
    chkeq!(m.len(), mo.len(), "len");
    chkeq!(m.is_empty(), mo.is_empty(), "is_empty");
    chkeq!(m.min(), mo.keys().next().cloned(), "min");
    chkeq!(m.max(), mo.keys().last().cloned(), "max");
    let mut probes: Vec<Vec<u8>> = (0..=30).map(key).collect();
    for k in mo.keys().take(30) {
        probes.push(k.clone());
        for b in &[0u8, 97, 200] {
            let mut l = k.clone();
            l.push(*b);
            probes.push(l);
        }
        if let Some((_, s)) = k.split_last() {
            probes.push(s.to_vec());
        }
    }
    for k in &probes {
        chkeq!(m.contains(k), mo.contains_key(k), "contains({:?})", k);
        if !M::SET {
            chkeq!(m.get(k), mo.get(k).cloned(), "get({:?})", k);
        }
        chkeq!(m.longest(k), longest(mo, k), "get_longest_prefix({:?})", k);
    }
    Ok(())
}
struct Radix<M> {
    name: &'static str,
    ph: std::marker::PhantomData<M>,
}
impl<M: Api> Target for Radix<M> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn exhaustive(&self) -> u64 {
        // words of up to 5 insertions/removals over the 7 keys "", 0, a, and two-byte strings of those
        14 + 196 + 2744 + 38416
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        const KS: [i64; 7] = [0, 1, 2, 6, 7, 11, 12];
        if idx % 2 == 0 && idx / 2 < self.exhaustive() {
            let mut n = idx / 2;
            let mut len = 1;
            while n >= 14u64.pow(len) {
                n -= 14u64.pow(len);
                len += 1;
            }
            return word(n, len as usize, 14).iter().enumerate().map(|(i, l)| Op(if *l < 7 { INSERT } else { REMOVE }, KS[(*l % 7) as usize], i as i64)).collect();
        }
        let n = 3 + rng.below(60);
        let deep = *rng.pick(&[6i64, 31, 156, 781, 19531, 2_441_406]);
        let stem = rng.below(3000) as i64;
        let mut v = vec![];
        let mut used: Vec<i64> = vec![];
        for i in 0..n {
            let fresh = rng.chance(1, 2) || used.is_empty();
            let k = if fresh {
                // a random key, or one that extends a common stem
                if rng.chance(1, 2) { rng.below(deep as u64) as i64 } else { stem * 25 + rng.below(60) as i64 }
            } else {
                let u = *rng.pick(&used);
                match rng.below(6) { 0 => u / 5, 1 => u * 5 + 1 + rng.below(5) as i64, _ => u }
            };
            let o = match rng.below(24) { 0..=8 => INSERT, 9..=15 => REMOVE, 16 => GETMUT, 17 => LONGEST, 18 => if rng.chance(1, 6) { CLEAR } else { INSERT }, 19 => ITER, 20 => ITERMUT, 21 => INTO, 22 => INDEX, _ => INDEXMUT };
            if o == INSERT {
                used.push(k);
            }
            v.push(Op(o, k, i as i64));
            if o == INTO {
                break;
            }
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        let mut m = M::new(ops.len() % 2 == 0);
        let mut mo = Model::new();
        for (i, op) in ops.iter().enumerate() {
            let at = format!("operation {} {}", i, self.show(op));
            let k = key(op.1);
            match op.0 {
                INSERT => {
                    let w = W::new(op.2);
                    let p = (w.v, w.id);
                    let r = m.insert(&k, w).map(|(k, w)| (k, w.map(|w| (w.v, w.id))));
                    let e = mo.insert(k.clone(), p).map(|v| (k, if M::SET { None } else { Some(v) }));
                    chkeq!(r, e, "{}", at);
                }
                REMOVE => {
                    let r = m.remove(&k).map(|(k, w)| (k, w.map(|w| (w.v, w.id))));
                    let e = mo.remove(&k).map(|v| (k, if M::SET { None } else { Some(v) }));
                    chkeq!(r, e, "{}", at);
                }
                GETMUT | INDEXMUT if !M::SET => {
                    let e = mo.get_mut(&k);
                    if op.0 == INDEXMUT && e.is_none() {
                        chk!(catch(|| { let _ = m.index_mut(&k); }).is_err(), "{}: does not panic", at);
                        continue;
                    }
                    let r = if op.0 == GETMUT { m.get_mut(&k) } else { Some(m.index_mut(&k)) };
                    match (r, e) {
                        (None, None) => {}
                        (Some(r), Some(e)) => {
                            chkeq!((r.v, r.id), *e, "{}", at);
                            r.v += 1000;
                            e.0 += 1000;
                        }
                        (r, _) => return Err(format!("{}: {}", at, if r.is_some() { "Some for a missing key" } else { "None for a present key" })),
                    }
                }
                INDEX if !M::SET => match mo.get(&k) {
                    Some(e) => chkeq!(m.index(&k), *e, "{}", at),
                    None => chk!(catch(|| { m.index(&k); }).is_err(), "{}: does not panic", at),
                },
                LONGEST => chkeq!(m.longest(&k), longest(&mo, &k), "{}", at),
                CLEAR => {
                    m.clear();
                    mo.clear();
                }
                ITER => {
                    let mut got = vec![];
                    m.visit(op.1 % 2 == 0, op.2 as usize % 7, &mut |k, _| got.push(k));
                    let want: Vec<_> = mo.keys().take(op.2 as usize % 7).cloned().collect();
                    chkeq!(got, want, "{}", at);
                }
                ITERMUT if !M::SET => {
                    let lim = if op.1 % 3 == 0 { usize::max_value() } else { (op.1 % 9) as usize };
                    let mut got = vec![];
                    m.visit_mut(op.2 % 2 == 0, lim, &mut |k, w| {
                        got.push((k, (w.v, w.id)));
                        w.v += 7;
                    });
                    let want: Vec<_> = mo.iter().take(lim).map(|(k, v)| (k.clone(), *v)).collect();
                    chkeq!(got, want, "{}", at);
                    for (_, v) in mo.iter_mut().take(lim) {
                        v.0 += 7;
                    }
                }
                INTO => {
                    let old = std::mem::replace(&mut m, M::new(false));
                    let lim = if op.1 % 2 == 0 { usize::max_value() } else { op.2 as usize % 7 };
                    let mut got = vec![];
                    old.into(lim, &mut |k, w| got.push((k, w.map(|w| (w.v, w.id)))));
                    let want: Vec<_> = mo.iter().take(lim).map(|(k, v)| (k.clone(), if M::SET { None } else { Some(*v) })).collect();
                    chkeq!(got, want, "{}", at);
                    mo.clear();
                }
                _ => {}
            }
            track_bad().map_err(|e| format!("{}: {}", at, e))?;
            if !M::SET {
                chkeq!(track_live(), mo.len(), "after {}: live values", at);
            }
            if i + 1 == ops.len() || i % 4 == 0 {
                all(&m, &mo, i % 8 == 0).map_err(|e| format!("after {}: {}", at, e))?;
            }
        }
        drop(m);
        track_bad()?;
        chkeq!(track_live(), 0, "values still live after drop");
        Ok(())
    }
    fn show(&self, op: &Op) -> String {
        format!("{}({:?}, {})", NAMES[op.0 as usize % 10], key(op.1), op.2)
    }
}
pub fn register(v: &mut Vec<Box<dyn Target>>) {
    v.push(Box::new(Radix::<RadixMap<W>> { name: "radix-map", ph: std::marker::PhantomData }));
    v.push(Box::new(Radix::<RadixSet> { name: "radix-set", ph: std::marker::PhantomData }));
}
