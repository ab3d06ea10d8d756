//! BpMap against a BTreeMap, on a file in a scratch directory that is removed afterwards.
use crate::fw::*;
use crate::{chk, chkeq};
use extended_collections::bp_tree::BpMap;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_derive::{Deserialize, Serialize};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::{Path, PathBuf};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let n = N.fetch_add(1, Ordering::SeqCst);
        // in memory where that is possible: the cases make many small files
        let shm = PathBuf::from("/dev/shm");
        let base = if std::fs::metadata(&shm).map(|m| m.is_dir()).unwrap_or(false) { shm } else { std::env::temp_dir() };
        let name = format!("vharness-{}-{}", std::process::id(), n);
        let mut d = base.join(&name);
        if std::fs::create_dir_all(&d).is_err() {
            d = std::env::temp_dir().join(&name);
        }
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// a key ordered by q only; id tells apart equal keys
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BK {
    q: i16,
    id: u32,
}
impl PartialEq for BK {
    fn eq(&self, o: &BK) -> bool {
        self.q == o.q
    }
}
impl Eq for BK {}
impl PartialOrd for BK {
    fn partial_cmp(&self, o: &BK) -> Option<Ordering> {
        Some(self.q.cmp(&o.q))
    }
}
impl Ord for BK {
    fn cmp(&self, o: &BK) -> Ordering {
        self.q.cmp(&o.q)
    }
}
impl Borrow<i16> for BK {
    fn borrow(&self) -> &i16 {
        &self.q
    }
}

trait Conf {
    type T: Clone + Ord + Serialize + DeserializeOwned + Borrow<Self::V> + Debug;
    type U: Clone + Serialize + DeserializeOwned + PartialEq + Debug;
    type V: Ord + ?Sized;
    const KS: u64;
    const VS: u64;
    fn key(k: i64, id: u32) -> Self::T;
    fn val(v: i64) -> Self::U;
    fn id(t: &Self::T) -> u32;
}
struct Ids;
impl Conf for Ids {
    type T = BK;
    type U = u64;
    type V = i16;
    const KS: u64 = 6;
    const VS: u64 = 8;
    fn key(k: i64, id: u32) -> BK {
        BK { q: k as i16, id }
    }
    fn val(v: i64) -> u64 {
        v as u64
    }
    fn id(t: &BK) -> u32 {
        t.id
    }
}
/// types whose options need no extra byte in memory
struct Strs;
impl Conf for Strs {
    type T = String;
    type U = Vec<u8>;
    type V = str;
    const KS: u64 = 16;
    const VS: u64 = 16;
    fn key(k: i64, _: u32) -> String {
        format!("{:08}", k + 1000)
    }
    fn val(v: i64) -> Vec<u8> {
        vec![v as u8; 8 - (v as usize % 3) * 4]
    }
    fn id(_: &String) -> u32 {
        0
    }
}
struct Bytes;
impl Conf for Bytes {
    type T = u8;
    type U = bool;
    type V = u8;
    const KS: u64 = 1;
    const VS: u64 = 1;
    fn key(k: i64, _: u32) -> u8 {
        (k + 100) as u8
    }
    fn val(v: i64) -> bool {
        v % 2 == 0
    }
    fn id(_: &u8) -> u32 {
        0
    }
}

fn ok<X>(r: extended_collections::bp_tree::Result<X>, what: &str) -> Result<X, String> {
    r.map_err(|e| format!("{}: {}", what, e))
}

/// pages of a tree of n entries, at most: every page but the root is half full
fn most_pages(n: usize, cfg: &Op) -> u64 {
    let (leaf, int) = if cfg.1 / 10 % 100 == 0 { (1, 2) } else { ((cfg.1 / 10 % 10) as usize, (cfg.1 / 100) as usize) };
    let mut level = std::cmp::max(1, n / ((leaf + 1) / 2));
    let mut all = level;
    while level > 1 {
        level = std::cmp::max(1, level / std::cmp::max(2, (int + 1) / 2));
        all += level;
    }
    all as u64
}

fn run<C: Conf>(ops: &[Op], cfg: &Op, pages: bool) -> Res {
    let dir = Scratch::new();
    let path = dir.0.join("db");
    let make = |path: &Path| -> extended_collections::bp_tree::Result<BpMap<C::T, C::U>> {
        if cfg.1 / 10 % 100 == 0 {
            BpMap::new(path, C::KS, C::VS)
        } else {
            BpMap::with_degrees(path, C::KS, C::VS, (cfg.1 / 10 % 10) as usize, (cfg.1 / 100) as usize)
        }
    };
    let mut m = ok(make(&path), "create")?;
    let mut mo: BTreeMap<C::T, C::U> = BTreeMap::new();
    let size = |p: &Path| std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
    let one = size(&path);
    let mut most = 1;
    for (n, op) in ops.iter().enumerate() {
        let id = n as u32;
        match op.0 {
            1 => {
                let (k, v) = (C::key(op.1, id), C::val(op.2));
                let want = mo.remove_entry::<C::V>(k.borrow());
                let got = ok(m.insert(k.clone(), v.clone()), "insert")?;
                chkeq!(got.as_ref().map(|e| (C::id(&e.0), &e.0, &e.1)), want.as_ref().map(|e| (C::id(&e.0), &e.0, &e.1)), "insert({:?})", k);
                mo.insert(k, v);
            }
            2 => {
                let k = C::key(op.1, id);
                let want = mo.remove_entry::<C::V>(k.borrow());
                let got = ok(m.remove::<C::V>(k.borrow()), "remove")?;
                chkeq!(got.as_ref().map(|e| (C::id(&e.0), &e.0, &e.1)), want.as_ref().map(|e| (C::id(&e.0), &e.0, &e.1)), "remove({:?})", k);
            }
            3 => {
                let k = C::key(op.1, id);
                chkeq!(ok(m.get::<C::V>(k.borrow()), "get")?, mo.get::<C::V>(k.borrow()).cloned(), "get({:?})", k);
                chkeq!(ok(m.contains_key::<C::V>(k.borrow()), "contains_key")?, mo.contains_key::<C::V>(k.borrow()), "contains_key({:?})", k);
            }
            4 => {
                drop(m);
                m = ok(BpMap::open(&path), "open")?;
            }
            5 => {
                ok(m.clear(), "clear")?;
                mo.clear();
            }
            _ => {
                let lim = if op.0 == 6 { usize::max_value() } else { op.1 as usize };
                let mut got = vec![];
                if op.2 % 2 == 0 {
                    for e in ok(m.iter_mut(), "iter_mut")?.take(lim) {
                        got.push(ok(e, "next")?);
                    }
                } else {
                    for e in (&mut m).into_iter().take(lim) {
                        got.push(ok(e, "next")?);
                    }
                }
                let a: Vec<_> = got.iter().map(|e| (C::id(&e.0), &e.0, &e.1)).collect();
                let b: Vec<_> = mo.iter().take(lim).map(|e| (C::id(e.0), e.0, e.1)).collect();
                chkeq!(a, b, "iter_mut");
                let mut it = ok(m.iter_mut(), "iter_mut")?;
                let mut k = 0;
                while let Some(_) = it.next() {
                    k += 1;
                }
                chkeq!(k, mo.len(), "entries of iter_mut");
                chk!(it.next().is_none(), "iter_mut goes on after its end");
            }
        }
        most = if op.0 == 5 { 1 } else { std::cmp::max(most, most_pages(mo.len(), cfg)) };
        if pages {
            // no page is larger than the whole file was with one
            chk!(size(&path) <= one * most, "the file has {} bytes, though {} pages ({} each at most) are enough", size(&path), most, one);
            if op.0 == 1 || op.0 == 2 {
                let mut k = 0;
                for (e, w) in ok(m.iter_mut(), "iter_mut")?.zip(mo.iter()) {
                    let e = ok(e, "next")?;
                    chkeq!((C::id(&e.0), &e.0, &e.1), (C::id(w.0), w.0, w.1), "entry {} after the change", k);
                    k += 1;
                }
                chkeq!(k, mo.len(), "entries after the change");
            }
        }
        chkeq!(m.len(), mo.len(), "len");
        chkeq!(m.is_empty(), mo.is_empty(), "is_empty");
        chkeq!(ok(m.min(), "min")?.map(|k| (C::id(&k), k)), mo.keys().next().map(|k| (C::id(k), k.clone())), "min");
        chkeq!(ok(m.max(), "max")?.map(|k| (C::id(&k), k)), mo.keys().next_back().map(|k| (C::id(k), k.clone())), "max");
    }
    // what is on disk is what was in memory
    drop(m);
    let mut m: BpMap<C::T, C::U> = ok(BpMap::open(&path), "open")?;
    chkeq!(m.len(), mo.len(), "len after reopening");
    for k in mo.keys() {
        chkeq!(ok(m.get::<C::V>(k.borrow()), "get")?, mo.get::<C::V>(k.borrow()).cloned(), "get({:?}) after reopening", k);
    }
    let mut got = vec![];
    for e in ok(m.iter_mut(), "iter_mut")? {
        got.push(ok(e, "next")?);
    }
    let a: Vec<_> = got.iter().map(|e| (C::id(&e.0), &e.0, &e.1)).collect();
    let b: Vec<_> = mo.iter().map(|e| (C::id(e.0), e.0, e.1)).collect();
    chkeq!(a, b, "iter_mut after reopening");
    Ok(())
}

struct Bp {
    pages: bool,
}
impl Target for Bp {
    fn name(&self) -> &'static str {
        if self.pages {
            "bp-pages"
        } else {
            "bp-map"
        }
    }
    fn exhaustive(&self) -> u64 {
        0
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        let kind = [0, 0, 1, 2][(idx % 4) as usize];
        let page = idx % 16 == 9;
        let (leaf, int) = (1 + rng.below(6) as i64, 2 + rng.below(6) as i64);
        let cfg = if page { 0 } else { int * 100 + leaf * 10 } + kind;
        let mut v = vec![Op(0, cfg, 0)];
        let n = if page { 300 + rng.below(700) } else { *rng.pick(&[10, 30, 60, 200]) };
        let span = if page { 800 } else { *rng.pick(&[4, 10, 40, 100]) };
        let mut phase = 0;
        let mut next = 0i64;
        for i in 0..n {
            if i % (n / 3 + 1) == 0 {
                phase = rng.below(4);
            }
            let k = match phase {
                0 => {
                    next += 1;
                    next % span as i64
                }
                _ => rng.below(span) as i64,
            };
            let k = if kind == 2 { k % 120 } else { k };
            let ins = if phase == 1 { 2 } else { 7 };
            let r = rng.below(20);
            v.push(if r < ins * 2 {
                Op(1, k, rng.below(100) as i64)
            } else if r < 16 {
                Op(2, k, 0)
            } else if r < 17 {
                Op(3, k, 0)
            } else if r < 18 {
                if rng.chance(1, 8) { Op(5, 0, 0) } else { Op(3, k, 0) }
            } else if r < 19 {
                if rng.chance(1, 3) { Op(4, 0, 0) } else { Op(7, rng.below(8) as i64, rng.below(2) as i64) }
            } else {
                if page && rng.chance(9, 10) { Op(3, k, 0) } else { Op(6, 0, rng.below(2) as i64) }
            });
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        let d = Op(0, 330, 0);
        let (cfg, rest) = match ops.first() {
            Some(o) if o.0 == 0 => (o, &ops[1..]),
            _ => (&d, ops),
        };
        let rest: Vec<Op> = rest.iter().filter(|o| o.0 != 0).cloned().collect();
        match cfg.1 % 10 {
            1 => run::<Strs>(&rest, cfg, self.pages),
            2 => run::<Bytes>(&rest, cfg, self.pages),
            _ => run::<Ids>(&rest, cfg, self.pages),
        }
    }
    fn show(&self, op: &Op) -> String {
        match op.0 {
            0 => format!(
                "{} with {}",
                ["keys ordered by one field", "String keys, Vec<u8> values", "u8 keys, bool values"][(op.1 % 10) as usize % 3],
                if op.1 / 10 % 100 == 0 { "new()".to_string() } else { format!("with_degrees(leaf {}, internal {})", op.1 / 10 % 10, op.1 / 100) }
            ),
            1 => format!("insert({}, {})", op.1, op.2),
            2 => format!("remove({})", op.1),
            3 => format!("get({}), contains_key({})", op.1, op.1),
            4 => "drop and open".to_string(),
            5 => "clear()".to_string(),
            6 => "iter_mut()".to_string(),
            _ => format!("iter_mut() for {} entries", op.1),
        }
    }
}
pub fn register(v: &mut Vec<Box<dyn Target>>) {
    v.push(Box::new(Bp { pages: false }));
    v.push(Box::new(Bp { pages: true }));
}
