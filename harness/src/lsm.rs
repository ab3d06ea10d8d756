//! LsmMap with both compaction strategies against a BTreeMap, in a scratch directory that is
//! removed afterwards. The crate prints to standard output while it compacts: standard output
//! is turned off while a case runs.
use crate::bp::Scratch;
use crate::fw::*;
use crate::{chk, chkeq};
use extended_collections::lsm_tree::compaction::{CompactionStrategy, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::{LsmMap, Result as LResult};
use std::collections::BTreeMap;
use std::path::Path;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
struct Quiet(i32);
impl Quiet {
    fn new() -> Quiet {
        use std::io::Write;
        use std::os::unix::io::AsRawFd;
        let _ = std::io::stdout().flush();
        let f = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe {
            let old = dup(1);
            dup2(f.as_raw_fd(), 1);
            Quiet(old)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
            close(self.0);
        }
    }
}

fn ok<X>(r: LResult<X>, what: &str) -> Result<X, String> {
    r.map_err(|e| format!("{}: {:?}", what, e))
}

#[derive(Clone, Copy)]
struct Cfg {
    /// 1: the map is flushed after every operation that changes it
    flush: bool,
    mem: u64,
    count: usize,
    size: u64,
    initial: usize,
    growth: u64,
    buckets: (f64, f64),
}
fn cfg(op: &Op) -> Cfg {
    let (a, b) = (op.1 as u64, op.2 as u64);
    Cfg {
        flush: a / 10 % 10 == 1,
        mem: [1, 60, 200, 1000][(a / 100 % 4) as usize],
        count: 1 + (a / 1000 % 4) as usize,
        size: [1, 150, 400, 2000][(b % 4) as usize],
        initial: 1 + (b / 10 % 3) as usize,
        growth: 1 + b / 100 % 3,
        buckets: [(0.5, 1.5), (0.9, 1.1), (0.1, 4.0)][(b / 1000 % 3) as usize],
    }
}

trait Make: CompactionStrategy<String, Vec<u8>> + Sized {
    fn create(p: &Path, c: &Cfg) -> LResult<Self>;
    fn reopen(p: &Path) -> LResult<Self>;
}
impl Make for SizeTieredStrategy<String, Vec<u8>> {
    fn create(p: &Path, c: &Cfg) -> LResult<Self> {
        SizeTieredStrategy::new(p, c.mem, c.count, c.size, c.buckets.0, c.buckets.1)
    }
    fn reopen(p: &Path) -> LResult<Self> {
        SizeTieredStrategy::open(p)
    }
}
impl Make for LeveledStrategy<String, Vec<u8>> {
    fn create(p: &Path, c: &Cfg) -> LResult<Self> {
        LeveledStrategy::new(p, c.mem, c.count, c.size, c.initial, c.growth)
    }
    fn reopen(p: &Path) -> LResult<Self> {
        LeveledStrategy::open(p)
    }
}

fn key(k: i64) -> String {
    format!("{:03}", k)
}
fn val(v: i64) -> Vec<u8> {
    vec![v as u8; [0, 1, 2, 30, 33, 60, 100][(v % 7) as usize]]
}

fn run<C: Make>(ops: &[Op], c: &Cfg) -> Res {
    let dir = Scratch::new();
    let path = dir.0.join("db");
    let mut m = LsmMap::new(ok(C::create(&path, c), "create")?);
    let mut mo: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for op in ops.iter() {
        let k = key(op.1);
        match op.0 {
            1 => {
                ok(m.insert(k.clone(), val(op.2)), "insert")?;
                mo.insert(k, val(op.2));
            }
            2 => {
                ok(m.remove(k.clone()), "remove")?;
                mo.remove(&k);
            }
            3 => {
                chkeq!(ok(m.get::<str>(&k), "get")?, mo.get(&k).cloned(), "get({:?})", k);
                chkeq!(ok(m.contains_key::<str>(&k), "contains_key")?, mo.contains_key(&k), "contains_key({:?})", k);
            }
            4 => {
                ok(m.flush(), "flush")?;
                drop(m);
                m = LsmMap::new(ok(C::reopen(&path), "open")?);
            }
            5 => {
                ok(m.clear(), "clear")?;
                mo.clear();
            }
            6 => {
                let lim = if op.2 == 0 { usize::max_value() } else { op.1 as usize };
                let mut got = vec![];
                let it = ok(m.iter(), "iter")?;
                for e in it.take(lim) {
                    got.push(ok(e, "next")?);
                }
                let want: Vec<_> = mo.iter().take(lim).map(|e| (e.0.clone(), e.1.clone())).collect();
                chkeq!(got, want, "iter");
            }
            7 => {
                chkeq!(ok(m.min(), "min")?, mo.keys().next().cloned(), "min");
            }
            8 => {
                chkeq!(ok(m.max(), "max")?, mo.keys().next_back().cloned(), "max");
            }
            9 => {
                chkeq!(ok(m.len(), "len")?, mo.len(), "len");
                chkeq!(ok(m.is_empty(), "is_empty")?, mo.is_empty(), "is_empty");
            }
            10 => {
                // an iterator sees the map as it was when it was made, whatever is done to it later
                let want: Vec<_> = mo.iter().map(|e| (e.0.clone(), e.1.clone())).collect();
                let mut it = ok(m.iter(), "iter")?;
                let mut got = vec![];
                for _ in 0..2 {
                    if let Some(e) = it.next() {
                        got.push(ok(e, "next")?);
                    }
                }
                for j in 0..op.2 {
                    let k = key((op.1 + j) % 12);
                    if j % 3 == 2 {
                        ok(m.remove(k.clone()), "remove")?;
                        mo.remove(&k);
                    } else {
                        ok(m.insert(k.clone(), val(j)), "insert")?;
                        mo.insert(k.clone(), val(j));
                    }
                    chkeq!(ok(m.get::<str>(&k), "get")?, mo.get(&k).cloned(), "get({:?}) during iteration", k);
                }
                for e in it {
                    got.push(ok(e, "next")?);
                }
                chkeq!(got, want, "iter with operations in between");
            }
            _ => {
                ok(m.flush(), "flush")?;
            }
        }
        if c.flush {
            ok(m.flush(), "flush")?;
        }
    }
    let check = |m: &mut LsmMap<String, Vec<u8>, C>, when: &str| -> Res {
        for k in (0..40).map(key).chain(mo.keys().cloned()) {
            chkeq!(ok(m.get::<str>(&k), "get")?, mo.get(&k).cloned(), "get({:?}) {}", k, when);
        }
        let mut got = vec![];
        for e in ok(m.iter(), "iter")? {
            got.push(ok(e, "next")?);
        }
        let want: Vec<_> = mo.iter().map(|e| (e.0.clone(), e.1.clone())).collect();
        chkeq!(got, want, "iter {}", when);
        chkeq!(ok(m.min(), "min")?, mo.keys().next().cloned(), "min {}", when);
        chkeq!(ok(m.max(), "max")?, mo.keys().next_back().cloned(), "max {}", when);
        chk!(ok(m.len_hint(), "len_hint")? < usize::max_value() / 2, "len_hint");
        Ok(())
    };
    check(&mut m, "at the end")?;
    ok(m.flush(), "flush")?;
    drop(m);
    let mut m = LsmMap::new(ok(C::reopen(&path), "open")?);
    check(&mut m, "after flushing and reopening")
}

struct Lsm(bool);
impl Target for Lsm {
    fn name(&self) -> &'static str {
        if self.0 {
            "lsm-leveled"
        } else {
            "lsm-size-tiered"
        }
    }
    fn exhaustive(&self) -> u64 {
        0
    }
    fn gen(&self, rng: &mut Rng, _: u64) -> Vec<Op> {
        let flush = rng.chance(1, 3) as i64;
        let a = flush * 10 + rng.below(4) as i64 * 100 + rng.below(4) as i64 * 1000;
        let b = rng.below(4) as i64 + rng.below(3) as i64 * 10 + rng.below(3) as i64 * 100 + rng.below(3) as i64 * 1000;
        let mut v = vec![Op(0, a, b)];
        if rng.chance(2, 3) {
            // tables of chosen contents: batches with an explicit flush after each
            v[0].1 = 300 + rng.below(4) as i64 * 1000;
            let span = *rng.pick(&[3, 5, 8, 12]);
            for _ in 0..*rng.pick(&[8, 15, 30]) {
                let ins = rng.below(11);
                for _ in 0..*rng.pick(&[1, 1, 2, 3, 6]) {
                    let k = rng.below(span) as i64;
                    v.push(if rng.chance(ins, 10) { Op(1, k, rng.below(100) as i64) } else { Op(2, k, 0) });
                }
                v.push(Op(11, 0, 0));
                if rng.chance(1, 3) {
                    v.push(if rng.chance(1, 4) { Op(4, 0, 0) } else { Op(6, 0, 0) });
                }
            }
            return v;
        }
        let n = *rng.pick(&[5, 15, 40, 80]);
        let span = *rng.pick(&[3, 8, 30]);
        let often = rng.chance(1, 2);
        for _ in 0..n {
            let k = rng.below(span) as i64;
            if often && rng.chance(1, 3) {
                v.push(Op(11, 0, 0));
            }
            v.push(match rng.below(40) {
                0..=17 => Op(1, k, rng.below(100) as i64),
                18..=29 => Op(2, k, 0),
                30..=32 => Op(3, k, 0),
                33 => Op(4, 0, 0),
                34 => if rng.chance(1, 4) { Op(5, 0, 0) } else { Op(11, 0, 0) },
                35 => Op(6, rng.below(5) as i64, rng.below(2) as i64),
                36 => Op(7, 0, 0),
                37 => Op(8, 0, 0),
                38 => Op(9, 0, 0),
                _ => if rng.chance(1, 2) { Op(10, k, rng.below(6) as i64) } else { Op(11, 0, 0) },
            });
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        let d = Op(0, 10, 0);
        let (c, rest) = match ops.first() {
            Some(o) if o.0 == 0 => (o, &ops[1..]),
            _ => (&d, ops),
        };
        let rest: Vec<Op> = rest.iter().filter(|o| o.0 != 0).cloned().collect();
        let c = cfg(c);
        let _quiet = Quiet::new();
        if self.0 {
            run::<LeveledStrategy<String, Vec<u8>>>(&rest, &c)
        } else {
            run::<SizeTieredStrategy<String, Vec<u8>>>(&rest, &c)
        }
    }
    fn show(&self, op: &Op) -> String {
        let k = key(op.1);
        match op.0 {
            0 => {
                let c = cfg(op);
                if self.0 {
                    format!("LeveledStrategy::new(.., {}, {}, {}, {}, {}), {}", c.mem, c.count, c.size, c.initial, c.growth, if c.flush { "flush() after every operation" } else { "no extra flush()" })
                } else {
                    format!("SizeTieredStrategy::new(.., {}, {}, {}, {}, {}), {}", c.mem, c.count, c.size, c.buckets.0, c.buckets.1, if c.flush { "flush() after every operation" } else { "no extra flush()" })
                }
            }
            1 => format!("insert({:?}, {} bytes {})", k, val(op.2).len(), op.2 as u8),
            2 => format!("remove({:?})", k),
            3 => format!("get({:?}), contains_key({:?})", k, k),
            4 => "flush(), drop and open".to_string(),
            5 => "clear()".to_string(),
            6 => format!("iter(){}", if op.2 == 0 { "".to_string() } else { format!(" for {} entries", op.1) }),
            7 => "min()".to_string(),
            8 => "max()".to_string(),
            9 => "len(), is_empty()".to_string(),
            10 => format!("iter(), {} operations from key {:?}, rest of the iterator", op.2, k),
            _ => "flush()".to_string(),
        }
    }
}
pub fn register(v: &mut Vec<Box<dyn Target>>) {
    v.push(Box::new(Lsm(false)));
    v.push(Box::new(Lsm(true)));
}
