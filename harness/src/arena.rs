//! TypedArena against a table of live entries.
use crate::fw::*;
use crate::{chk, chkeq};
use extended_collections::arena::{Entry, TypedArena};

const ALLOC: u8 = 0;
const FREE: u8 = 1;
const SET: u8 = 2;
const GET: u8 = 3;
const STALE: u8 = 4;
const PANIC: u8 = 5;
const SETIX: u8 = 6;
const NAMES: [&str; 7] = [
    "allocate", "free", "write through get_mut", "get", "get/get_mut of a freed entry", "free/index of a freed entry (must panic)", "write through index_mut",
];
struct Arena;
impl Target for Arena {
    fn name(&self) -> &'static str {
        "arena"
    }
    fn exhaustive(&self) -> u64 {
        // chunk sizes 1..4, words over {allocate, free 0, free 1, free 2}
        4 * (4 + 16 + 64 + 256 + 1024 + 4096 + 16384)
    }
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op> {
        if idx % 2 == 0 && idx / 2 < self.exhaustive() {
            let mut n = idx / 2;
            let cs = n % 4 + 1;
            n /= 4;
            let mut len = 1;
            while n >= 4u64.pow(len) {
                n -= 4u64.pow(len);
                len += 1;
            }
            let mut v = vec![Op(99, cs as i64, 0)];
            for (i, l) in word(n, len as usize, 4).iter().enumerate() {
                v.push(match l { 0 => Op(ALLOC, 0, i as i64), k => Op(FREE, *k as i64 - 1, 0) });
            }
            return v;
        }
        let mut v = vec![Op(99, 1 + rng.below(9) as i64, 0)];
        let n = 5 + rng.below(150);
        let mut grow = 5;
        for i in 0..n {
            if i % 20 == 0 {
                grow = 1 + rng.below(10);
            }
            let a = rng.below(1 << 30) as i64;
            let k = match rng.below(10 + grow) { 0..=4 => FREE, 5 => SET, 6 => GET, 7 => STALE, 8 => if rng.chance(1, 6) { PANIC } else { GET }, 9 => SETIX, _ => ALLOC };
            v.push(Op(k, a, i as i64));
        }
        v
    }
    fn run(&self, ops: &[Op]) -> Res {
        let cs = ops.iter().find(|o| o.0 == 99).map_or(3, |o| o.1.max(1) as usize);
        let mut m: TypedArena<W> = TypedArena::new(cs);
        let mut live: Vec<(Entry, (i64, u64))> = vec![];
        let mut dead: Vec<Entry> = vec![];
        let mut addr: Vec<(Entry, usize)> = vec![];
        for (i, op) in ops.iter().enumerate() {
            let at = format!("operation {} {}", i, self.show(op));
            let n = live.len();
            let x = if n == 0 { 0 } else { (op.1 as u64 % n as u64) as usize };
            match op.0 {
                ALLOC => {
                    let w = W::new(op.2);
                    let p = (w.v, w.id);
                    let e = m.allocate(w);
                    chk!(live.iter().all(|l| l.0 != e), "{}: returns a live entry {:?}", at, e);
                    dead.retain(|d| *d != e);
                    live.push((e, p));
                    let now = m.get(&e).map_or(0, |r| r as *const W as usize);
                    if !addr.iter().any(|a| a.0 == e) {
                        addr.push((e, now));
                    }
                }
                FREE if n > 0 => {
                    let (e, p) = live.remove(x);
                    let w = m.free(&e);
                    chkeq!((w.v, w.id), p, "{}: value", at);
                    dead.push(e);
                }
                SET | SETIX if n > 0 => {
                    let e = live[x].0;
                    let r = if op.0 == SET { m.get_mut(&e) } else { Some(&mut m[e]) };
                    match r {
                        None => return Err(format!("{}: None for a live entry", at)),
                        Some(r) => {
                            chkeq!((r.v, r.id), live[x].1, "{}: value", at);
                            r.v += 1000;
                            (live[x].1).0 += 1000;
                        }
                    }
                }
                STALE if !dead.is_empty() => {
                    let e = dead[op.1 as usize % dead.len()];
                    chk!(m.get(&e).is_none(), "{}: get({:?}) is Some", at, e);
                    chk!(m.get_mut(&e).is_none(), "{}: get_mut({:?}) is Some", at, e);
                }
                PANIC if !dead.is_empty() => {
                    let e = dead[op.1 as usize % dead.len()];
                    chk!(catch(|| { let _ = &m[e]; }).is_err(), "{}: indexing {:?} does not panic", at, e);
                    chk!(catch(|| { let _ = &mut m[e]; }).is_err(), "{}: indexing {:?} mutably does not panic", at, e);
                    // what a caught panic leaves behind is not specified: the last operation
                    chk!(catch(|| { m.free(&e); }).is_err(), "{}: free of {:?} does not panic", at, e);
                    return Ok(());
                }
                _ => {}
            }
            track_bad().map_err(|e| format!("{}: {}", at, e))?;
            for (e, p) in &live {
                match m.get(e) {
                    None => return Err(format!("after {}: get({:?}) is None", at, e)),
                    Some(w) => {
                        chkeq!((w.v, w.id), *p, "after {}: get({:?})", at, e);
                        for (d, a) in &addr {
                            chk!(d != e || *a == w as *const W as usize, "after {}: the object under {:?} has moved", at, e);
                        }
                    }
                }
                chkeq!(m[*e].id, p.1, "after {}: [{:?}]", at, e);
            }
            for e in &dead {
                chk!(m.get(e).is_none(), "after {}: get of the freed {:?} is Some", at, e);
            }
            chkeq!(track_live(), live.len(), "after {}: live values", at);
            // the arena is full before it grows, so the places ever handed out are bounded by what was live at once
        }
        let places = addr.len();
        let mut most = 0usize;
        let mut cur = 0usize;
        for op in ops {
            match op.0 { ALLOC => cur += 1, FREE if cur > 0 => cur -= 1, _ => {} }
            most = most.max(cur);
        }
        chk!(places <= (most + cs - 1) / cs * cs, "{} places handed out for at most {} live objects", places, most);
        drop(m);
        track_bad()?;
        chkeq!(track_live(), 0, "values still live after drop");
        Ok(())
    }
    fn show(&self, op: &Op) -> String {
        if op.0 == 99 {
            return format!("chunk size {}", op.1);
        }
        format!("{}({}, {})", NAMES[op.0 as usize % 7], op.1, op.2)
    }
}
pub fn register(v: &mut Vec<Box<dyn Target>>) {
    v.push(Box::new(Arena));
}
