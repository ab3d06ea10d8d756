//! Replay and bounded-search framework: a case is a list of operations that is run against
//! the real crate and against a model; everything is a deterministic function of the case.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{self, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op(pub u8, pub i64, pub i64);

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub type Res = Result<(), String>;

pub trait Target {
    fn name(&self) -> &'static str;
    /// number of cases in the bounded-exhaustive part
    fn exhaustive(&self) -> u64;
    fn gen(&self, rng: &mut Rng, idx: u64) -> Vec<Op>;
    fn run(&self, ops: &[Op]) -> Res;
    fn show(&self, op: &Op) -> String;
}

#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! chkeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (x, y) = (&$a, &$b);
        if !(*x == *y) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), x, y)); }
    }};
}

// ---- tracked keys and values -------------------------------------------------------------
thread_local! {
    static REC: Cell<bool> = Cell::new(false);
    static SEEN: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
    static LIVE: RefCell<Vec<bool>> = RefCell::new(Vec::new());
    static BAD: RefCell<Option<String>> = RefCell::new(None);
}
fn fresh() -> u64 {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        l.push(true);
        l.len() as u64 - 1
    })
}
fn dropped(id: u64, what: &str) {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        let i = id as usize;
        if i >= l.len() || !l[i] {
            BAD.with(|b| {
                let mut b = b.borrow_mut();
                if b.is_none() {
                    *b = Some(format!("{} #{} dropped twice (or never created)", what, id));
                }
            });
        } else {
            l[i] = false;
        }
    })
}
pub fn track_reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
}
pub fn track_bad() -> Res {
    match BAD.with(|b| b.borrow().clone()) {
        None => Ok(()),
        Some(e) => Err(e),
    }
}
pub fn track_live() -> usize {
    LIVE.with(|l| l.borrow().iter().filter(|x| **x).count())
}
pub fn alive(id: u64) -> bool {
    LIVE.with(|l| l.borrow().get(id as usize).cloned().unwrap_or(false))
}

#[derive(Debug, Clone)]
pub struct Q(pub i64);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        if REC.with(|r| r.get()) {
            SEEN.with(|s| s.borrow_mut().push((self as *const Q as usize, o as *const Q as usize)));
        }
        self.0.cmp(&o.0)
    }
}
/// how many distinct keys the lookup `f` compares its probe with
pub fn steps(f: impl FnOnce()) -> usize {
    SEEN.with(|s| s.borrow_mut().clear());
    REC.with(|r| r.set(true));
    f();
    REC.with(|r| r.set(false));
    SEEN.with(|s| {
        let s = s.borrow();
        if s.is_empty() {
            return 0;
        }
        // the probe takes part in every comparison
        let (a, b) = s[0];
        let probe = if s.iter().all(|x| x.0 == a || x.1 == a) { a } else { b };
        let mut o: Vec<usize> = s.iter().map(|x| if x.0 == probe { x.1 } else { x.0 }).collect();
        o.sort();
        o.dedup();
        o.len()
    })
}
/// a key: ordered by `q` only, `id` tells apart equal keys; drops are counted
#[derive(Debug)]
pub struct K {
    pub q: Q,
    pub id: u64,
}
impl K {
    pub fn new(k: i64) -> K {
        K { q: Q(k), id: fresh() }
    }
    /// a key used only to look things up: not tracked
    pub fn probe(k: i64) -> K {
        K { q: Q(k), id: u64::max_value() }
    }
}
impl Drop for K {
    fn drop(&mut self) {
        if self.id != u64::max_value() {
            dropped(self.id, "key");
        }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.q.eq(&o.q)
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.q.cmp(&o.q))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.q.cmp(&o.q)
    }
}
impl std::borrow::Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.q
    }
}
/// a value; drops are counted
#[derive(Debug)]
pub struct W {
    pub v: i64,
    pub id: u64,
}
impl W {
    pub fn new(v: i64) -> W {
        W { v, id: fresh() }
    }
}
impl Drop for W {
    fn drop(&mut self) {
        dropped(self.id, "value");
    }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

/// run a case; a panic of the real code is a failure
pub fn run_case(t: &dyn Target, ops: &[Op]) -> Res {
    track_reset();
    let r = match catch(|| t.run(ops)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    };
    r
}

/// greedy shrinking
pub fn shrink(t: &dyn Target, ops: &[Op], deadline: std::time::Instant) -> Vec<Op> {
    let mut cur = ops.to_vec();
    let mut step = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            if std::time::Instant::now() > deadline {
                return cur;
            }
            let j = (i + step).min(cur.len());
            let mut c = cur[..i].to_vec();
            c.extend_from_slice(&cur[j..]);
            if run_case(t, &c).is_err() {
                cur = c;
                changed = true;
            } else {
                i = j;
            }
        }
        if step == 1 && !changed {
            return cur;
        }
        if !changed || step > 1 {
            step = (step / 2).max(1);
        }
    }
}

/// sequence number n as a word of length len over `alphabet` letters
pub fn word(mut n: u64, len: usize, alphabet: u64) -> Vec<u64> {
    let mut v = vec![];
    for _ in 0..len {
        v.push(n % alphabet);
        n /= alphabet;
    }
    v
}
