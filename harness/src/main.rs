//! vharness run <target> <seed> <secs> <outfile> <progress-file>
//! vharness replay <replay-file>
//! vharness trace <target> <seed> <idx>      run one case, printing every op before it runs
//! vharness list
mod arena;
mod bp;
mod fw;
mod lsm;
mod ordmap;
mod radix;
mod seq;

use fw::*;
use std::fs;
use std::io::Write;
use std::time::{Duration, Instant};

fn targets() -> Vec<Box<dyn Target>> {
    let mut v: Vec<Box<dyn Target>> = vec![];
    ordmap::register(&mut v);
    seq::register(&mut v);
    arena::register(&mut v);
    bp::register(&mut v);
    lsm::register(&mut v);
    radix::register(&mut v);
    v
}
fn find(n: &str) -> Box<dyn Target> {
    for t in targets() {
        if t.name() == n {
            return t;
        }
    }
    eprintln!("no target {}", n);
    std::process::exit(2);
}
fn gen(t: &dyn Target, seed: u64, idx: u64) -> Vec<Op> {
    let mut r = Rng::new(seed.wrapping_add(idx.wrapping_mul(0x51_7C_C1_B7_27_22_0A_95)));
    t.gen(&mut r, idx)
}
fn text(t: &dyn Target, ops: &[Op], err: &str) -> String {
    let mut s = format!("target {}\n# {}\n", t.name(), err.replace('\n', " "));
    for o in ops {
        s.push_str(&format!("op {} {} {}   # {}\n", o.0, o.1, o.2, t.show(o)));
    }
    s
}
fn parse(s: &str) -> (String, Vec<Op>) {
    let mut t = String::new();
    let mut v = vec![];
    for l in s.lines() {
        let l = l.split('#').next().unwrap().trim();
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() == 2 && w[0] == "target" {
            t = w[1].to_string();
        }
        if w.len() == 4 && w[0] == "op" {
            v.push(Op(w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap()));
        }
    }
    (t, v)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for t in targets() {
                println!("{} {}", t.name(), t.exhaustive());
            }
        }
        Some("run") => {
            let t = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let start = Instant::now();
            let mut idx = 0u64;
            let mut prog = fs::File::create(&a[6]).unwrap();
            let mut nops = 0u64;
            loop {
                if start.elapsed() > Duration::from_millis((secs * 1000.0) as u64) {
                    break;
                }
                let ops = gen(&*t, seed, idx);
                {
                    use std::io::Seek;
                    prog.seek(std::io::SeekFrom::Start(0)).unwrap();
                    let _ = prog.write_all(format!("{:020}", idx).as_bytes());
                }
                nops += ops.len() as u64;
                if let Err(e) = run_case(&*t, &ops) {
                    let small = shrink(&*t, &ops, Instant::now() + Duration::from_secs(10));
                    let e2 = run_case(&*t, &small).err().unwrap_or(e);
                    fs::write(&a[5], text(&*t, &small, &e2)).unwrap();
                    println!("FAIL case {} : {}", idx, e2);
                    std::process::exit(1);
                }
                idx += 1;
            }
            println!("OK cases {} ops {} exhaustive {}", idx, nops, t.exhaustive().min(idx));
        }
        Some("replay") => {
            let s = fs::read_to_string(&a[2]).unwrap();
            let (n, ops) = parse(&s);
            let t = find(&n);
            match run_case(&*t, &ops) {
                Ok(()) => println!("OK"),
                Err(e) => {
                    println!("FAIL {}", e);
                    std::process::exit(1);
                }
            }
        }
        Some("trace") => {
            let t = find(&a[2]);
            let ops = gen(&*t, a[3].parse().unwrap(), a[4].parse().unwrap());
            print!("{}", text(&*t, &ops, "trace"));
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2);
        }
    }
}
