//! vx: mechanical extraction of the code in /repo/src into one Verus file.
//!
//! usage: vx <repo> <spec.vs>... <out.rs> <report.json>
//!
//! The text of every extracted item is copied from the current source byte for
//! byte, except for the edits listed in DESIGN.md ("What the extraction does").
//! Contracts, loop invariants and proof hints come from the overlay (.vs) files.

mod overlay;
mod edits;
mod extract;
mod rawptr;

use std::fs;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let probe = args.len() > 1 && args[1] == "--probe";
    if probe {
        args.remove(1);
    }
    if args.len() < 5 {
        eprintln!("usage: vx <repo> <spec.vs>... <out.rs> <report.json>");
        std::process::exit(2);
    }
    let n = args.len();
    let repo = &args[1];
    let mut ov = overlay::Overlay::default();
    ov.probe = probe;
    for a in &args[2..n - 2] {
        if let Err(e) = ov.load(a) {
            eprintln!("vx: overlay {}: {}", a, e);
            std::process::exit(2);
        }
    }
    let mut rep = extract::Report::default();
    let text = match extract::run(repo, &ov, &mut rep) {
        Ok(t) => t,
        Err(e) => {
            // the source cannot be brought into the verifier's dialect: reported, not an alarm
            rep.fatal = Some(e.clone());
            fs::write(&args[n - 1], rep.json()).unwrap();
            eprintln!("vx: {}", e);
            std::process::exit(3);
        }
    };
    fs::write(&args[n - 2], text).unwrap();
    fs::write(&args[n - 1], rep.json()).unwrap();
}
