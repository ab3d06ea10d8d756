//! Point edits on the original text.
#[derive(Default)]
pub struct Edits {
    // (position, bytes deleted, text inserted, tie-break order)
    v: Vec<(usize, usize, String, i64)>,
    n: i64,
}
impl Edits {
    pub fn ins(&mut self, pos: usize, s: &str) {
        self.n += 1;
        self.v.push((pos, 0, s.to_string(), self.n));
    }
    /// insertion placed in front of earlier insertions at the same point
    pub fn ins_outer(&mut self, pos: usize, s: &str) {
        self.n += 1;
        self.v.push((pos, 0, s.to_string(), -self.n));
    }
    pub fn rep(&mut self, a: usize, b: usize, s: &str) {
        self.n += 1;
        self.v.push((a, b - a, s.to_string(), 1_000_000 + self.n));
    }
    pub fn apply(mut self, src: &str, from: usize, to: usize) -> Result<String, String> {
        self.v.sort_by_key(|e| (e.0, e.3));
        let mut out = String::new();
        let mut at = from;
        for (p, d, s, _) in &self.v {
            if *p < from || *p > to {
                continue;
            }
            if *p < at {
                if *d == 0 {
                    continue; // insertion inside deleted text
                }
                if *p + *d <= at {
                    continue; // deletion inside deleted text
                }
                return Err(format!("overlapping edits at byte {}", p));
            }
            out.push_str(&src[at..*p]);
            out.push_str(s);
            at = *p + *d;
        }
        if at < to {
            out.push_str(&src[at..to]);
        }
        Ok(out)
    }
}
