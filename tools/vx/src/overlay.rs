//! The overlay format. Sections start with a line `//@ <kind> <args>`.
//!   //@ file <path> as <module::path>     source file to extract, in this order
//!   //@ include <file.vs>                 another overlay, relative to this file
//!   //@ prelude                           verus text at the crate root
//!   //@ spec <module::path>               verus text at the end of that module
//!   //@ use <old path> => <new path>      mapping applied to `use` items (new path `-` drops it)
//!   //@ skip <item path>                  item dropped (reported)
//!   //@ only <item path prefix>           if any given for a file's module, only matching fns are kept
//!   //@ external <item path>              fn kept as external_body (trusted, reported)
//!   //@ inherent <trait name>             impls of this trait become inherent impls
//!   //@ keep <trait name>                 impls of this trait stay trait impls
//!   //@ feature <name>                    rustc feature the assumed specifications need
//!   //@ macro <path> <name>               uses of this macro_rules macro (one arm) are expanded
//!   //@ cmpops <fn> <idents>              comparisons that mention one of these become vp::lt(..) etc. (operands are references)
//!   //@ cmpvals <fn> <idents>             the same where the operands are values: vp::lt(&(..), &(..))
//!   //@ try <path prefix>                 in these functions `e?` is `match e { Ok(x) => x, Err(x) => return Err(From::from(x)) }`
//!   //@ results <fns>                     in these functions `.map(closure)` is on a Result
//!   //@ subst <item path> `old` => `new`  token-exact textual substitution (reported)
//!   //@ fn <item path>                    contract of a function; sub-sections:
//!   //@ ret <name>                          name of the result
//!   //@ where <bound>                       bound added to the where clause
//!   //@ attr <text>                         attribute line placed before the fn
//!   //@ loop <k>                            text between loop head and loop body
//!   //@ body <k> / bodyend <k>              text at the start / end of the body of loop k
//!   //@ entry                               text at the start of the body
//!   //@ before <k> `tokens`                 text before the k-th statement that starts with tokens
//!   //@ after <k> `tokens`                  text after it
//!   //@ arm <k> `tokens`                    text in front of the k-th match arm whose pattern is tokens
//!   //@ closure <k> or_map|keep           (closures are desugared by default)
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct Hint {
    pub kind: String, // before/after/arm
    pub k: usize,
    pub pat: String,
    pub text: String,
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub sig: String,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub entry: String,
    pub bodies: BTreeMap<usize, String>,
    pub bodyends: BTreeMap<usize, String>,
    pub hints: Vec<Hint>,
    pub bounds: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub files: Vec<(String, String)>,
    pub prelude: String,
    pub specs: BTreeMap<String, String>,
    pub uses: Vec<(String, String)>,
    pub skip: Vec<String>,
    pub only: Vec<String>,
    pub external: Vec<String>,
    pub inherent: Vec<String>,
    pub substs: Vec<(String, String, String)>,
    pub fns: BTreeMap<String, FnSpec>,
    pub probe: bool,
    pub cmpops: Vec<(String, String)>,
    pub cmpvals: Vec<(String, String)>,
    pub results: Vec<String>,
    pub tries: Vec<String>,
    pub keep: Vec<String>,
    pub features: Vec<String>,
    pub macros: Vec<(String, String)>,
    pub raw: BTreeMap<String, crate::rawptr::Cfg>,
    pub raw_cur: String,
    pub seen: std::collections::BTreeSet<String>,
}

fn bt(s: &str) -> Option<(String, &str)> {
    let a = s.find('`')?;
    let b = s[a + 1..].find('`')? + a + 1;
    Some((s[a + 1..b].to_string(), &s[b + 1..]))
}

impl Overlay {
    pub fn load(&mut self, path: &str) -> Result<(), String> {
        self.load_with(path, &[])
    }

    fn load_with(&mut self, path: &str, params: &[(String, String)]) -> Result<(), String> {
        let mut text = fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        for (k, v) in params {
            text = text.replace(&format!("${}", k), v);
        }
        let dir = Path::new(path).parent().unwrap().to_path_buf();
        enum Cur {
            None,
            Prelude,
            Spec(String),
            Sig,
            Loop(usize),
            Body(usize),
            BodyEnd(usize),
            Entry,
            Hint,
        }
        let mut cur = Cur::None;
        let mut f: Option<String> = None;
        for (ln, line) in text.lines().enumerate() {
            let t = line.trim_start();
            if let Some(rest) = t.strip_prefix("//@") {
                let rest = rest.trim();
                let (kw, arg) = match rest.find(char::is_whitespace) {
                    Some(i) => (&rest[..i], rest[i..].trim()),
                    None => (rest, ""),
                };
                let err = |m: &str| format!("{}:{}: {}", path, ln + 1, m);
                match kw {
                    "file" => {
                        let mut p = arg.split(" as ");
                        let a = p.next().unwrap().trim().to_string();
                        let b = p.next().ok_or_else(|| err("file X as Y"))?.trim().to_string();
                        self.files.push((a, b));
                        cur = Cur::None;
                    }
                    "include" => {
                        // include FILE A=x B=y: `$A` in FILE becomes x
                        let mut w = arg.split_whitespace();
                        let file = w.next().unwrap_or("");
                        let ps: Vec<(String, String)> = w
                            .filter_map(|p| p.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
                            .collect();
                        if ps.is_empty() && !self.seen.insert(file.to_string()) {
                            continue;
                        }
                        self.load_with(dir.join(file).to_str().unwrap(), &ps)?;
                        cur = Cur::None;
                    }
                    "prelude" => cur = Cur::Prelude,
                    "spec" => {
                        self.specs.entry(arg.to_string()).or_default();
                        cur = Cur::Spec(arg.to_string());
                    }
                    "use" => {
                        let mut p = arg.split("=>");
                        let a = p.next().unwrap().trim().to_string();
                        let b = p.next().ok_or_else(|| err("use A => B"))?.trim().to_string();
                        self.uses.push((a, b));
                        cur = Cur::None;
                    }
                    "skip" => {
                        self.skip.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "only" => {
                        self.only.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "external" => {
                        self.external.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "try" => {
                        self.tries.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "results" => {
                        self.results.extend(arg.split_whitespace().map(|x| x.to_string()));
                        cur = Cur::None;
                    }
                    "feature" => {
                        self.features.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "keep" => {
                        self.keep.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "macro" => {
                        let mut w = arg.split_whitespace();
                        let a = w.next().unwrap_or("").to_string();
                        self.macros.push((a, w.next().unwrap_or("").to_string()));
                        cur = Cur::None;
                    }
                    "inherent" => {
                        self.inherent.push(arg.to_string());
                        cur = Cur::None;
                    }
                    "cmpops" | "cmpvals" => {
                        let mut w = arg.split_whitespace();
                        let a = w.next().unwrap_or("").to_string();
                        for i in w {
                            let l = if kw == "cmpops" { &mut self.cmpops } else { &mut self.cmpvals };
                            l.push((a.clone(), i.to_string()));
                        }
                        cur = Cur::None;
                    }
                    // rawptr <module> [links] <type arguments of a node>; then heap/heapfield/heapparam/rawkeep, paths relative to it
                    "rawptr" => {
                        let mut w = arg.split_whitespace();
                        let m = w.next().unwrap_or("").to_string();
                        let c = self.raw.entry(m.clone()).or_default();
                        let mut r: Vec<&str> = w.collect();
                        c.link_fields = r.first() == Some(&"links");
                        if c.link_fields {
                            r.remove(0);
                        }
                        c.generics = r.join(" ");
                        self.raw_cur = m;
                        cur = Cur::None;
                    }
                    "heap" | "heapfield" | "heapparam" | "rawkeep" => {
                        let c = self.raw.get_mut(&self.raw_cur).ok_or_else(|| err("no rawptr"))?;
                        let (n, rest) = match arg.find(char::is_whitespace) {
                            Some(i) => (arg[..i].to_string(), arg[i..].trim()),
                            None => (arg.to_string(), ""),
                        };
                        match kw {
                            "heapfield" => {
                                c.fields.insert(n, rest.to_string());
                            }
                            "heapparam" => {
                                c.params.insert(n, rest.to_string());
                            }
                            "rawkeep" => c.keep.push(n),
                            _ => {
                                let v: Vec<&str> = rest.split('|').map(|s| s.trim()).collect();
                                c.heaps.insert(
                                    n,
                                    crate::rawptr::Heap {
                                        shared: v.first().unwrap_or(&"").to_string(),
                                        excl: v.get(1).unwrap_or(&"").to_string(),
                                        lit: v.get(2).unwrap_or(&"").to_string(),
                                    },
                                );
                            }
                        }
                        cur = Cur::None;
                    }
                    "subst" => {
                        let item = arg.split_whitespace().next().unwrap_or("").to_string();
                        let (a, r) = bt(arg).ok_or_else(|| err("subst"))?;
                        let (b, _) = bt(r).ok_or_else(|| err("subst"))?;
                        self.substs.push((item, a, b));
                        cur = Cur::None;
                    }
                    "fn" => {
                        self.fns.entry(arg.to_string()).or_default();
                        f = Some(arg.to_string());
                        cur = Cur::Sig;
                    }
                    "ret" | "attr" | "loop" | "body" | "bodyend" | "entry" | "before" | "after" | "arm" | "where" => {
                        let fs = self.fns.get_mut(f.as_ref().ok_or_else(|| err("no fn"))?).unwrap();
                        match kw {
                            "ret" => fs.ret = Some(arg.to_string()),
                            "attr" => fs.attrs.push(arg.to_string()),
                            "where" => fs.bounds.push(arg.to_string()),
                            "loop" => {
                                let k = arg.parse().map_err(|_| err("loop k"))?;
                                fs.loops.insert(k, String::new());
                                cur = Cur::Loop(k);
                            }
                            "body" => {
                                let k = arg.parse().map_err(|_| err("body k"))?;
                                fs.bodies.insert(k, String::new());
                                cur = Cur::Body(k);
                            }
                            "bodyend" => {
                                let k = arg.parse().map_err(|_| err("bodyend k"))?;
                                fs.bodyends.insert(k, String::new());
                                cur = Cur::BodyEnd(k);
                            }
                            "entry" => cur = Cur::Entry,
                            _ => {
                                let k: usize = arg
                                    .split_whitespace()
                                    .next()
                                    .unwrap_or("")
                                    .parse()
                                    .map_err(|_| err("hint k"))?;
                                let (pat, _) = bt(arg).ok_or_else(|| err("hint pattern"))?;
                                fs.hints.push(Hint { kind: kw.to_string(), k, pat, text: String::new() });
                                cur = Cur::Hint;
                            }
                        }
                        if kw == "ret" || kw == "attr" || kw == "where" {
                            cur = Cur::Sig;
                        }
                    }
                    "end" => cur = Cur::None,
                    "#" => {}
                    _ => return Err(err(&format!("unknown directive {}", kw))),
                }
                continue;
            }
            let dst: &mut String = match &cur {
                Cur::None => {
                    if !t.is_empty() && !t.starts_with("//") {
                        return Err(format!("{}:{}: text outside a section", path, ln + 1));
                    }
                    continue;
                }
                Cur::Prelude => &mut self.prelude,
                Cur::Spec(m) => self.specs.get_mut(m).unwrap(),
                Cur::Sig => &mut self.fns.get_mut(f.as_ref().unwrap()).unwrap().sig,
                Cur::Loop(k) => self.fns.get_mut(f.as_ref().unwrap()).unwrap().loops.get_mut(k).unwrap(),
                Cur::Body(k) => self.fns.get_mut(f.as_ref().unwrap()).unwrap().bodies.get_mut(k).unwrap(),
                Cur::BodyEnd(k) => {
                    self.fns.get_mut(f.as_ref().unwrap()).unwrap().bodyends.get_mut(k).unwrap()
                }
                Cur::Entry => &mut self.fns.get_mut(f.as_ref().unwrap()).unwrap().entry,
                Cur::Hint => &mut self.fns.get_mut(f.as_ref().unwrap()).unwrap().hints.last_mut().unwrap().text,
            };
            dst.push_str(line);
            dst.push('\n');
        }
        Ok(())
    }
}
