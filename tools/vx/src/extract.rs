use crate::edits::Edits;
use crate::overlay::{FnSpec, Overlay};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default)]
pub struct FnRep {
    pub path: String,
    pub file: String,
    pub line0: usize,
    pub line1: usize,
    pub contract: bool,
    pub external: bool,
    pub lost: Vec<String>,
    pub desugared: usize,
    pub hash: u64,
}
#[derive(Default)]
pub struct Report {
    pub fatal: Option<String>,
    pub fns: Vec<FnRep>,
    pub dropped: Vec<String>,
    pub rewrites: Vec<String>,
    pub missing: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

impl Report {
    pub fn json(&self) -> String {
        let mut o = String::from("{\n");
        o.push_str(&format!(
            "\"fatal\": {},\n",
            self.fatal.as_ref().map(|s| js(s)).unwrap_or("null".into())
        ));
        o.push_str("\"fns\": [\n");
        for (i, f) in self.fns.iter().enumerate() {
            o.push_str(&format!(
                "{{\"path\": {}, \"file\": {}, \"line0\": {}, \"line1\": {}, \"contract\": {}, \"external\": {}, \"desugared\": {}, \"hash\": \"{:016x}\", \"lost\": {}}}{}\n",
                js(&f.path), js(&f.file), f.line0, f.line1, f.contract, f.external, f.desugared, f.hash, jl(&f.lost),
                if i + 1 < self.fns.len() { "," } else { "" }
            ));
        }
        o.push_str("],\n");
        o.push_str(&format!("\"dropped\": {},\n", jl(&self.dropped)));
        o.push_str(&format!("\"rewrites\": {},\n", jl(&self.rewrites)));
        o.push_str(&format!("\"missing\": {}\n}}\n", jl(&self.missing)));
        o
    }
}

struct Tok {
    t: String,
    a: usize,
    b: usize,
}
fn flat(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    let r = g.span_open().byte_range();
                    out.push(Tok { t: o.into(), a: r.start, b: r.end });
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    let r = g.span_close().byte_range();
                    out.push(Tok { t: c.into(), a: r.start, b: r.end });
                }
            }
            TokenTree::Punct(p) => {
                let r = p.span().byte_range();
                out.push(Tok { t: p.as_char().to_string(), a: r.start, b: r.end });
            }
            other => {
                let r = other.span().byte_range();
                out.push(Tok { t: other.to_string(), a: r.start, b: r.end });
            }
        }
    }
}
fn toks_str(s: &str) -> Result<Vec<Tok>, String> {
    let ts: TokenStream = s.parse().map_err(|e| format!("pattern `{}`: {}", s, e))?;
    let mut v = vec![];
    flat(ts, &mut v);
    Ok(v)
}
fn starts(v: &[Tok], p: &[Tok]) -> bool {
    v.len() >= p.len() && p.iter().zip(v).all(|(x, y)| x.t == y.t)
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.starts_with("#[cfg(test)]") || s.starts_with("#[test]")
    })
}

fn self_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => {
            format!("{}{}", if r.mutability.is_some() { "&mut " } else { "&" }, self_name(&r.elem))
        }
        o => o.to_token_stream().to_string(),
    }
}

struct Body<'a> {
    src: &'a str,
    ed: &'a mut Edits,
    spec: FnSpec,
    loops: Vec<(usize, usize)>, // position of the body's brace
    stmts: Vec<(usize, usize, Vec<Tok>)>,
    arms: Vec<(usize, usize, bool, Vec<Tok>)>,
    desugared: usize,
    bad: Vec<String>,
    cmpops: Vec<String>,
    cmpvals: Vec<String>,
    results: bool,
    tries: bool,
}

fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn leak(e: syn::Expr) -> &'static syn::Expr {
    Box::leak(Box::new(e))
}
struct HasRet(bool);
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

impl<'a, 'ast> Visit<'ast> for Body<'a> {
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let (a, _) = range(&e.body.brace_token.span.open());
        let (b, _) = range(&e.body.brace_token.span.close());
        self.loops.push((a, b));
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let (a, _) = range(&e.body.brace_token.span.open());
        let (b, _) = range(&e.body.brace_token.span.close());
        self.loops.push((a, b));
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let (a, _) = range(&e.body.brace_token.span.open());
        let (b, _) = range(&e.body.brace_token.span.close());
        self.loops.push((a, b));
        if matches!(&*e.pat, syn::Pat::Wild(_)) {
            // the iterator is named so that the loop contract can refer to it
            self.ed.ins_outer(range(&*e.expr).0, "vx_it: ");
        }
        // for (i, x) in a.iter_mut().enumerate(): a loop over the positions
        if let (syn::Expr::MethodCall(en), syn::Pat::Tuple(p)) = (&*e.expr, &*e.pat) {
            if en.method == "enumerate" && p.elems.len() == 2 {
                if let syn::Expr::MethodCall(im) = &*en.receiver {
                    let by = if im.method == "iter_mut" {
                        Some("&mut ")
                    } else if im.method == "iter" {
                        Some("&")
                    } else {
                        None
                    };
                    if let (Some(by), syn::Expr::Path(_)) = (by, &*im.receiver) {
                        let t = |r: (usize, usize)| self.src[r.0..r.1].to_string();
                        let (arr, i, x) = (t(range(&*im.receiver)), t(range(&p.elems[0])), t(range(&p.elems[1])));
                        let (pa, pb) = range(&*e.pat);
                        self.ed.rep(pa, pb, &i);
                        let (xa, xb) = range(&*e.expr);
                        self.ed.rep(xa, xb, &format!("vx_it: 0..{}.len()", arr));
                        let at = e.body.stmts.first().map(|s| range(s).0).unwrap_or(a + 1);
                        self.ed.ins_outer(at, &format!("let {} = {}{}[{}]; ", x, by, arr, i));
                        self.desugared += 1;
                        self.visit_block(&e.body);
                        return;
                    }
                }
            }
        }
        visit::visit_expr_for_loop(self, e);
    }
    // `e?` on a Result whose error is converted
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        if self.tries {
            let (ra, rb) = range(&*e.expr);
            let (_, eb) = range(e);
            self.ed.ins_outer(ra, "(match ");
            self.ed.rep(rb, eb, " { Ok(vx_x) => vx_x, Err(vx_e) => return Err(From::from(vx_e)) })");
            self.desugared += 1;
        }
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let m = e.method.to_string();
        if e.args.len() == 1 && (m == "and_then" || m == "map") {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.len() == 1 {
                    let mut hr = HasRet(false);
                    hr.visit_expr(&c.body);
                    if hr.0 {
                        self.bad.push(format!("return inside closure of .{}", m));
                    }
                    let (ra, rb) = range(&e.receiver);
                    let (_, eb) = range(e);
                    let (pa, mut pb) = range(&c.inputs[0]);
                    let (ba, bb) = range(&*c.body);
                    // `|x: T| e`: the type moves into a let
                    let (mut lo, mut hi) = (String::new(), String::new());
                    if let syn::Pat::Type(t) = &c.inputs[0] {
                        pb = range(&*t.pat).1;
                        let (ta, tb) = range(&*t.ty);
                        lo = format!("{{ let {}: {} = {}; ", &self.src[pa..pb], &self.src[ta..tb], &self.src[pa..pb]);
                        hi = " }".into();
                    }
                    self.ed.ins_outer(ra, "(match ");
                    let res = self.results && m == "map";
                    self.ed.rep(rb, pa, if res { " { Err(vx_e) => Err(vx_e), Ok(" } else { " { None => None, Some(" });
                    if res {
                        self.ed.rep(pb, ba, &format!(") => Ok({}", lo));
                        self.ed.rep(bb, eb, &format!("{}) }})", hi));
                    } else if m == "map" {
                        self.ed.rep(pb, ba, &format!(") => Some({}", lo));
                        self.ed.rep(bb, eb, &format!("{}) }})", hi));
                    } else {
                        self.ed.rep(pb, ba, &format!(") => {}", lo));
                        self.ed.rep(bb, eb, &format!("{} }})", hi));
                    }
                    self.desugared += 1;
                }
            }
        }
        // `.map(Constructor)`, `.map_err(Constructor)`
        if e.args.len() == 1 && (m == "map_err" || m == "map") {
            if let syn::Expr::Path(c) = &e.args[0] {
                let (ra, rb) = range(&e.receiver);
                let (_, eb) = range(e);
                let (ca, cb) = range(c);
                let c = self.src[ca..cb].to_string();
                self.ed.ins_outer(ra, "(match ");
                let t = if m == "map_err" {
                    format!(" {{ Ok(vx_x) => Ok(vx_x), Err(vx_e) => Err({}(vx_e)) }})", c)
                } else if self.results {
                    format!(" {{ Err(vx_e) => Err(vx_e), Ok(vx_x) => Ok({}(vx_x)) }})", c)
                } else {
                    format!(" {{ None => None, Some(vx_x) => Some({}(vx_x)) }})", c)
                };
                self.ed.rep(rb, eb, &t);
                self.desugared += 1;
                visit::visit_expr(self, &e.receiver);
                return;
            }
        }
        visit::visit_expr_method_call(self, e);
    }
    // `a < b` on user keys => `vp::lt(a, b)`
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        let f = match e.op {
            syn::BinOp::Lt(_) => "lt",
            syn::BinOp::Le(_) => "le",
            syn::BinOp::Gt(_) => "gt",
            syn::BinOp::Ge(_) => "ge",
            syn::BinOp::Eq(_) => "eq",
            syn::BinOp::Ne(_) => "ne",
            _ => "",
        };
        if !f.is_empty() {
            let mut v = vec![];
            flat(e.to_token_stream(), &mut v);
            if v.iter().any(|t| self.cmpvals.contains(&t.t)) {
                let (la, lb) = range(&*e.left);
                let (ra, rb) = range(&*e.right);
                self.ed.ins_outer(la, &format!("crate::vp::{}(&(", f));
                self.ed.rep(lb, ra, "), &(");
                self.ed.ins(rb, "))");
                self.desugared += 1;
            } else if v.iter().any(|t| self.cmpops.contains(&t.t)) {
                let (la, lb) = range(&*e.left);
                let (ra, rb) = range(&*e.right);
                self.ed.ins_outer(la, &format!("crate::vp::{}(", f));
                self.ed.rep(lb, ra, ", ");
                self.ed.ins(rb, ")");
                self.desugared += 1;
            }
        }
        visit::visit_expr_binary(self, e);
    }
    // assertions and panics become calls with a precondition
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = range(m);
        let end = range(&m.delimiter.span().close()).0;
        let open = range(&m.delimiter.span().open());
        use syn::parse::Parser;
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone());
        match n.as_str() {
            "assert" | "debug_assert" => {
                if let Ok(args) = args {
                    let (_, y) = range(&args[0]);
                    self.ed.rep(a, open.1, "crate::vp::check(");
                    if y < end {
                        self.ed.rep(y, end, "");
                    }
                    visit::visit_expr(self, leak(args[0].clone()));
                    self.desugared += 1;
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if let Ok(args) = args {
                    if args.len() >= 2 {
                        let (_, x) = range(&args[0]);
                        let (y0, y) = range(&args[1]);
                        self.ed.rep(a, open.1, "crate::vp::check((");
                        self.ed.rep(x, y0, if n.ends_with("ne") { ") != (" } else { ") == (" });
                        self.ed.rep(y, end, ")");
                        visit::visit_expr(self, leak(args[0].clone()));
                        visit::visit_expr(self, leak(args[1].clone()));
                        self.desugared += 1;
                    }
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.ed.rep(a, b, "(return crate::vp::never())");
                self.desugared += 1;
            }
            _ => {}
        }
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        if m.semi_token.is_some() && matches!(n.as_str(), "panic" | "unreachable" | "unimplemented" | "todo") {
            let (a, b) = range(&m.mac);
            self.ed.rep(a, b, "crate::vp::never::<()>()");
            self.desugared += 1;
        } else {
            visit::visit_stmt_macro(self, m);
        }
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            let (x, y) = range(s);
            let mut v = vec![];
            flat(s.to_token_stream(), &mut v);
            self.stmts.push((x, y, v));
        }
        visit::visit_block(self, b);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        let (x, y) = range(&*a.body);
        let mut v = vec![];
        flat(a.pat.to_token_stream(), &mut v);
        let isblock = matches!(&*a.body, syn::Expr::Block(_));
        self.arms.push((x, y, isblock, v));
        visit::visit_arm(self, a);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

struct Ctx<'a> {
    src: &'a str,
    file: String,
    module: String,
    ov: &'a Overlay,
    ed: Edits,
    rep: &'a mut Report,
    used: &'a mut BTreeSet<String>,
    assoc: BTreeMap<String, BTreeMap<String, String>>,
}

impl<'a> Ctx<'a> {
    fn skipped(&self, path: &str) -> bool {
        if self.ov.skip.iter().any(|s| s == path) {
            return true;
        }
        let only: Vec<&String> = self
            .ov
            .only
            .iter()
            .filter(|s| {
                // the file the item is in: the longest module that is a prefix
                let of = |m: &str| s.starts_with(&format!("{}::", m));
                of(&self.module) && !self.ov.files.iter().any(|f| f.1.len() > self.module.len() && of(&f.1))
            })
            .collect();
        !only.is_empty() && !only.iter().any(|s| *s == path || path.starts_with(&format!("{}::", s)))
    }

    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Inherited => self.ed.ins(at, "pub "),
            syn::Visibility::Restricted(r) => {
                let (a, b) = range(r);
                self.ed.rep(a, b, "pub");
            }
            _ => {}
        }
    }

    fn strip_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let (x, y) = range(a);
            self.ed.rep(x, y, "");
        }
    }

    fn subst(&mut self, path: &str, ts: TokenStream, lost: &mut Vec<String>) -> Result<(), String> {
        let subs: Vec<_> = self.ov.substs.iter().filter(|s| s.0 == path).cloned().collect();
        if subs.is_empty() {
            return Ok(());
        }
        let mut v = vec![];
        flat(ts, &mut v);
        for (_, old, new) in subs {
            let p = toks_str(&old)?;
            let mut hit = 0;
            let mut i = 0;
            while i + p.len() <= v.len() {
                if starts(&v[i..], &p) {
                    self.ed.rep(v[i].a, v[i + p.len() - 1].b, &new);
                    hit += 1;
                    i += p.len();
                } else {
                    i += 1;
                }
            }
            if hit == 0 {
                lost.push(format!("subst `{}`", old));
            } else {
                self.rep.rewrites.push(format!("{}: `{}` => `{}` ({}x)", path, old, new, hit));
            }
        }
        Ok(())
    }

    fn function(
        &mut self,
        path: &str,
        attrs: &[syn::Attribute],
        vis: Option<&syn::Visibility>,
        sig: &syn::Signature,
        block: &syn::Block,
        whole: (usize, usize),
        ts: TokenStream,
    ) -> Result<(), String> {
        if is_test(attrs) || self.skipped(path) {
            self.ed.rep(whole.0, whole.1, "");
            self.rep.dropped.push(path.to_string());
            return Ok(());
        }
        self.used.insert(path.to_string());
        let spec = self.ov.fns.get(path).cloned();
        let external = self.ov.external.iter().any(|s| s == path);
        let mut fr = FnRep {
            path: path.to_string(),
            file: self.file.clone(),
            line0: sig.span().start().line,
            line1: block.span().end().line,
            contract: spec.is_some(),
            external,
            ..Default::default()
        };
        {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            sig.to_token_stream().to_string().hash(&mut h);
            block.to_token_stream().to_string().hash(&mut h);
            fr.hash = h.finish();
        }
        self.strip_attrs(attrs);
        let mut lost = vec![];
        self.subst(path, ts, &mut lost)?;
        let (sa, _) = range(sig);
        let start = match vis {
            Some(v) => {
                let mut vs = range(v).0;
                if matches!(v, syn::Visibility::Inherited) {
                    vs = sa;
                }
                vs
            }
            None => sa,
        };
        let mut pre = String::new();
        if external {
            pre.push_str("#[verifier::external_body] ");
        }
        if let Some(s) = &spec {
            for a in &s.attrs {
                pre.push_str(a);
                pre.push(' ');
            }
        }
        pre = format!("/*VX {} */ {}", path, pre);
        self.ed.ins_outer(start, &pre);
        if let Some(v) = vis {
            self.vis(v, sa);
        }
        let (ba, bb) = range(&block.brace_token.span.open());
        let spec = spec.unwrap_or_default();
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let (ta, tb) = range(&**t);
            let name = spec.ret.clone().unwrap_or("ret".into());
            self.ed.ins_outer(ta, &format!("({}: ", name));
            self.ed.ins(tb, ")");
        }
        if !spec.bounds.is_empty() {
            let kw = match &sig.generics.where_clause {
                Some(w) if w.predicates.trailing_punct() => " ",
                Some(_) => ", ",
                None => " where ",
            };
            self.ed.ins_outer(ba, &format!("{}{}, ", kw, spec.bounds.join(", ")));
            self.rep.rewrites.push(format!("{}: bound {} added", path, spec.bounds.join(", ")));
        }
        if !spec.sig.is_empty() {
            self.ed.ins(ba, &format!("\n{}", spec.sig));
        }
        // `mut self` by value, which the verifier does not accept: rebound under another name
        let mut rebound = false;
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
            if matches!(r.kind, syn::ReceiverKind::Value) && r.mutability.is_some() {
                let (ra, rb) = range(r);
                self.ed.rep(ra, rb, "self");
                let mut v = vec![];
                flat(block.to_token_stream(), &mut v);
                for t in v {
                    if t.t == "self" {
                        self.ed.rep(t.a, t.b, "vx_self");
                    }
                }
                rebound = true;
                self.rep.rewrites.push(format!("{}: `mut self` => `self` with `let mut vx_self = self;` first", path));
            }
        }
        if external {
            // trusted: only the signature and the contract are kept
            self.ed.rep(bb, range(&block.brace_token.span.close()).0, " unimplemented!() ");
        }
        if !external {
            let mut ed = std::mem::take(&mut self.ed);
            let mut b = Body {
                src: self.src,
                ed: &mut ed,
                spec: spec.clone(),
                loops: vec![],
                stmts: vec![],
                arms: vec![],
                desugared: 0,
                bad: vec![],
                tries: self.ov.tries.iter().any(|r| path.starts_with(r.as_str())),
                results: self.ov.results.iter().any(|r| r == path),
                cmpvals: self.ov.cmpvals.iter().filter(|c| c.0 == path).map(|c| c.1.clone()).collect(),
                cmpops: self.ov.cmpops.iter().filter(|c| c.0 == path).map(|c| c.1.clone()).collect(),
            };
            b.visit_block(block);
            let _ = b.src;
            let Body { loops, stmts, arms, desugared, bad, spec, .. } = b;
            self.ed = ed;
            fr.desugared = desugared;
            for m in bad {
                return Err(format!("{}: {}", path, m));
            }
            if self.ov.probe && fr.contract {
                self.ed.ins(bb, &format!("\nassert(false); // probe {}\n", path));
            }
            if !spec.entry.is_empty() {
                self.ed.ins(bb, &format!("\n{}", spec.entry));
            }
            if rebound {
                self.ed.ins(bb, " let mut vx_self = self;");
            }
            let nl = spec.loops.len();
            if (nl > 0 || !loops.is_empty()) && loops.len() != nl {
                lost.push(format!("{} loops in the source, {} loop contracts", loops.len(), nl));
            }
            for (k, t) in &spec.loops {
                if let Some((a, _)) = loops.get(*k) {
                    self.ed.ins(*a, &format!("\n{}", t));
                }
            }
            for (k, t) in &spec.bodies {
                if let Some((a, _)) = loops.get(*k) {
                    self.ed.ins(*a + 1, &format!("\n{}", t));
                }
            }
            for (k, t) in &spec.bodyends {
                if let Some((_, b)) = loops.get(*k) {
                    self.ed.ins(*b, &format!("\n{}", t));
                }
            }
            for h in &spec.hints {
                let p = toks_str(&h.pat)?;
                if h.kind == "arm" {
                    let hit: Vec<_> = arms.iter().filter(|a| a.3.len() == p.len() && starts(&a.3, &p)).collect();
                    match hit.get(h.k) {
                        None => lost.push(format!("arm {} `{}`", h.k, h.pat)),
                        Some(a) => {
                            if a.2 {
                                self.ed.ins(a.0 + 1, &format!("\n{}", h.text));
                            } else {
                                self.ed.ins_outer(a.0, &format!("{{\n{}", h.text));
                                self.ed.ins(a.1, " }");
                            }
                        }
                    }
                } else {
                    let hit: Vec<_> = stmts.iter().filter(|s| starts(&s.2, &p)).collect();
                    match hit.get(h.k) {
                        None => lost.push(format!("{} {} `{}`", h.kind, h.k, h.pat)),
                        Some(s) => {
                            if h.kind == "before" {
                                self.ed.ins_outer(s.0, &format!("{}\n", h.text));
                            } else {
                                self.ed.ins(s.1, &format!("\n{}", h.text));
                            }
                        }
                    }
                }
            }
        }
        fr.lost = lost;
        self.rep.fns.push(fr);
        Ok(())
    }

    fn uses(&mut self, u: &syn::ItemUse) {
        fn walk(t: &syn::UseTree, pre: &str, out: &mut Vec<(String, Option<String>)>) {
            match t {
                syn::UseTree::Path(p) => walk(&p.tree, &format!("{}{}::", pre, p.ident), out),
                syn::UseTree::Name(n) => {
                    if n.ident == "self" {
                        out.push((pre.trim_end_matches("::").to_string(), None))
                    } else {
                        out.push((format!("{}{}", pre, n.ident), None))
                    }
                }
                syn::UseTree::Rename(r) => out.push((format!("{}{}", pre, r.ident), Some(r.rename.to_string()))),
                syn::UseTree::Glob(_) => out.push((format!("{}*", pre), None)),
                syn::UseTree::Group(g) => {
                    for i in &g.items {
                        walk(i, pre, out)
                    }
                }
                _ => {}
            }
        }
        let mut v = vec![];
        walk(&u.tree, "", &mut v);
        let (a, b) = range(u);
        let mut t = String::new();
        for (p, r) in v {
            let mut p2 = p.clone();
            let mut drop = false;
            for (o, n) in &self.ov.uses {
                if p == *o || p.starts_with(&format!("{}::", o)) {
                    if n == "-" {
                        drop = true;
                    } else {
                        p2 = format!("{}{}", n, &p[o.len()..]);
                    }
                    self.rep.rewrites.push(format!("{}: use {} => {}", self.module, p, if drop { "(dropped)" } else { &p2 }));
                    break;
                }
            }
            if !drop {
                t.push_str(&format!("pub use {}{}; ", p2, r.map(|r| format!(" as {}", r)).unwrap_or_default()));
            }
        }
        self.ed.rep(a, b, &t.replace("pub use", "use"));
    }

    fn items(&mut self, items: &[syn::Item]) -> Result<(), String> {
        for it in items {
            let (ia, ib) = range(it);
            match it {
                syn::Item::Use(u) => self.uses(u),
                syn::Item::Fn(f) => {
                    let path = format!("{}::{}", self.module, f.sig.ident);
                    self.function(&path, &f.attrs, Some(&f.vis), &f.sig, &f.block, (ia, ib), f.to_token_stream())?;
                }
                syn::Item::Struct(s) => {
                    let path = format!("{}::{}", self.module, s.ident);
                    if self.skipped(&path) || is_test(&s.attrs) {
                        self.ed.rep(ia, ib, "");
                        self.rep.dropped.push(path);
                        continue;
                    }
                    let mut lost = vec![];
                    self.subst(&path, s.to_token_stream(), &mut lost)?;
                    self.used.insert(path.clone());
                    self.strip_attrs(&s.attrs);
                    let mut pre = String::new();
                    if let Some(sp) = self.ov.fns.get(&path) {
                        for a in &sp.attrs {
                            pre.push_str(a);
                            pre.push(' ');
                        }
                    }
                    let at = range(&s.struct_token).0;
                    if !pre.is_empty() {
                        let p = if matches!(s.vis, syn::Visibility::Inherited) { at } else { range(&s.vis).0 };
                        self.ed.ins_outer(p, &pre);
                    }
                    self.vis(&s.vis, at);
                    for f in s.fields.iter() {
                        self.strip_attrs(&f.attrs);
                        let at = match &f.ident {
                            Some(i) => range(i).0,
                            None => range(&f.ty).0,
                        };
                        self.vis(&f.vis, at);
                    }
                }
                syn::Item::Enum(s) => {
                    let path = format!("{}::{}", self.module, s.ident);
                    if self.skipped(&path) || is_test(&s.attrs) {
                        self.ed.rep(ia, ib, "");
                        self.rep.dropped.push(path);
                        continue;
                    }
                    self.strip_attrs(&s.attrs);
                    for v in s.variants.iter() {
                        self.strip_attrs(&v.attrs);
                    }
                    let at = range(&s.enum_token).0;
                    self.used.insert(path.clone());
                    if let Some(sp) = self.ov.fns.get(&path) {
                        let p = if matches!(s.vis, syn::Visibility::Inherited) { at } else { range(&s.vis).0 };
                        let t = sp.attrs.iter().map(|a| format!("{} ", a)).collect::<String>();
                        self.ed.ins_outer(p, &t);
                    }
                    self.vis(&s.vis, at);
                }
                syn::Item::Type(s) => {
                    let path = format!("{}::{}", self.module, s.ident);
                    if self.skipped(&path) {
                        self.ed.rep(ia, ib, "");
                        self.rep.dropped.push(path);
                        continue;
                    }
                    let mut lost = vec![];
                    self.subst(&path, s.to_token_stream(), &mut lost)?;
                    self.strip_attrs(&s.attrs);
                    let at = range(&s.type_token).0;
                    self.vis(&s.vis, at);
                }
                syn::Item::Const(s) => {
                    let path = format!("{}::{}", self.module, s.ident);
                    if self.skipped(&path) || is_test(&s.attrs) {
                        self.ed.rep(ia, ib, "");
                        self.rep.dropped.push(path);
                        continue;
                    }
                    self.strip_attrs(&s.attrs);
                    let at = range(&s.const_token).0;
                    self.vis(&s.vis, at);
                    if let Some(sp) = self.ov.fns.get(&path) {
                        self.used.insert(path.clone());
                        self.ed.ins(at, "exec ");
                        let (ea, eb) = range(&s.eq_token);
                        self.ed.rep(ea, eb, &format!("{} {{", sp.sig));
                        let (sa, sb) = range(&s.semi_token);
                        self.ed.rep(sa, sb, " }");
                    }
                }
                syn::Item::Impl(im) => {
                    let tn = self_name(&im.self_ty);
                    let mut base = format!("{}::{}", self.module, tn);
                    let mut assoc: BTreeMap<String, String> = BTreeMap::new();
                    let mut inherent = true;
                    let mut moved: (Vec<String>, Vec<String>) = Default::default();
                    let kept = trait_of(im).map_or(false, |(_, p, _)| {
                        let tr = p.segments.last().unwrap().ident.to_string();
                        self.ov.keep.iter().any(|s| *s == tr || *s == format!("{}::{}", base, tr))
                    });
                    if kept {
                        inherent = false;
                        let (_, p, _) = trait_of(im).unwrap();
                        base = format!("{}::{}", base, p.segments.last().unwrap().ident);
                    } else if let Some((_, p, _)) = trait_of(im) {
                        let tr = p.segments.last().unwrap().ident.to_string();
                        let full = format!("{}::{}", base, tr);
                        if !self.ov.inherent.iter().any(|s| *s == tr || *s == full)
                            || self.skipped(&full)
                            || tn.starts_with('&')
                        {
                            self.ed.rep(ia, ib, "");
                            self.rep.dropped.push(format!("impl {} for {} ({})", tr, tn, self.module));
                            continue;
                        }
                        inherent = false;
                        self.rep.rewrites.push(format!("{}: impl {} for {} => inherent impl", self.module, tr, tn));
                        // drop `Trait for`; type parameters that only the trait mentions move to the methods
                        if let Some(m) = self.assoc.get(&tn) {
                            assoc = m.clone();
                        }
                        for i in &im.items {
                            if let syn::ImplItem::Type(t) = i {
                                let (x, y) = range(&t.ty);
                                assoc.insert(t.ident.to_string(), self.src[x..y].to_string());
                            }
                        }
                        self.assoc.entry(tn.clone()).or_default().extend(assoc.clone());
                        let mut st = vec![];
                        flat(im.self_ty.to_token_stream(), &mut st);
                        let (sa, sb) = range(&im.self_ty);
                        let mut keep = vec![];
                        let mut mv_names = vec![];
                        for g in &im.generics.params {
                            let (x, y) = range(g);
                            let text = self.src[x..y].to_string();
                            match g {
                                syn::GenericParam::Type(t) if !st.iter().any(|k| k.t == t.ident.to_string()) => {
                                    mv_names.push(t.ident.to_string());
                                    moved.0.push(text);
                                }
                                _ => keep.push(text),
                            }
                        }
                        let mut kp = vec![];
                        if let Some(w) = &im.generics.where_clause {
                            for pr in &w.predicates {
                                let (x, y) = range(pr);
                                let text = self.src[x..y].to_string();
                                let mut pt = vec![];
                                flat(pr.to_token_stream(), &mut pt);
                                if pt.iter().any(|k| mv_names.contains(&k.t)) {
                                    moved.1.push(text);
                                } else {
                                    kp.push(text);
                                }
                            }
                        }
                        let (ba, _) = range(&im.brace_token.span.open());
                        let (_, ib0) = range(&im.impl_token);
                        let mut h = String::new();
                        if !keep.is_empty() {
                            h.push_str(&format!("<{}>", keep.join(", ")));
                        }
                        h.push_str(&format!(" {}", &self.src[sa..sb]));
                        if !kp.is_empty() {
                            h.push_str(&format!(" where {}", kp.join(", ")));
                        }
                        h.push(' ');
                        self.ed.rep(ib0, ba, &h);
                        base = full;
                    }
                    if is_test(&im.attrs) || self.skipped(&base) {
                        self.ed.rep(ia, ib, "");
                        self.rep.dropped.push(format!("impl {}", base));
                        continue;
                    }
                    self.strip_attrs(&im.attrs);
                    for i in &im.items {
                        let (xa, xb) = range(i);
                        match i {
                            syn::ImplItem::Fn(f) => {
                                let path = format!("{}::{}", base, f.sig.ident);
                                if !self.skipped(&path) {
                                    if !moved.0.is_empty() {
                                        match &f.sig.generics.lt_token {
                                            Some(l) => self.ed.ins(range(l).1, &format!("{}, ", moved.0.join(", "))),
                                            None => self.ed.ins(range(&f.sig.ident).1, &format!("<{}>", moved.0.join(", "))),
                                        }
                                    }
                                    if !moved.1.is_empty() {
                                        let kw = match &f.sig.generics.where_clause {
                                            Some(w) if w.predicates.trailing_punct() => "",
                                            Some(_) => ",",
                                            None => "where",
                                        };
                                        let at = range(&f.block.brace_token.span.open()).0;
                                        self.ed.ins_outer(at, &format!("{} {},", kw, moved.1.join(", ")));
                                    }
                                    // Self::Assoc in signature and body
                                    let mut v = vec![];
                                    flat(f.to_token_stream(), &mut v);
                                    for w in v.windows(4) {
                                        if w[0].t == "Self" && w[1].t == ":" && w[2].t == ":" {
                                            if let Some(t) = assoc.get(&w[3].t) {
                                                let t = if w[0].a >= range(&f.block).0 && !t.contains("::<") && !t.starts_with('&') && !t.starts_with('(') {
                                                    t.replacen('<', "::<", 1)
                                                } else {
                                                    t.clone()
                                                };
                                                self.ed.rep(w[0].a, w[3].b, &t);
                                            }
                                        }
                                    }
                                }
                                let vis = if inherent { Some(&f.vis) } else { None };
                                let inh = syn::Visibility::Inherited;
                                let vis = if kept { None } else { Some(vis.unwrap_or(&inh)) };
                                self.function(&path, &f.attrs, vis, &f.sig, &f.block, (xa, xb), f.to_token_stream())?;
                            }
                            syn::ImplItem::Type(_) => self.ed.rep(xa, xb, ""),
                            syn::ImplItem::Const(c) => {
                                self.vis(&c.vis, range(&c.const_token).0);
                            }
                            _ => {}
                        }
                    }
                }
                syn::Item::Mod(m) => {
                    self.ed.rep(ia, ib, "");
                    if !is_test(&m.attrs) && m.content.is_some() {
                        self.rep.dropped.push(format!("mod {}::{}", self.module, m.ident));
                    }
                }
                other => {
                    self.ed.rep(ia, ib, "");
                    let t = other.to_token_stream().to_string();
                    self.rep.dropped.push(format!("item in {}: {}", self.module, t.chars().take(60).collect::<String>()));
                }
            }
        }
        Ok(())
    }
}

fn trait_of(im: &syn::ItemImpl) -> Option<(Option<()>, &syn::Path, ())> {
    im.trait_.as_ref().map(|t| (None, &t.0, ()))
}

#[derive(Default)]
struct Tree {
    text: String,
    kids: BTreeMap<String, Tree>,
    order: Vec<String>,
}
fn emit(t: &Tree, out: &mut String) {
    out.push_str(&t.text);
    for k in &t.order {
        out.push_str(&format!("\npub mod {} {{\n", k));
        emit(&t.kids[k], out);
        out.push_str(&format!("\n}} // mod {}\n", k));
    }
}

struct Nested(usize, Vec<(usize, usize, String)>);
impl<'ast> Visit<'ast> for Nested {
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if self.0 > 0 {
            let (a, b) = range(f);
            self.1.push((a, b, f.sig.ident.to_string()));
            return;
        }
        self.0 += 1;
        visit::visit_item_fn(self, f);
        self.0 -= 1;
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.0 += 1;
        visit::visit_impl_item_fn(self, f);
        self.0 -= 1;
    }
}
/// functions nested in function bodies (they capture nothing) become functions of the module
fn hoist(mut src: String, module: &str, rep: &mut Report) -> Result<String, String> {
    loop {
        let file = syn::parse_file(&src).map_err(|e| e.to_string())?;
        let mut n = Nested(0, vec![]);
        n.visit_file(&file);
        let (a, b, name) = match n.1.into_iter().next() {
            None => return Ok(src),
            Some(x) => x,
        };
        if file.items.iter().any(|i| matches!(i, syn::Item::Fn(f) if f.sig.ident == name)) {
            return Err(format!("two functions named {} after moving nested functions out", name));
        }
        let body = src[a..b].to_string();
        let blank: String = body.chars().map(|c| if c == '\n' { c } else { ' ' }).collect();
        src = format!("{}{}{}\n{}\n", &src[..a], blank, &src[b..], body);
        rep.rewrites.push(format!("{}: nested fn {} moved to module level", module, name));
    }
}

/// replaces the uses of a macro_rules macro with one arm by its body
fn expand(repo: &str, mut src: String, m: &(String, String), module: &str, rep: &mut Report) -> Result<String, String> {
    let p = format!("{}/{}", repo, m.0);
    let def = fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
    let file = syn::parse_file(&def).map_err(|e| e.to_string())?;
    let mac = file
        .items
        .iter()
        .find_map(|i| match i {
            syn::Item::Macro(x) if x.ident.as_ref().map_or(false, |i| *i == m.1) => Some(&x.mac),
            _ => None,
        })
        .ok_or_else(|| format!("{}: no macro {}", p, m.1))?;
    let tt: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
    let groups: Vec<&proc_macro2::Group> = tt.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
    if groups.len() != 2 {
        return Err(format!("macro {} has more than one arm", m.1));
    }
    let pat: Vec<TokenTree> = groups[0].stream().into_iter().collect();
    let mut params = vec![];
    for w in pat.windows(2) {
        if let (TokenTree::Punct(d), TokenTree::Ident(i)) = (&w[0], &w[1]) {
            if d.as_char() == '$' {
                params.push(i.to_string());
            }
        }
    }
    let body = def[groups[1].span_open().byte_range().end..groups[1].span_close().byte_range().start].to_string();
    struct Find<'a>(&'a str, Option<(usize, usize, Vec<(usize, usize)>)>);
    impl<'ast, 'a> Visit<'ast> for Find<'a> {
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if self.1.is_none() && m.path.is_ident(self.0) {
                let mut args = vec![];
                let mut cur: Option<(usize, usize)> = None;
                for t in m.tokens.clone() {
                    let r = t.span().byte_range();
                    match &t {
                        TokenTree::Punct(p) if p.as_char() == ',' => args.extend(cur.take()),
                        _ => cur = Some((cur.map_or(r.start, |c| c.0), r.end)),
                    }
                }
                args.extend(cur);
                let (a, b) = range(m);
                self.1 = Some((a, b, args));
            }
        }
    }
    let mut n = 0;
    loop {
        let file = syn::parse_file(&src).map_err(|e| e.to_string())?;
        let mut f = Find(&m.1, None);
        f.visit_file(&file);
        let (a, b, args) = match f.1 {
            None => break,
            Some(x) => x,
        };
        // a `,` inside `<..>` splits a type argument: glue from the left
        let mut args: Vec<String> = args.iter().map(|x| src[x.0..x.1].to_string()).collect();
        while args.len() > params.len() {
            let x = args.remove(1);
            args[0] = format!("{}, {}", args[0], x);
        }
        if args.len() != params.len() {
            return Err(format!("arguments of {}!", m.1));
        }
        let mut t = body.clone();
        for (p, x) in params.iter().zip(args) {
            t = t.replace(&format!("${}", p), &x);
        }
        let t = t.replace('\n', " ");
        src = format!("{}{}{}", &src[..a], t, &src[b..]);
        n += 1;
    }
    if n > 0 {
        rep.rewrites.push(format!("{}: {} uses of {}! expanded", module, n, m.1));
    }
    Ok(src)
}

pub fn run(repo: &str, ov: &Overlay, rep: &mut Report) -> Result<String, String> {
    let mut root = Tree::default();
    let mut used = BTreeSet::new();
    let mut texts: Vec<(String, String)> = vec![];
    for (f, m) in &ov.files {
        let p = format!("{}/{}", repo, f);
        let src = fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
        let mut src = src;
        for mc in &ov.macros {
            src = expand(repo, src, mc, m, rep).map_err(|e| format!("{}: {}", p, e))?;
        }
        let src = hoist(src, m, rep).map_err(|e| format!("{}: {}", p, e))?;
        let src = match ov.raw.get(m) {
            None => src,
            Some(c) => {
                let (t, n) = crate::rawptr::rewrite(&src, c).map_err(|e| format!("{}: {}", p, e))?;
                rep.rewrites.push(format!("{}: {} raw pointer operations => operations on an explicit heap", m, n));
                t
            }
        };
        let file = syn::parse_file(&src).map_err(|e| format!("{}: {}", p, e))?;
        let mut cx = Ctx { src: &src, file: f.clone(), module: m.clone(), ov, ed: Edits::default(), rep, used: &mut used, assoc: BTreeMap::new() };
        for a in &file.attrs {
            let (x, y) = range(a);
            cx.ed.rep(x, y, "");
        }
        cx.items(&file.items)?;
        let ed = std::mem::take(&mut cx.ed);
        let mut t = String::from("use vstd::prelude::*; use crate::vp::*;\n");
        t.push_str(&ed.apply(&src, 0, src.len())?);
        texts.push((m.clone(), t));
    }
    for (m, s) in &ov.specs {
        match texts.iter_mut().find(|t| t.0 == *m) {
            Some(t) => {
                t.1.push_str("\n// ---- overlay ----\n");
                t.1.push_str(s);
            }
            None => texts.push((m.clone(), format!("use vstd::prelude::*; use crate::vp::*;\n{}", s))),
        }
    }
    for (m, t) in texts {
        let mut n = &mut root;
        for seg in m.split("::") {
            if !n.kids.contains_key(seg) {
                n.order.push(seg.to_string());
                n.kids.insert(seg.to_string(), Tree::default());
            }
            n = n.kids.get_mut(seg).unwrap();
        }
        n.text.push_str(&t);
    }
    for k in ov.fns.keys() {
        if !used.contains(k) {
            rep.missing.push(k.clone());
        }
    }
    let mut out = String::from("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n");
    let f: String = ov.features.iter().map(|f| format!("#![feature({})]\n", f)).collect();
    out.insert_str(0, &f);
    out.push_str(&ov.prelude);
    emit(&root, &mut out);
    out.push_str("\n} // verus!\nfn main() {}\n");
    Ok(out)
}
