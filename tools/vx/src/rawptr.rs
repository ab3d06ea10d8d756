//! Raw pointers. In a module with a `//@ rawptr` section every dereference of a raw pointer
//! becomes a call on an explicit heap, because the verifier has no model of memory reached
//! through `*mut`:
//!   `*mut N`, `&*mut N`, `&mut *mut N`   =>  `Ptr`, `Slot` (copyable handles)
//!   `(*p).entry`, `(**s).entry`          =>  `p.entry(H)`, `s.rd(H).entry(H)`
//!   `(*p).get_pointer(h)`                =>  `p.slot(h, H)`
//!   `*s`, `*s = v`                       =>  `s.rd(H)`, `s.wr(v, H)`
//!   `ptr::read/write/drop_in_place/write_bytes`, `Node::allocate/...`  =>  operations on H
//! where H is the heap of the function (`self.heap` unless the overlay names another).
//! Nothing else of the text changes; the contracts of the operations are in specs/rawptr.vs.
use crate::edits::Edits;
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Debug)]
pub struct Heap {
    pub shared: String,
    pub excl: String,
    pub lit: String,
}
#[derive(Default, Debug)]
pub struct Cfg {
    pub generics: String,                 // type arguments of the nodes of this module
    pub link_fields: bool,                // links are (next, distance) records
    pub fields: BTreeMap<String, String>, // struct => extra field
    pub heaps: BTreeMap<String, Heap>,    // fn (module-relative path) => heap
    pub keep: Vec<String>,                // fns left alone
    pub params: BTreeMap<String, String>, // fn => extra parameter
}

fn rg<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}
fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        o => o,
    }
}
fn deref(e: &Expr) -> Option<&Expr> {
    match peel(e) {
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => Some(expr),
        _ => None,
    }
}
fn call_name(e: &ExprCall) -> String {
    match &*e.func {
        Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
        _ => String::new(),
    }
}
fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}

struct W<'a> {
    src: &'a str,
    ed: Edits,
    cfg: &'a Cfg,
    cur: Option<Heap>,
    ty: String,
    alias: Option<(String, String)>, // loop variable => array element
    reads: usize,
    bad: Vec<String>,
    nested_keep: bool,
    n: usize,
}

impl<'a> W<'a> {
    fn h(&self) -> String {
        format!("Tracked({})", self.cur.as_ref().map(|h| h.shared.clone()).unwrap_or("self.heap.borrow()".into()))
    }
    fn hm(&self) -> String {
        format!("Tracked({})", self.cur.as_ref().map(|h| h.excl.clone()).unwrap_or("self.heap.borrow_mut()".into()))
    }
    fn del(&mut self, a: usize, b: usize) {
        self.ed.rep(a, b, "");
    }
    fn is_alias(&self, e: &Expr) -> bool {
        match (peel(e), &self.alias) {
            (Expr::Path(p), Some((v, _))) => p.path.is_ident(v),
            _ => false,
        }
    }
    // the pointer P of a place (*P): the text of P remains
    fn base(&mut self, e: &Expr) {
        let inner = deref(e).unwrap();
        let (a, b) = rg(e);
        let (ia, ib) = rg(inner);
        self.del(a, ia);
        if ib < b {
            self.del(ib, b);
        }
        self.n += 1;
        self.val(inner);
    }
    // e as a value
    fn val(&mut self, e: &Expr) {
        self.visit_expr(e);
    }
    fn place(&mut self, e: &Expr, excl: bool) {
        // field chain on a dereferenced pointer, taken by (mutable) reference
        match e {
            Expr::Field(f) if deref(&f.base).is_none() => {
                let (_, b) = rg(&*f.base);
                let _ = b;
                self.place(&f.base, excl);
            }
            Expr::Field(f) => {
                let m = member(&f.member);
                self.base(&f.base);
                let (_, b) = rg(&f.member);
                if m == "entry" || m == "value" {
                    let t = if excl { format!("_mut({})", self.hm()) } else { format!("({})", self.h()) };
                    self.ed.ins(b, &t);
                } else if m == "links_len" {
                    let t = format!("({})", self.h());
                    self.ed.ins(b, &t);
                } else {
                    self.bad.push(format!("field {} of a node", m));
                }
            }
            o => self.val(o),
        }
    }
    fn chain(e: &Expr) -> Option<(&Expr, Vec<String>)> {
        match e {
            Expr::Field(f) => {
                let m = member(&f.member);
                if deref(&f.base).is_some() {
                    Some((&f.base, vec![m]))
                } else {
                    let (b, mut v) = Self::chain(&f.base)?;
                    v.push(m);
                    Some((b, v))
                }
            }
            _ => None,
        }
    }
    // is e the field `head`, by value, of a path
    fn head(e: &Expr) -> bool {
        matches!(e, Expr::Field(f) if member(&f.member) == "head" && matches!(peel(&f.base), Expr::Path(_)))
    }
    fn link_field<'b>(&self, e: &'b Expr) -> Option<(&'b Expr, String, (usize, usize))> {
        if !self.cfg.link_fields {
            return None;
        }
        match e {
            Expr::Field(f) => {
                let m = member(&f.member);
                if m == "next" || m == "distance" {
                    Some((&f.base, m, rg(&f.member)))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

impl<'a, 'ast> Visit<'ast> for W<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        let (a, b) = rg(e);
        if let Some((base, m, (_, mb))) = self.link_field(e) {
            self.val(base);
            let _ = m;
            let t = format!("({})", self.h());
            self.ed.ins(mb, &t);
            self.n += 1;
            return;
        }
        match e {
            Expr::Unsafe(u) => {
                let (x, y) = rg(&u.unsafe_token);
                self.del(x, y);
                visit::visit_expr(self, e);
            }
            Expr::Field(f) if deref(&f.base).is_some() => self.place(e, false),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let (na, nb) = rg(&m.method);
                let close = rg(&m.paren_token.span.close()).0;
                if (name == "get_pointer" || name == "get_pointer_mut") && deref(&m.receiver).is_some() {
                    self.base(&m.receiver);
                    self.ed.rep(na, nb, "slot");
                    for x in &m.args {
                        self.val(x);
                    }
                    let t = format!(", {}", self.h());
                    self.ed.ins(close, &t);
                } else if (name == "as_ptr" || name == "as_mut_ptr") && matches!(&*m.receiver, Expr::Field(f) if member(&f.member) == "links" && deref(&f.base).is_some()) {
                    if let Expr::Field(f) = &*m.receiver {
                        self.base(&f.base);
                        let (_, fb) = rg(&*f.base);
                        self.ed.rep(fb, nb, ".slot");
                        let t = format!("0, {}", self.h());
                        self.ed.ins(close, &t);
                    }
                } else if name == "get_unchecked" || name == "get_unchecked_mut" {
                    self.bad.push(name);
                } else if name == "is_null" {
                    self.val(&m.receiver);
                    let t = self.h();
                    self.ed.ins(close, &t);
                    self.n += 1;
                } else {
                    visit::visit_expr(self, e);
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if self.is_alias(expr) {
                    let t = self.alias.clone().unwrap().1;
                    self.ed.rep(a, b, &t);
                    return;
                }
                let (x, y) = rg(&**expr);
                self.del(a, x);
                self.val(expr);
                let t = format!(".rd({})", self.h());
                self.ed.ins(y, &t);
                self.n += 1;
            }
            Expr::Assign(s) => {
                let (ra, rb) = rg(&*s.right);
                let (la, lb) = rg(&*s.left);
                if let Some(inner) = deref(&s.left) {
                    if self.is_alias(inner) {
                        let t = self.alias.clone().unwrap().1;
                        self.ed.rep(la, lb, &t);
                        self.val(&s.right);
                        return;
                    }
                    let (x, y) = rg(inner);
                    self.del(la, x);
                    self.val(inner);
                    if y < lb {
                        self.del(y, lb);
                    }
                    self.ed.rep(lb, ra, ".wr(");
                    self.val(&s.right);
                    let t = format!(", {})", self.hm());
                    self.ed.ins(rb, &t);
                    self.n += 1;
                } else if let Some((base, m, (ma, _))) = self.link_field(&s.left) {
                    self.val(base);
                    self.ed.rep(ma, ra, &format!("set_{}(", m));
                    self.val(&s.right);
                    let t = format!(", {})", self.hm());
                    self.ed.ins(rb, &t);
                    self.n += 1;
                } else if Self::chain(&s.left).is_some() {
                    self.bad.push("assignment to a field of a node".into());
                } else if let (true, Expr::Field(f)) = (self.cfg.link_fields, &*s.left) {
                    // a[i].k = e
                    match (&*f.base, member(&f.member).as_str()) {
                        (Expr::Index(_), "0") | (Expr::Index(_), "1") => {
                            let arr = self.src[rg(&*f.base).0..rg(&*f.base).1].to_string();
                            let (x, y) = if member(&f.member) == "0" {
                                (format!("let vx_t = {}; {} = (", arr, arr), ", vx_t.1)")
                            } else {
                                (format!("let vx_t = {}; {} = (vx_t.0, ", arr, arr), ")")
                            };
                            self.ed.rep(la, ra, &x);
                            self.val(&s.right);
                            self.ed.ins(rb, y);
                        }
                        _ => visit::visit_expr(self, e),
                    }
                } else {
                    visit::visit_expr(self, e);
                }
            }
            Expr::Binary(bn) => {
                let (la, lb) = rg(&*bn.left);
                let (ra, rb) = rg(&*bn.right);
                let op = match bn.op {
                    BinOp::AddAssign(_) => "add",
                    BinOp::SubAssign(_) => "sub",
                    _ => "",
                };
                if !op.is_empty() {
                    if let Some((base, m, (ma, _))) = self.link_field(&bn.left) {
                        self.val(base);
                        self.ed.rep(ma, ra, &format!("{}_{}(", op, m));
                        self.val(&bn.right);
                        let t = format!(", {})", self.hm());
                        self.ed.ins(rb, &t);
                        self.n += 1;
                        return;
                    }
                    // a[i].k += e
                    if let Expr::Field(f) = &*bn.left {
                        if let Expr::Index(_) = &*f.base {
                            let arr = self.src[rg(&*f.base).0..rg(&*f.base).1].to_string();
                            let m = member(&f.member);
                            let (x, y) = match m.as_str() {
                                "0" => (format!("let vx_t = {}; {} = (vx_t.0 {} ", arr, arr, if op == "add" { "+" } else { "-" }), ", vx_t.1)".to_string()),
                                "1" => (format!("let vx_t = {}; {} = (vx_t.0, vx_t.1 {} ", arr, arr, if op == "add" { "+" } else { "-" }), ")".to_string()),
                                _ => {
                                    self.bad.push("compound assignment".into());
                                    return;
                                }
                            };
                            self.ed.rep(la, ra, &format!("{}(", x));
                            self.val(&bn.right);
                            self.ed.ins(rb, &format!("){}", y));
                            return;
                        }
                    }
                    visit::visit_expr(self, e);
                    return;
                }
                let f = match bn.op {
                    BinOp::Lt(_) => "lt",
                    BinOp::Le(_) => "le",
                    BinOp::Gt(_) => "gt",
                    BinOp::Ge(_) => "ge",
                    BinOp::Eq(_) => "eq",
                    BinOp::Ne(_) => "ne",
                    _ => "",
                };
                if f == "eq" || f == "ne" {
                    if let Expr::Reference(r) = &*bn.right {
                        if Self::head(&r.expr) {
                            self.ed.ins_outer(la, if f == "eq" { "crate::rp::same(" } else { "!crate::rp::same(" });
                            self.val(&bn.left);
                            self.ed.rep(lb, ra, ", ");
                            self.val(&bn.right);
                            let t = format!(", {})", self.h());
                            self.ed.ins(rb, &t);
                            self.n += 1;
                            return;
                        }
                    }
                }
                if !f.is_empty() {
                    let l = &self.src[la..lb];
                    let r = &self.src[ra..rb];
                    let place = |e: &Expr| matches!(Self::chain(e), Some((_, v)) if v.last().map(|s| s == "key" || s == "entry" || s == "value").unwrap_or(false));
                    let key = |t: &str| t.contains(".key");
                    if key(l) || key(r) {
                        let (p, q) = (place(&bn.left), place(&bn.right));
                        self.ed.ins_outer(la, &format!("crate::vp::{}({}", f, if p { "&" } else { "" }));
                        self.val(&bn.left);
                        self.ed.rep(lb, ra, if q { ", &" } else { ", " });
                        self.val(&bn.right);
                        self.ed.ins(rb, ")");
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Reference(r) => {
                let (ia, ib) = rg(&*r.expr);
                let _ = ib;
                if let Some(inner) = deref(&r.expr) {
                    // &*X, &mut *X
                    let (x, y) = rg(inner);
                    self.del(a, x);
                    self.val(inner);
                    if y < b {
                        self.del(y, b);
                    }
                    self.n += 1;
                } else if Self::head(&r.expr) {
                    self.ed.rep(a, ia, "crate::rp::Slot::Loc(");
                    self.ed.ins(b, ")");
                    self.n += 1;
                } else if let Some((base, m, (ma, mb))) = self.link_field(&r.expr) {
                    if m != "next" {
                        self.bad.push("reference to a distance".into());
                    }
                    let (x, _) = rg(base);
                    self.del(a, x);
                    self.val(base);
                    let t = format!("next_slot({})", self.h());
                    self.ed.rep(ma, mb, &t);
                    self.n += 1;
                } else if Self::chain(&r.expr).is_some() {
                    if matches!(Self::chain(&r.expr), Some((_, v)) if v == ["value"]) {
                        // a whole value: the operation gives the reference
                        self.del(a, ia);
                    }
                    self.place(&r.expr, r.mutability.is_some());
                } else {
                    visit::visit_expr(self, e);
                }
            }
            Expr::Call(c) => {
                let n = call_name(c);
                let close = rg(&c.paren_token.span.close()).0;
                let last = n.rsplit("::").next().unwrap_or("").to_string();
                if (n.starts_with("Node::") || n.starts_with("Self::")) && ["new", "allocate", "deallocate", "free"].contains(&last.as_str()) && (n.starts_with("Node::") || self.ty == "Node") {
                    for x in &c.args {
                        self.val(x);
                    }
                    let t = format!(", {}", self.hm());
                    self.ed.ins(close, &t);
                    self.n += 1;
                } else if last == "replace" && c.args.len() == 2 {
                    let lit = self.cfg.link_fields && matches!(&c.args[1], Expr::Struct(_));
                    match &c.args[0] {
                        Expr::Reference(r) if !lit => {
                            // a local variable or the field head: std::mem::replace
                            if !Self::head(&r.expr) {
                                self.val(&r.expr);
                            }
                            self.val(&c.args[1]);
                        }
                        x => {
                            let y = match x {
                                Expr::Reference(r) => &*r.expr,
                                o => o,
                            };
                            let (ya, yb) = rg(y);
                            self.del(a, ya);
                            self.val(y);
                            let (b0, b1) = rg(&c.args[1]);
                            self.ed.rep(yb, b0, ".replace(");
                            self.val(&c.args[1]);
                            let t = format!(", {}", self.hm());
                            if b1 < close {
                                self.del(b1, close);
                            }
                            self.ed.ins(close, &t);
                            self.n += 1;
                        }
                    }
                } else if n == "mem::swap" && self.cfg.link_fields {
                    let (fa, fb) = rg(&*c.func);
                    self.ed.rep(fa, fb, "crate::rp::lswap");
                    let end = rg(c.args.last().unwrap()).1;
                    for x in &c.args {
                        self.val(x);
                    }
                    if end < close {
                        self.del(end, close);
                    }
                    let t = format!(", {}", self.hm());
                    self.ed.ins(close, &t);
                    self.n += 1;
                } else if n == "ptr::read" || n == "ptr::write" || n == "ptr::drop_in_place" {
                    let what = match n.as_str() {
                        "ptr::read" => "read",
                        "ptr::write" => "write",
                        _ => "drop",
                    };
                    let tgt = match &c.args[0] {
                        Expr::Reference(r) => &*r.expr,
                        _ => {
                            self.bad.push(n);
                            return;
                        }
                    };
                    match Self::chain(tgt) {
                        Some((base, ms)) => {
                            let (ba, bb) = rg(base);
                            self.del(a, ba);
                            self.base(base);
                            let nm = format!(".{}_{}(", what, ms.join("_"));
                            if what == "write" {
                                let (b0, b1) = rg(&c.args[1]);
                                self.ed.rep(bb, b0, &nm);
                                self.val(&c.args[1]);
                                self.del(b1, close);
                                let t = format!(", {}", self.hm());
                                self.ed.ins(close, &t);
                            } else {
                                self.ed.rep(bb, close, &nm);
                                let t = self.hm();
                                self.ed.ins(close, &t);
                            }
                            self.n += 1;
                        }
                        None => self.bad.push(n),
                    }
                } else if n == "ptr::write_bytes" {
                    if c.args.len() != 3 || self.src[rg(&c.args[1]).0..rg(&c.args[1]).1].trim() != "0" {
                        self.bad.push("write_bytes".into());
                        return;
                    }
                    let (s0, s1) = rg(&c.args[0]);
                    let (c0, c1) = rg(&c.args[2]);
                    self.del(a, s0);
                    self.val(&c.args[0]);
                    self.ed.rep(s1, c0, ".zero(");
                    self.val(&c.args[2]);
                    if c1 < close {
                        self.del(c1, close);
                    }
                    let t = format!(", {}", self.hm());
                    self.ed.ins(close, &t);
                    self.n += 1;
                } else {
                    visit::visit_expr(self, e);
                }
            }
            Expr::Struct(s) => {
                visit::visit_expr(self, e);
                let last = s.path.segments.last().unwrap().ident.to_string();
                let is = self.cfg.fields.contains_key(&last) || last == "IntoIter" || last == "Self" && self.cfg.fields.contains_key(&self.ty);
                if is {
                    let close = rg(&s.brace_token.span.close()).0;
                    let lit = self.cur.as_ref().map(|h| h.lit.clone()).unwrap_or_default();
                    if lit.is_empty() {
                        self.bad.push(format!("struct literal {}", last));
                    }
                    let end = s.fields.last().map(|f| rg(f).1).unwrap_or(close);
                    self.ed.rep(end, close, &format!(", heap: {} ", lit));
                }
            }
            Expr::ForLoop(f) => {
                // for (i, x) in a.iter_mut().enumerate().take(n)
                let mut done = false;
                if let (Expr::MethodCall(t), Pat::Tuple(p)) = (&*f.expr, &*f.pat) {
                    if t.method == "take" && t.args.len() == 1 && p.elems.len() == 2 {
                        if let Expr::MethodCall(en) = &*t.receiver {
                            if en.method == "enumerate" {
                                if let Expr::MethodCall(im) = &*en.receiver {
                                    if im.method == "iter_mut" {
                                        let tx = |x: (usize, usize)| self.src[x.0..x.1].to_string();
                                        let arr = tx(rg(&*im.receiver));
                                        let i = tx(rg(&p.elems[0]));
                                        let v = tx(rg(&p.elems[1]));
                                        let (pa, pb) = rg(&*f.pat);
                                        self.ed.rep(pa, pb, &i);
                                        let (xa, xb) = rg(&*f.expr);
                                        let (n0, n1) = rg(&t.args[0]);
                                        self.ed.rep(xa, n0, &format!("0..crate::rp::least({}.len(), ", arr));
                                        self.val(&t.args[0]);
                                        self.ed.rep(n1, xb, ")");
                                        self.alias = Some((v, format!("{}[{}]", arr, i)));
                                        self.visit_block(&f.body);
                                        self.alias = None;
                                        done = true;
                                        self.n += 1;
                                    }
                                }
                            }
                        }
                    }
                }
                if !done {
                    if let Expr::Range(r) = &*f.expr {
                        if let (RangeLimits::Closed(c), Some(end)) = (&r.limits, &r.end) {
                            let (c0, c1) = rg(c);
                            self.ed.rep(c0, c1, "..");
                            let (_, e1) = rg(&**end);
                            self.ed.ins(e1, " + 1");
                        }
                    }
                    visit::visit_expr(self, e);
                }
            }
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_local(&mut self, l: &'ast Local) {
        // let Entry { ref key, ref mut value } = (**p).entry
        let mut m = None;
        struct R(Option<bool>, Vec<(usize, usize)>);
        impl<'ast> Visit<'ast> for R {
            fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                if let Some(r) = &p.by_ref {
                    let a = rg(r).0;
                    let b = rg(&p.ident).0;
                    self.0 = Some(self.0.unwrap_or(false) || p.mutability.is_some());
                    self.1.push((a, b));
                }
            }
        }
        let mut r = R(None, vec![]);
        r.visit_pat(&l.pat);
        if let (Some(mu), Some(init)) = (r.0, &l.init) {
            if Self::chain(&init.expr).is_some() {
                for (a, b) in r.1 {
                    self.del(a, b);
                }
                m = Some(mu);
            }
        }
        self.visit_pat(&l.pat);
        if let Some(i) = &l.init {
            match m {
                Some(mu) => {
                    let e = &*i.expr;
                    // evaluated as a reference
                    self.place(e, mu);
                }
                None => {
                    self.visit_expr(&i.expr);
                }
            }
        }
    }
    fn visit_type(&mut self, t: &'ast Type) {
        match t {
            Type::Ptr(p) => {
                let (a, b) = rg(p);
                self.ed.rep(a, b, "crate::rp::Ptr");
                self.n += 1;
            }
            Type::Reference(r) if matches!(&*r.elem, Type::Ptr(_)) => {
                let (a, b) = rg(r);
                self.ed.rep(a, b, "crate::rp::Slot");
                self.n += 1;
            }
            // the link record is crate::rp::Link
            Type::Path(p) if self.cfg.link_fields && p.path.segments.last().unwrap().ident == "Link" => {
                let (a, b) = rg(p);
                self.ed.rep(a, b, "crate::rp::Link");
            }
            _ => visit::visit_type(self, t),
        }
    }
    fn visit_item_struct(&mut self, s: &'ast ItemStruct) {
        if self.cfg.link_fields && s.ident == "Link" {
            let f: Vec<String> = s.fields.iter().map(|f| self.src[rg(f).0..rg(f).1].split_whitespace().collect::<Vec<_>>().join(" ")).collect();
            if f != ["next: *mut Node<T>", "distance: usize"] {
                self.bad.push(format!("struct Link {{ {} }}", f.join(", ")));
            }
        }
        visit::visit_item_struct(self, s);
        if let (Some(f), Fields::Named(n)) = (self.cfg.fields.get(&s.ident.to_string()), &s.fields) {
            let close = rg(&n.brace_token.span.close()).0;
            let end = n.named.last().map(|f| rg(f).1).unwrap_or(close);
            self.ed.rep(end, close, &format!(", {} ", f));
        }
    }
    fn visit_item_impl(&mut self, i: &'ast ItemImpl) {
        let mut t = match &*i.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => String::new(),
        };
        if let Some((p, ..)) = i.trait_.as_ref().map(|t| (&t.0,)) {
            t = format!("{}::{}", t, p.segments.last().unwrap().ident);
        }
        self.ty = t;
        visit::visit_item_impl(self, i);
        self.ty = String::new();
    }
    fn visit_item_mod(&mut self, _: &'ast ItemMod) {}
    fn visit_impl_item_fn(&mut self, f: &'ast ImplItemFn) {
        let path = format!("{}::{}", self.ty, f.sig.ident);
        if self.cfg.keep.contains(&path) {
            return;
        }
        self.cur = self.cfg.heaps.get(&path).cloned();
        if let Safety::Unsafe(u) = &f.sig.safety {
            let (a, b) = rg(u);
            self.del(a, b);
        }
        if let Some(p) = self.cfg.params.get(&path) {
            let close = rg(&f.sig.paren_token.span.close()).0;
            let end = f.sig.inputs.last().map(|f| rg(f).1).unwrap_or(close);
            self.ed.rep(end, close, &format!("{}{}", if f.sig.inputs.is_empty() { "" } else { ", " }, p));
        }
        visit::visit_impl_item_fn(self, f);
        self.cur = None;
    }
}

/// Returns the rewritten text and the number of rewritten places.
pub fn rewrite(src: &str, cfg: &Cfg) -> std::result::Result<(String, usize), String> {
    let file = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut w = W { src, ed: Edits::default(), cfg, cur: None, ty: String::new(), alias: None, reads: 0, bad: vec![], nested_keep: false, n: 0 };
    w.visit_file(&file);
    let _ = (w.reads, w.nested_keep);
    if !w.bad.is_empty() {
        return Err(format!("raw pointers: {}", w.bad.join("; ")));
    }
    let n = w.n;
    let t = w.ed.apply(src, 0, src.len())?;
    Ok((typed(&t, &cfg.generics), n))
}

/// Names the type arguments of every call that is handed a heap: once the ghost argument is
/// erased nothing else may determine them.
fn typed(t: &str, g: &str) -> String {
    if g.is_empty() {
        return t.to_string();
    }
    let b = t.as_bytes();
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut at: Vec<usize> = vec![];
    for (i, _) in t.match_indices("Tracked(") {
        if i > 0 && id(b[i - 1]) {
            continue;
        }
        let mut depth = 0;
        let mut j = i;
        let mut open = None;
        while j > 0 {
            j -= 1;
            match b[j] {
                b')' | b'}' | b']' => depth += 1,
                b'(' if depth == 0 => {
                    open = Some(j);
                    break;
                }
                b'{' | b'[' | b';' if depth == 0 => break,
                b'(' | b'{' | b'[' => depth -= 1,
                _ => {}
            }
        }
        let o = match open {
            Some(o) if o > 0 && id(b[o - 1]) => o,
            _ => continue,
        };
        let mut k = o;
        while k > 0 && id(b[k - 1]) {
            k -= 1;
        }
        let line = t[..k].rfind(|c: char| c == '\n' || c == ';' || c == '{' || c == '}').map(|x| x + 1).unwrap_or(0);
        let before = t[line..k].trim_end();
        if before.ends_with("fn") {
            continue;
        }
        if before.ends_with("Node::") || before.ends_with("Self::") {
            if before.ends_with("Node::") {
                at.push(k - 2);
            }
        } else if &t[k..o] != "Tracked" && (before.ends_with('.') || before.ends_with("rp::")) {
            at.push(o);
        }
    }
    at.sort();
    at.dedup();
    let mut r = String::new();
    let mut last = 0;
    for a in at {
        r.push_str(&t[last..a]);
        r.push_str(&format!("::<{}>", g));
        last = a;
    }
    r.push_str(&t[last..]);
    r
}
