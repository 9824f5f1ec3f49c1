//! Weaves ghost specifications into a copy of the real source tree.
//!
//!   weave --src DIR --specs DIR --out DIR --prop ID --report FILE
//!
//! Every file of DIR is copied. For a file `a/b.rs` with a spec file `a/b.spec` the weaver parses
//! the file, and makes textual edits only at positions it finds in the syntax tree:
//!   * insertions of ghost text (contracts, invariants, proof blocks, ghost functions),
//!   * a fixed list of mechanical rewrites (counted in the report, see DESIGN.md).
//! All other bytes of the file are carried over unchanged.
//!
//! Exit codes: 0 woven, 3 an anchor of a spec file was not found (the code was restructured).

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::exit;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod inline;
mod spec;
mod state;
use spec::{Anchor, FnSpec, SpecFile};

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    /// origin: line of the spec file for ghost text
    origin: Option<usize>,
    /// ordering among edits at the same start: lower first
    prio: i64,
}

fn lost(file: &str, what: &str) -> ! {
    println!("LOST-ANCHOR {}: {}", file, what);
    exit(3)
}

struct Lines {
    starts: Vec<usize>,
    text: String,
}

impl Lines {
    fn new(text: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Lines { starts, text: text.to_string() }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.starts[lc.line - 1];
        // column counts characters
        let mut o = ls;
        let mut n = 0;
        for c in self.text[ls..].chars() {
            if n == lc.column {
                break;
            }
            n += 1;
            o += c.len_utf8();
        }
        o
    }
    fn start<T: Spanned>(&self, t: &T) -> usize {
        self.off(t.span().start())
    }
    fn end<T: Spanned>(&self, t: &T) -> usize {
        self.off(t.span().end())
    }
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Ctx<'a> {
    file: &'a str,
    lines: &'a Lines,
    edits: Vec<Edit>,
    seq: i64,
    rewrites: BTreeMap<String, usize>,
    /// hints whose place was not found: (function, place)
    dropped: Vec<(String, String)>,
    /// loops and closures without contract, per function
    bare: BTreeMap<String, usize>,
    /// how often the text of a hint's place occurs, per function
    totals: BTreeMap<(String, String), usize>,
}

impl<'a> Ctx<'a> {
    fn insert_before(&mut self, pos: usize, text: String, origin: Option<usize>) {
        self.seq += 1;
        let p = self.seq;
        self.edits.push(Edit { start: pos, end: pos, text, origin, prio: p });
    }
    /// closing insertion: of several at one position the latest comes first
    fn insert_after(&mut self, pos: usize, text: String, origin: Option<usize>) {
        self.seq += 1;
        let p = -self.seq;
        self.edits.push(Edit { start: pos, end: pos, text, origin, prio: p });
    }
    fn replace(&mut self, start: usize, end: usize, text: String) {
        self.seq += 1;
        let p = self.seq;
        self.edits.push(Edit { start, end, text, origin: None, prio: p });
    }
    fn count(&mut self, what: &str) {
        *self.rewrites.entry(what.to_string()).or_insert(0) += 1;
    }
}

/// Walks the body of one function under contract.
struct BodyWalk<'a, 'b> {
    cx: &'b mut Ctx<'a>,
    spec: &'b FnSpec,
    methods: &'b HashMap<String, String>,
    paths: &'b HashMap<String, String>,
    loop_no: usize,
    closure_no: usize,
    iter_no: usize,
    used: HashSet<usize>,
    /// what `self` in the body is called instead
    self_as: Option<&'static str>,
    /// contracts of further library functions are there
    more: bool,
    /// line of the hint, where it was placed
    places: Vec<(usize, usize)>,
    /// normalized text of statements seen, to number repeated anchors
    seen: HashMap<usize, usize>,
}

impl<'a, 'b> BodyWalk<'a, 'b> {
    fn text_of<T: Spanned>(&self, t: &T) -> String {
        self.cx.lines.text[self.cx.lines.start(t)..self.cx.lines.end(t)].to_string()
    }

    fn bare(&mut self, what: &str) {
        *self.cx.bare.entry(format!("{} {}", self.spec.name, what)).or_insert(0) += 1;
    }

    fn loop_text(&mut self, no: usize) -> (String, Option<usize>) {
        for (i, a) in self.spec.anchors.iter().enumerate() {
            if let Anchor::Loop(n) = a.at {
                if n == no {
                    self.used.insert(i);
                    return (format!("\n{}\n", a.text), Some(a.line));
                }
            }
        }
        (String::new(), None)
    }

    fn loop_body(&mut self, no: usize, body: &syn::Block) {
        for (i, a) in self.spec.anchors.iter().enumerate() {
            match a.at {
                Anchor::LoopStart(n) if n == no => {
                    self.used.insert(i);
                    let p = self.cx.lines.start(body) + 1;
                    self.cx.insert_before(p, format!("\n{}\n", a.text), Some(a.line));
                }
                Anchor::LoopEnd(n) if n == no => {
                    self.used.insert(i);
                    let p = self.cx.lines.end(body) - 1;
                    self.cx.insert_after(p, format!("\n{}\n", a.text), Some(a.line));
                }
                _ => {}
            }
        }
    }

    fn loop_init(&mut self, no: usize) -> String {
        let mut t = String::new();
        for (i, a) in self.spec.anchors.iter().enumerate() {
            if let Anchor::LoopInit(n) = a.at {
                if n == no {
                    self.used.insert(i);
                    t.push_str(&format!("\n{}\n", a.text));
                }
            }
        }
        t
    }

    fn around_loop(&mut self, no: usize, start: usize, end: usize) {
        for (i, a) in self.spec.anchors.iter().enumerate() {
            match a.at {
                Anchor::LoopBefore(n) if n == no => {
                    self.used.insert(i);
                    self.cx.insert_before(start, format!("\n{}\n", a.text), Some(a.line));
                }
                Anchor::LoopAfter(n) if n == no => {
                    self.used.insert(i);
                    self.cx.insert_after(end, format!("\n{}\n", a.text), Some(a.line));
                }
                _ => {}
            }
        }
    }

    fn diverge(&mut self, start: usize, end: usize, cond: &str) {
        let t = format!("{{ proof {{ {} }} crate::vshim::diverge() }}", cond);
        self.cx.replace(start, end, t);
    }

    /// a concatenation for a `format!` whose placeholders are all `{}` or `{name}`
    fn formatted(&self, mac: &syn::Macro) -> Option<String> {
        use syn::parse::Parser;
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
            .parse2(mac.tokens.clone())
            .ok()?;
        let mut it = args.iter();
        let lit = match it.next()? {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => l.value(),
            _ => return None,
        };
        let mut parts: Vec<String> = vec![];
        let mut cur = String::new();
        let mut cs = lit.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    cur.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    cur.push('}');
                }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match cs.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    if !name.chars().all(|c| c.is_alphanumeric() || c == '_') || name.chars().next().map(|c| c.is_numeric()).unwrap_or(false) {
                        return None;
                    }
                    if !cur.is_empty() {
                        parts.push(format!("crate::vshim::string_from({:?})", cur));
                    }
                    cur.clear();
                    let x = if name.is_empty() { self.text_of(it.next()?) } else { name };
                    parts.push(format!("crate::vshim::to_text(&({}))", x));
                }
                c => cur.push(c),
            }
        }
        if it.next().is_some() {
            return None;
        }
        if !cur.is_empty() || parts.is_empty() {
            parts.push(format!("crate::vshim::string_from({:?})", cur));
        }
        let mut out = parts.pop()?;
        while let Some(p) = parts.pop() {
            out = format!("crate::vshim::string_cat({}, {})", p, out);
        }
        Some(out)
    }

    /// returns true if the macro was rewritten
    fn mac(&mut self, mac: &syn::Macro, start: usize, end: usize) -> bool {
        let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match name.as_str() {
            "panic" => {
                self.cx.count("panic!(..) -> { proof { assert(<may panic>) } diverge() }");
                let cond = match &self.spec.panic {
                    Some(c) => c.clone(),
                    None => "assert(false);".to_string(),
                };
                self.diverge(start, end, &cond);
                true
            }
            "unreachable" | "unimplemented" | "todo" => {
                self.cx.count("unreachable!() -> { proof { assert(false) } diverge() }");
                self.diverge(start, end, "assert(false);");
                true
            }
            "println" | "eprintln" | "dbg" => {
                self.cx.count("println!/eprintln!/dbg!(..) -> ()");
                self.cx.replace(start, end, "()".to_string());
                true
            }
            "format" => {
                if let (true, Some(t)) = (self.spec.format, self.formatted(mac)) {
                    self.cx.count("format!(\"..{}..\", x) -> string_cat(..to_text(x)..)");
                    self.cx.replace(start, end, t);
                    return true;
                }
                self.cx.count("format!(..) -> fmt_opaque()");
                self.cx.replace(start, end, "crate::vshim::fmt_opaque()".to_string());
                true
            }
            _ => false,
        }
    }

    /// hints whose places are not in the order of the specification any more, or not the only ones of their text
    fn ambiguous(&mut self) {
        let mut places = self.places.clone();
        places.sort();
        if let Some(w) = places.windows(2).find(|w| w[0].1 > w[1].1) {
            self.cx.dropped.push((self.spec.name.clone(), format!("the hint of line {} comes after the one of line {}", w[0].0, w[1].0)));
        }
        for (i, n) in &self.seen {
            if let Anchor::Before(p, _) | Anchor::After(p, _) | Anchor::Arm(p, _) | Anchor::Returning(p, _) = &self.spec.anchors[*i].at {
                self.cx.totals.insert((self.spec.name.clone(), norm(p)), *n);
            }
        }
    }

    fn for_like(&mut self, pat_start: usize, pat_end: usize, body: &syn::Block, no: usize) {
        let _ = (pat_start, pat_end, body, no);
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for BodyWalk<'a, 'b> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let t = norm(&self.text_of(s));
        let (st, en) = (self.cx.lines.start(s), self.cx.lines.end(s));
        for (i, a) in self.spec.anchors.iter().enumerate() {
            match &a.at {
                Anchor::Before(p, n) | Anchor::After(p, n) => {
                    if t.starts_with(&norm(p)) {
                        let c = self.seen.entry(i).or_insert(0);
                        if *c == *n {
                            self.used.insert(i);
                            if let Anchor::Before(..) = a.at {
                                self.places.push((a.line, st));
                                self.cx.insert_before(st, format!("\n{}\n", a.text), Some(a.line));
                            } else {
                                self.cx.insert_after(en, format!("\n{}\n", a.text), Some(a.line));
                            }
                        }
                        *self.seen.get_mut(&i).unwrap() += 1;
                    }
                }
                _ => {}
            }
        }
        if let syn::Stmt::Macro(m) = s {
            let e = self.cx.lines.end(&m.mac);
            if self.mac(&m.mac, self.cx.lines.start(&m.mac), e) {
                return;
            }
        }
        visit::visit_stmt(self, s);
    }

    fn visit_arm(&mut self, arm: &'ast syn::Arm) {
        let t = norm(&self.text_of(&arm.pat));
        for (i, a) in self.spec.anchors.iter().enumerate() {
            if let Anchor::Arm(p, n) = &a.at {
                if t == norm(p) {
                    let c = self.seen.entry(i).or_insert(0);
                    if *c == *n {
                        self.used.insert(i);
                        let (st, en) = (self.cx.lines.start(&arm.body), self.cx.lines.end(&arm.body));
                        self.cx.insert_before(st, format!("{{\n{}\n", a.text), Some(a.line));
                        self.cx.insert_after(en, "}".to_string(), None);
                    }
                    *self.seen.get_mut(&i).unwrap() += 1;
                }
            }
        }
        visit::visit_arm(self, arm);
    }

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Return(syn::ExprReturn { expr: None, .. }) => {
                for a in self.spec.anchors.iter().filter(|a| matches!(a.at, Anchor::FinishAll)) {
                    let (st, en) = (self.cx.lines.start(e), self.cx.lines.end(e));
                    self.cx.insert_before(st, format!("{{\n{}\n", a.text), Some(a.line));
                    self.cx.insert_after(en, " }".into(), None);
                }
            }
            syn::Expr::Return(syn::ExprReturn { expr: Some(x), .. }) => {
                let t = norm(&self.text_of(&**x));
                for (i, a) in self.spec.anchors.iter().enumerate() {
                    if let Anchor::Returning(p, n) = &a.at {
                        if t.starts_with(&norm(p)) {
                            let c = self.seen.entry(i).or_insert(0);
                            if *c == *n {
                                self.used.insert(i);
                                self.cx.count("return E -> { let __r = E; <ghost> return __r }");
                                let (st, xs) = (self.cx.lines.start(e), self.cx.lines.start(&**x));
                                let en = self.cx.lines.end(e);
                                self.cx.replace(st, xs, "{ let __r = ".to_string());
                                self.cx.insert_after(en, format!(";\n{}\nreturn __r }}", a.text), Some(a.line));
                            }
                            *self.seen.get_mut(&i).unwrap() += 1;
                        }
                    }
                }
            }
            syn::Expr::Macro(m) => {
                let (s, en) = (self.cx.lines.start(e), self.cx.lines.end(e));
                if self.mac(&m.mac, s, en) {
                    return;
                }
            }
            syn::Expr::While(w) => {
                let no = self.loop_no;
                self.loop_no += 1;
                let (t, o) = self.loop_text(no);
                if t.is_empty() {
                    self.bare("loop");
                }
                if !t.is_empty() {
                    let p = self.cx.lines.start(&w.body);
                    self.cx.insert_before(p, t, o);
                }
                self.loop_body(no, &w.body);
                self.around_loop(no, self.cx.lines.start(e), self.cx.lines.end(e));
            }
            syn::Expr::Loop(w) => {
                let no = self.loop_no;
                self.loop_no += 1;
                let (t, o) = self.loop_text(no);
                if t.is_empty() {
                    self.bare("loop");
                }
                if !t.is_empty() {
                    let p = self.cx.lines.start(&w.body);
                    self.cx.insert_before(p, t, o);
                }
                self.loop_body(no, &w.body);
                self.around_loop(no, self.cx.lines.start(e), self.cx.lines.end(e));
            }
            syn::Expr::ForLoop(w) => {
                let no = self.loop_no;
                self.loop_no += 1;
                let (t, o) = self.loop_text(no);
                if t.is_empty() {
                    self.bare("loop");
                }
                self.around_loop(no, self.cx.lines.start(e), self.cx.lines.end(e));
                if self.spec.for_as_while {
                    // for P in E B  ->  { let mut __itN = E; while let Some(P) = __itN.next() <spec> B }
                    self.cx.count("for P in E {..} -> while let Some(P) = it.next() {..}");
                    let n = self.iter_no;
                    self.iter_no += 1;
                    let fs = self.cx.lines.start(e);
                    let ps = self.cx.lines.start(&*w.pat);
                    let pe = self.cx.lines.end(&*w.pat);
                    let es = self.cx.lines.start(&*w.expr);
                    let ee = self.cx.lines.end(&*w.expr);
                    let pat = self.cx.lines.text[ps..pe].to_string();
                    self.cx.replace(fs, es, format!("{{ let mut __it{} = ", n));
                    let init = self.loop_init(no);
                    self.cx.insert_after(
                        ee,
                        format!("; {}while let Some({}) = __it{}.next() {}", init, pat, n, t),
                        o,
                    );
                    let be = self.cx.lines.end(&w.body);
                    self.loop_body(no, &w.body);
                    self.cx.insert_after(be, "}".to_string(), None);
                } else {
                    if !t.is_empty() {
                        let es = self.cx.lines.start(&*w.expr);
                        let n = self.iter_no;
                        self.iter_no += 1;
                        self.cx.insert_before(es, format!("it{}: ", n), None);
                        let p = self.cx.lines.start(&w.body);
                        self.cx.insert_before(p, t, o);
                    }
                    self.loop_body(no, &w.body);
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                for a in &m.args {
                    if let syn::Expr::Path(p) = a {
                        if p.path.is_ident("Some") {
                            // a constructor as a function
                            self.cx.count("Some as a function -> some_of");
                            let (x, y) = (self.cx.lines.start(a), self.cx.lines.end(a));
                            self.cx.replace(x, y, "crate::vshim::some_of".into());
                        }
                    }
                }
                if name == "for_each" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        // X.for_each(|P| B)  ->  { let mut __itN = X; while let Some(P) = __itN.next() <spec> { B } }
                        self.cx.count("X.for_each(|P| B) -> while let Some(P) = it.next() {B}");
                        let no = self.loop_no;
                        self.loop_no += 1;
                        let n = self.iter_no;
                        self.iter_no += 1;
                        let (t, o) = self.loop_text(no);
                        let s = self.cx.lines.start(e);
                        let re = self.cx.lines.end(&*m.receiver);
                        let bs = self.cx.lines.start(&*c.body);
                        let be = self.cx.lines.end(&*c.body);
                        let en = self.cx.lines.end(e);
                        let pat = c
                            .inputs
                            .iter()
                            .map(|p| self.text_of(p))
                            .collect::<Vec<_>>()
                            .join(", ");
                        self.around_loop(no, s, en);
                        self.cx.insert_before(s, format!("{{ let mut __it{} = ", n), None);
                        let init = self.loop_init(no);
                        let blk = matches!(&*c.body, syn::Expr::Block(_));
                        self.cx.replace(
                            re,
                            re,
                            format!("; {}while let Some({}) = __it{}.next() ", init, pat, n),
                        );
                        if !t.is_empty() {
                            self.cx.insert_before(re, t, o);
                        }
                        // delete `.for_each(|P| `
                        self.cx.replace(re, bs, if blk { String::new() } else { "{".into() });
                        self.cx.replace(be, en, if blk { "}".into() } else { ";}}".into() });
                        if let syn::Expr::Block(b) = &*c.body {
                            self.loop_body(no, &b.block);
                        }
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
                if let syn::Expr::MethodCall(inner) = &*m.receiver {
                    let iname = inner.method.to_string();
                    if let Some((_, _, f)) =
                        self.spec.chains.iter().find(|(a, b, _)| *a == iname && *b == name)
                    {
                        // X.m1(a).m2(b)  ->  f(&mut X, a, b)
                        self.cx.count(&format!("X.{}(a).{}(b) -> {}(&mut X, a, b)", iname, name, f));
                        let s = self.cx.lines.start(e);
                        let xe = self.cx.lines.end(&*inner.receiver);
                        let ip = self.cx.lines.off(inner.paren_token.span.open().start());
                        let ic = self.cx.lines.off(inner.paren_token.span.close().start());
                        let op = self.cx.lines.off(m.paren_token.span.open().start());
                        self.cx.insert_before(s, format!("{}(&mut ", f), None);
                        self.cx.replace(xe, ip + 1, if inner.args.is_empty() { String::new() } else { ", ".into() });
                        self.cx.replace(ic, op + 1, if m.args.is_empty() { String::new() } else { ", ".into() });
                        self.visit_expr(&inner.receiver);
                        for a in inner.args.iter().chain(m.args.iter()) {
                            self.visit_expr(a);
                        }
                        return;
                    }
                }
                let by_args = format!("{}/{}", name, m.args.len());
                let by_recv = format!("{}.{}", norm(&self.text_of(&*m.receiver)), name);
                if let Some(f) = self
                    .spec
                    .methods
                    .get(&by_recv)
                    .or_else(|| self.spec.methods.get(&by_args))
                    .or_else(|| self.spec.methods.get(&name))
                    .or_else(|| self.methods.get(&name))
                    .filter(|f| *f != "-") {
                    self.cx.count(&format!("X.{}(..) -> {}(X, ..)", name, f));
                    let s = self.cx.lines.start(e);
                    let re = self.cx.lines.end(&*m.receiver);
                    let ps = self.cx.lines.off(m.paren_token.span.open().start());
                    // a leading & in the spec file: the method takes its receiver by reference
                    let tf = m.turbofish.as_ref().map(|t| self.text_of(t)).unwrap_or_default();
                    let call = match f.strip_prefix('&') {
                        Some(g) => match g.strip_prefix("mut ") { Some(h) => format!("{}{}(&mut ", h, tf), None => format!("{}{}(&", g, tf) },
                        None => format!("{}{}(", f, tf),
                    };
                    self.cx.insert_before(s, call, None);
                    self.cx.replace(
                        re,
                        ps + 1,
                        if m.args.is_empty() { String::new() } else { ", ".to_string() },
                    );
                }
            }
            syn::Expr::Call(c) => {
                let t = norm(&self.text_of(&*c.func));
                if let Some(f) = self.spec.calls.get(&t) {
                    // X(a)  ->  f(&X, a)
                    self.cx.count(&format!("{}(..) -> {}(&{}, ..)", t, f, t));
                    let s = self.cx.lines.start(e);
                    let ps = self.cx.lines.off(c.paren_token.span.open().start());
                    let fe = self.cx.lines.end(&*c.func);
                    self.cx.insert_before(s, format!("{}(&", f), None);
                    self.cx.replace(fe, ps + 1, if c.args.is_empty() { String::new() } else { ", ".into() });
                }
            }
            syn::Expr::Path(p) => {
                let t = norm(&self.text_of(p));
                if let (true, Some(n)) = (t == "self", self.self_as) {
                    let (s, en) = (self.cx.lines.start(e), self.cx.lines.end(e));
                    self.cx.replace(s, en, n.into());
                    return;
                }
                if let Some(f) = self.spec.paths.get(&t).or_else(|| self.paths.get(&t)) {
                    self.cx.count(&format!("{} -> {}", t, f));
                    let (s, en) = (self.cx.lines.start(e), self.cx.lines.end(e));
                    self.cx.replace(s, en, f.clone());
                    return;
                }
            }
            syn::Expr::Binary(b)
                if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_))
                    && (is_str_lit(&b.left) || is_str_lit(&b.right)) =>
            {
                // X == "lit"  ->  text_eq(&(X), &("lit"))
                self.cx.count("X == \"..\" -> text_eq(&(X), &(\"..\"))");
                let s = self.cx.lines.start(e);
                let le = self.cx.lines.end(&*b.left);
                let rs = self.cx.lines.start(&*b.right);
                let en = self.cx.lines.end(e);
                let f = if let syn::BinOp::Ne(_) = b.op { "!crate::vshim::text_eq(&(" } else { "crate::vshim::text_eq(&(" };
                self.cx.insert_before(s, f.into(), None);
                self.cx.replace(le, rs, "), &(".into());
                self.cx.insert_after(en, "))".into(), None);
            }
            syn::Expr::Index(ix) => {
                if let (syn::Expr::Range(r), true) = (&*ix.index, self.more && !self.spec.slices) {
                    let (a, b) = (r.start.as_ref(), r.end.as_ref());
                    let open = matches!(r.limits, syn::RangeLimits::HalfOpen(_));
                    if (a.is_some() || b.is_some()) && open {
                        // X[a..b]  ->  (*X.cut_to(b).cut_from(a))
                        self.cx.count("x[a..b] -> x.cut_to(b).cut_from(a)");
                        let st = self.cx.lines.start(e);
                        let re = self.cx.lines.end(&*ix.expr);
                        let en = self.cx.lines.end(e);
                        self.cx.insert_before(st, "(*".into(), None);
                        match (a, b) {
                            (Some(x), None) | (None, Some(x)) => {
                                let f = if a.is_some() { ".cut_from(" } else { ".cut_to(" };
                                self.cx.replace(re, self.cx.lines.start(&**x), f.into());
                                self.cx.replace(self.cx.lines.end(&**x), en, "))".into());
                                self.visit_expr(x);
                            }
                            (Some(a), Some(b)) => {
                                let (a, b) = (self.text_of(&**a), self.text_of(&**b));
                                self.cx.replace(re, en, format!(".cut_to({}).cut_from({}))", b, a));
                            }
                            _ => {}
                        }
                        self.visit_expr(&ix.expr);
                        return;
                    }
                }
                if let syn::Expr::Range(r) = &*ix.index {
                    let kind = if self.spec.slices { "slice" } else { "str" };
                    let f = match (&r.start, &r.end) {
                        (Some(_), None) => Some(format!("crate::vshim::{}_from", kind)),
                        (None, Some(_)) => Some(format!("crate::vshim::{}_to", kind)),
                        _ => None,
                    };
                    if let Some(f) = f {
                        if self.spec.str_slices {
                            self.cx.count("&s[a..] / &s[..b] -> str_from(s, a) / str_to(s, b)");
                            let s = self.cx.lines.start(e);
                            let re = self.cx.lines.end(&*ix.expr);
                            let en = self.cx.lines.end(e);
                            self.cx.insert_before(s, format!("(*{}(&", f), None);
                            match (&r.start, &r.end) {
                                (Some(a), None) => {
                                    self.cx.replace(re, self.cx.lines.start(&**a), ", ".into());
                                    self.cx.replace(self.cx.lines.end(&**a), en, "))".into());
                                }
                                (None, Some(b)) => {
                                    self.cx.replace(re, self.cx.lines.start(&**b), ", ".into());
                                    self.cx.replace(self.cx.lines.end(&**b), en, "))".into());
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            syn::Expr::Closure(c) => {
                let no = self.closure_no;
                self.closure_no += 1;
                if !self.spec.anchors.iter().any(|a| matches!(&a.at, Anchor::Closure(n, _) if *n == no)) {
                    self.bare("closure");
                    for (k, p) in c.inputs.iter().enumerate() {
                        if let syn::Pat::Wild(_) = p {
                            self.cx.count("closure parameter _ named");
                            let (a, b) = (self.cx.lines.start(p), self.cx.lines.end(p));
                            self.cx.replace(a, b, format!("__c{}", k));
                        }
                    }
                }
                for (i, a) in self.spec.anchors.iter().enumerate() {
                    if let Anchor::Closure(n, head) = &a.at {
                        if *n == no {
                            self.used.insert(i);
                            let s = self.cx.lines.start(e);
                            let bs = self.cx.lines.start(&*c.body);
                            let be = self.cx.lines.end(&*c.body);
                            // `$k` in the head stands for parameter k; a pattern is bound by a `let`
                            let mut h = format!("{}\n{}", head, a.text);
                            let mut lets = String::new();
                            for (k, p) in c.inputs.iter().enumerate() {
                                let t = match p {
                                    syn::Pat::Type(t) => &*t.pat,
                                    p => p,
                                };
                                let n = match t {
                                    syn::Pat::Ident(i) if i.by_ref.is_none() => i.ident.to_string(),
                                    syn::Pat::Wild(_) => format!("__c{}", k),
                                    t => {
                                        let n = format!("__c{}", k);
                                        lets.push_str(&format!(
                                            "let {} = {}; ",
                                            self.text_of(t),
                                            n
                                        ));
                                        n
                                    }
                                };
                                h = h.replace(&format!("${}", k), &n);
                            }
                            if h.contains("$") || c.inputs.len() != head.matches('$').count() {
                                lost(self.cx.file, &format!("parameters of closure {}", no));
                            }
                            self.cx.count("closure: types of the parameters and a contract added");
                            self.cx.replace(s, bs, format!("{}\n{{ {}", h, lets));
                            self.cx.insert_after(be, " }".to_string(), None);
                        }
                    }
                }
            }
            _ => {}
        }
        let _ = Self::for_like;
        visit::visit_expr(self, e);
    }
}

fn is_str_lit(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
}

fn apply(text: &str, mut edits: Vec<Edit>) -> (String, Vec<(usize, usize, usize)>) {
    // sort by start; insertions closing something (negative prio) come before openings
    edits.sort_by(|a, b| a.start.cmp(&b.start).then(a.prio.cmp(&b.prio)));
    let mut out = String::new();
    let mut pos = 0;
    let mut map = vec![]; // (woven line from, woven line to, spec line)
    for e in edits {
        if e.start < pos {
            // inside replaced text: dropped
            continue;
        }
        out.push_str(&text[pos..e.start]);
        let l0 = out.matches('\n').count() + 1;
        out.push_str(&e.text);
        let l1 = out.matches('\n').count() + 1;
        if let Some(o) = e.origin {
            map.push((l0, l1, o));
        }
        pos = e.end;
    }
    out.push_str(&text[pos..]);
    (out, map)
}

fn fn_edits(
    cx: &mut Ctx,
    sp: &SpecFile,
    spec: &FnSpec,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    attrs_start: usize,
    semi: usize,
) {
    if let Some(a) = &spec.attr {
        cx.insert_before(attrs_start, format!("{}\n", a), None);
    }
    if let (Some(r), syn::ReturnType::Type(_, ty)) = (&spec.ret, &sig.output) {
        cx.insert_before(cx.lines.start(&**ty), format!("({}: ", r), None);
        cx.insert_after(cx.lines.end(&**ty), ")".into(), None);
    }
    let body_start = match block {
        Some(b) => cx.lines.start(b),
        None => semi,
    };
    if !spec.spec.is_empty() {
        cx.insert_before(body_start, format!("\n{}\n", spec.spec), Some(spec.line));
    }
    let block = match block {
        Some(b) => b,
        None => return,
    };
    if spec.assumed {
        cx.insert_before(attrs_start, "#[verifier::external_body] /* assumed */\n".into(), None);
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
                    let (a, b) = (cx.lines.start(r), cx.lines.end(r));
                    cx.replace(a, b, "self".into());
                }
                syn::FnArg::Typed(t) => {
                    if let syn::Pat::Ident(p) = &*t.pat {
                        if let Some(m) = &p.mutability {
                            let a = cx.lines.start(m);
                            cx.replace(a, a + 3, String::new());
                        }
                    }
                }
                _ => {}
            }
        }
        let (a, b) = (cx.lines.start(block), cx.lines.end(block));
        cx.replace(a + 1, b - 1, " unimplemented!() ".into());
        return;
    }
    let mut mut_self = false;
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
        if r.reference.is_none() && r.mutability.is_some() {
            // fn f(mut self, ..) { B }  ->  fn f(self, ..) { let mut __self = self; B[self -> __self] }
            cx.count("fn f(mut self) {B} -> fn f(self) { let mut __self = self; B }");
            mut_self = true;
            let (a, b) = (cx.lines.start(r), cx.lines.end(r));
            cx.replace(a, b, "self".into());
            cx.insert_before(body_start + 1, "let mut __self = self;".into(), None);
        }
    }
    let mut used = HashSet::new();
    for (i, a) in spec.anchors.iter().enumerate() {
        match a.at {
            Anchor::Start => {
                used.insert(i);
                cx.insert_before(body_start + 1, format!("\n{}\n", a.text), Some(a.line));
            }
            Anchor::Finish | Anchor::FinishAll => {
                used.insert(i);
                cx.insert_before(cx.lines.end(block) - 1, format!("\n;\n{}\n", a.text), Some(a.line));
            }
            Anchor::End => {
                // before the tail expression, or at the end of the body
                used.insert(i);
                let p = match block.stmts.last() {
                    Some(s @ syn::Stmt::Expr(_, None)) => cx.lines.start(s),
                    _ => cx.lines.end(block) - 1,
                };
                cx.insert_before(p, format!("\n{}\n", a.text), Some(a.line));
            }
            _ => {}
        }
    }
    if std::env::var("WEAVE_VACUITY").is_ok()
        && !spec.spec.is_empty()
        && !spec.attr.as_deref().unwrap_or("").contains("external_body")
    {
        // must fail, or the precondition is contradictory
        cx.insert_before(body_start + 1, "\nproof { assert(false); } // vacuity\n".into(), Some(spec.line));
        cx.count("vacuity probe");
    }
    let mut w = BodyWalk {
        cx,
        spec,
        methods: &sp.methods,
        paths: &sp.paths,
        loop_no: 0,
        closure_no: 0,
        iter_no: 0,
        used,
        self_as: if mut_self { Some("__self") } else { None },
        seen: HashMap::new(),
        more: std::env::var("WEAVE_EXTRA").is_ok(),
        places: vec![],
    };
    w.visit_block(block);
    w.ambiguous();
    let used = w.used.clone();
    for (i, a) in spec.anchors.iter().enumerate() {
        if !used.contains(&i) {
            cx.dropped.push((spec.name.clone(), format!("{:?}", a.at)));
        }
    }
}

fn self_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", self_name(&r.elem)),
        _ => norm(&quote::ToTokens::to_token_stream(ty).to_string()),
    }
}

/// the name of an impl without references, lifetimes and type arguments
fn loose(n: &str) -> String {
    n.split(" for ")
        .map(|p| {
            let p = p.split('<').next().unwrap();
            let p = match p.strip_prefix('&') {
                Some(r) => match r.find("mut") {
                    Some(i) => &r[i + 3..],
                    None => r,
                },
                None => p,
            };
            p.to_string()
        })
        .collect::<Vec<_>>()
        .join(" for ")
}

fn impl_name(i: &syn::ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => format!(
            "{} for {}",
            norm(&quote::ToTokens::to_token_stream(&p.segments.last().unwrap()).to_string()),
            match &*i.self_ty {
                syn::Type::Path(_) => norm(&quote::ToTokens::to_token_stream(&*i.self_ty).to_string()),
                t => norm(&quote::ToTokens::to_token_stream(t).to_string()),
            }
        ),
        None => self_name(&i.self_ty),
    }
}

fn weave_file(
    rel: &str,
    text: &str,
    sp: &SpecFile,
) -> (String, serde_json::Value) {
    let ast = match syn::parse_file(text) {
        Ok(a) => a,
        Err(e) => lost(rel, &format!("parse: {}", e)),
    };
    let lines = Lines::new(text);
    let mut cx = Ctx { file: rel, lines: &lines, edits: vec![], seq: 0, rewrites: BTreeMap::new(), dropped: vec![], bare: BTreeMap::new(), totals: BTreeMap::new() };
    let mut done: HashSet<String> = HashSet::new();
    let mut items_done: HashSet<String> = HashSet::new();
    let mut fnames = vec![];

    for it in &ast.items {
        match it {
            syn::Item::Struct(s) if sp.items.contains(&format!("struct {}", s.ident)) => {
                items_done.insert(format!("struct {}", s.ident));
                let (a, b) = (lines.start(it), lines.end(it));
                let d = if s.attrs.iter().any(|a| a.path().is_ident("derive")) {
                    "verus! {\n#[verifier::external_derive]\n"
                } else {
                    "verus! {\n"
                };
                cx.insert_before(a, d.into(), None);
                cx.insert_after(b, "\n} // verus!\n".into(), None);
                if let syn::Visibility::Inherited = s.vis {
                    cx.count("private struct/field/fn -> pub (visibility only)");
                    cx.insert_before(lines.off(s.struct_token.span.start()), "pub ".into(), None);
                }
                for f in &s.fields {
                    if let syn::Visibility::Inherited = f.vis {
                        cx.count("private struct/field/fn -> pub (visibility only)");
                        let p = match &f.ident {
                            Some(i) => lines.off(i.span().start()),
                            None => lines.start(&f.ty),
                        };
                        cx.insert_before(p, "pub ".into(), None);
                    }
                }
            }
            syn::Item::Enum(s) if sp.items.contains(&format!("enum {}", s.ident)) => {
                items_done.insert(format!("enum {}", s.ident));
                let (a, b) = (lines.start(it), lines.end(it));
                let d = if s.attrs.iter().any(|a| a.path().is_ident("derive")) {
                    "verus! {\n#[verifier::external_derive]\n"
                } else {
                    "verus! {\n"
                };
                cx.insert_before(a, d.into(), None);
                cx.insert_after(b, "\n} // verus!\n".into(), None);
                if let syn::Visibility::Inherited = s.vis {
                    cx.count("private struct/field/fn -> pub (visibility only)");
                    cx.insert_before(lines.off(s.enum_token.span.start()), "pub ".into(), None);
                }
            }
            syn::Item::Trait(t) if sp.items.contains(&format!("trait {}", t.ident)) => {
                items_done.insert(format!("trait {}", t.ident));
                let (a, b) = (lines.start(it), lines.end(it));
                cx.insert_before(a, "verus! {\n".into(), None);
                cx.insert_after(b, "\n} // verus!\n".into(), None);
                if let Some(g) = sp.impl_ghost.get(&format!("trait {}", t.ident)) {
                    cx.insert_after(b - 1, format!("\n{}\n", g.1), Some(g.0));
                }
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        let name = format!("{}::{}", t.ident, f.sig.ident);
                        if let Some(spec) = sp.fns.iter().find(|x| x.name == name) {
                            done.insert(name.clone());
                            fnames.push(name);
                            fn_edits(&mut cx, sp, spec, &f.sig, f.default.as_ref(), lines.start(f), lines.end(f) - 1);
                        }
                    }
                }
            }
            syn::Item::Fn(f) => {
                let name = f.sig.ident.to_string();
                if let Some(spec) = sp.fns.iter().find(|x| x.name == name) {
                    done.insert(name.clone());
                    fnames.push(name.clone());
                    let (a, b) = (lines.start(it), lines.end(it));
                    cx.insert_before(a, "verus! {\n".into(), None);
                    cx.insert_after(b, "\n} // verus!\n".into(), None);
                    fn_edits(&mut cx, sp, spec, &f.sig, Some(&f.block), a, 0);
                }
            }
            syn::Item::Impl(im) => {
                let iname = impl_name(im);
                let has = sp.fns.iter().any(|x| {
                    x.name.rsplit_once("::").map(|(a, _)| a == iname).unwrap_or(false)
                }) || sp.items.contains(&format!("impl {}", iname));
                if !has {
                    continue;
                }
                items_done.insert(format!("impl {}", iname));
                let ext = sp.external_impls.contains(&iname);
                let (a, b) = (lines.start(it), lines.end(it));
                if ext {
                    continue;
                }
                cx.insert_before(a, "verus! {\n".into(), None);
                cx.insert_after(b, "\n} // verus!\n".into(), None);
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        let name = format!("{}::{}", iname, f.sig.ident);
                        match sp.fns.iter().find(|x| x.name == name) {
                            Some(spec) => {
                                if done.contains(&name) {
                                    lost(rel, &format!("{} occurs twice", name));
                                }
                                done.insert(name.clone());
                                fnames.push(name);
                                fn_edits(&mut cx, sp, spec, &f.sig, Some(&f.block), lines.start(f), 0);
                                if spec.widen && im.trait_.is_none() {
                                    if let syn::Visibility::Inherited = f.vis {
                                        cx.count("private struct/field/fn -> pub (visibility only)");
                                        cx.insert_before(lines.start(&f.sig), "pub ".into(), None);
                                    }
                                }
                            }
                            None => {
                                if im.trait_.is_none() {
                                    // outside of verus!, in an impl block of its own
                                    let head = text[lines.start(&im.impl_token)
                                        ..lines.off(im.brace_token.span.open().end())]
                                        .to_string();
                                    cx.insert_before(
                                        lines.start(f),
                                        format!("}}\n}} // verus!\n{}\n", head),
                                        None,
                                    );
                                    cx.insert_after(
                                        lines.end(f),
                                        format!("\n}}\nverus! {{\n{}\n", head),
                                        None,
                                    );
                                }
                            }
                        }
                    }
                }
                if let Some(t) = sp.impl_ghost.get(&iname) {
                    let p = lines.end(it) - 1;
                    cx.insert_after(p, format!("\n{}\n", t.1), Some(t.0));
                }
            }
            _ => {}
        }
    }
    // mechanical extraction of bodies into stand-alone functions
    let mut extracted = String::new();
    let mut ex_maps = vec![];
    let mut missing: Vec<String> = vec![];
    for x in &sp.extracts {
        match extract(rel, text, &ast, sp, x, &mut cx.rewrites) {
            Ok((t, d, b, o)) => {
                cx.totals.extend(o);
                extracted.push_str(&t);
                cx.dropped.extend(d);
                cx.bare.extend(b);
                fnames.push(x.name.clone());
            }
            Err(e) => {
                // its callers still rely on the contract
                missing.push(e);
                extracted.push_str(&assumed_extract(x));
            }
        }
        ex_maps.push((x.name.clone(), x.line));
        extracted.push('\n');
        done.insert(x.name.clone());
    }
    fnames.retain(|n| {
        !sp.fns.iter().any(|f| f.assumed && f.name == *n) && !sp.extracts.iter().any(|x| x.spec.assumed && x.name == *n)
    });
    for f in &sp.fns {
        if !done.contains(&f.name) && !f.assumed {
            missing.push(format!("{}: function {}", rel, f.name));
        }
    }
    for i in &sp.items {
        if !items_done.contains(i) {
            lost(rel, &format!("item {}", i));
        }
    }
    let (mut out, mut map) = apply(text, cx.edits);
    // header: the prelude after the inner attributes / at the top
    let l0 = out.matches('\n').count() + 1;
    out.push_str("\n#[allow(unused_imports)] use vstd::prelude::*;\n");
    if std::env::var("WEAVE_EXTRA").is_ok() {
        out.push_str("#[allow(unused_imports)] use crate::extra::Cut as _;\n");
    }
    out.push_str("verus! {\n");
    out.push_str(&sp.ghost);
    out.push_str(&extracted);
    out.push_str("\n} // verus!\n");
    let l1 = out.matches('\n').count() + 1;
    map.push((l0, l1, sp.ghost_line));
    let rep = serde_json::json!({
        "file": rel,
        "functions": fnames,
        "rewrites": cx.rewrites,
        "dropped": cx.dropped,
        "bare": cx.bare,
        "totals": cx.totals.iter().map(|((f, p), n)| serde_json::json!([f, p, n])).collect::<Vec<_>>(),
        "missing": missing,
        "map": map,
    });
    (out, rep)
}

fn assumed_extract(x: &spec::Extract) -> String {
    format!("#[verifier::external_body] /* assumed */\n{}\n{}\n{{ unimplemented!() }}\n", x.sig.trim(), x.spec.spec)
}

/// `extract NAME from FN [closure N | async N]`: the body of a function (or closure / async block in
/// it) that the verifier cannot take where it stands becomes the body of a free function whose
/// signature the spec gives; the body text is carried over with the usual rewrites.
fn extract(
    rel: &str,
    text: &str,
    ast: &syn::File,
    sp: &SpecFile,
    x: &spec::Extract,
    rw: &mut BTreeMap<String, usize>,
) -> Result<(String, Vec<(String, String)>, BTreeMap<String, usize>, BTreeMap<(String, String), usize>), String> {
    if x.spec.assumed {
        return Ok((assumed_extract(x), vec![], BTreeMap::new(), BTreeMap::new()));
    }
    let gone = |what: String| Err(format!("{}: {}", rel, what));
    struct Find<'x> {
        want: &'x str,
        cur: String,
        found: Option<syn::Block>,
        mut_self: bool,
    }
    impl<'x, 'ast> Visit<'ast> for Find<'x> {
        fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
            self.cur = impl_name(i);
            visit::visit_item_impl(self, i);
            self.cur.clear();
        }
        fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
            if m.ident != "tests" && m.ident != "test" {
                visit::visit_item_mod(self, m);
            }
        }
        fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
            if self.want == format!("{}::{}", self.cur, f.sig.ident)
                || self.want == format!("{}::{}", loose(&self.cur), f.sig.ident)
            {
                self.found = Some(f.block.clone());
                if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
                    self.mut_self = r.reference.is_none() && r.mutability.is_some();
                }
            }
        }
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
            if f.sig.ident == self.want {
                self.found = Some((*f.block).clone());
            }
        }
    }
    struct Inner {
        want_closure: Option<usize>,
        want_async: Option<usize>,
        c: usize,
        a: usize,
        found: Option<syn::Block>,
    }
    impl<'ast> Visit<'ast> for Inner {
        fn visit_expr(&mut self, e: &'ast syn::Expr) {
            match e {
                syn::Expr::Closure(c) => {
                    if Some(self.c) == self.want_closure {
                        if let syn::Expr::Block(b) = &*c.body {
                            self.found = Some(b.block.clone());
                        }
                        if let syn::Expr::Async(b) = &*c.body {
                            self.found = Some(b.block.clone());
                        }
                    }
                    self.c += 1;
                }
                syn::Expr::Async(b) => {
                    if Some(self.a) == self.want_async {
                        self.found = Some(b.block.clone());
                    }
                    self.a += 1;
                }
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut f = Find { want: &x.from, cur: String::new(), found: None, mut_self: false };
    f.visit_file(ast);
    let mut block = match f.found {
        Some(b) => b,
        None => return gone(format!("function {}", x.from)),
    };
    if x.closure.is_some() || x.asynk.is_some() {
        let mut i = Inner { want_closure: x.closure, want_async: x.asynk, c: 0, a: 0, found: None };
        i.visit_block(&block);
        block = match i.found {
            Some(b) => b,
            None => return gone(format!("closure / async block of {}", x.from)),
        };
    }
    let lines = Lines::new(text);
    let mut cx = Ctx { file: rel, lines: &lines, edits: vec![], seq: 0, rewrites: BTreeMap::new(), dropped: vec![], bare: BTreeMap::new(), totals: BTreeMap::new() };
    let (bs, be) = (lines.start(&block), lines.end(&block));
    let mut used = HashSet::new();
    if std::env::var("WEAVE_VACUITY").is_ok() && !x.spec.spec.is_empty() {
        cx.insert_before(bs + 1, "\nproof { assert(false); } // vacuity\n".into(), Some(x.line));
        cx.count("vacuity probe");
    }
    if f.mut_self {
        cx.insert_before(bs + 1, "let mut __self = this;".into(), None);
    }
    for (i, a) in x.spec.anchors.iter().enumerate() {
        match a.at {
            Anchor::Start => {
                used.insert(i);
                cx.insert_before(bs + 1, format!("\n{}\n", a.text), Some(a.line));
            }
            Anchor::Finish | Anchor::FinishAll => {
                used.insert(i);
                cx.insert_before(cx.lines.end(&block) - 1, format!("\n;\n{}\n", a.text), Some(a.line));
            }
            Anchor::End => {
                used.insert(i);
                let p = match block.stmts.last() {
                    Some(s @ syn::Stmt::Expr(_, None)) => cx.lines.start(s),
                    _ => cx.lines.end(&block) - 1,
                };
                cx.insert_before(p, format!("\n{}\n", a.text), Some(a.line));
            }
            _ => {}
        }
    }
    if x.tail_await {
        match block.stmts.last() {
            Some(e @ syn::Stmt::Expr(_, None)) => {
                cx.count("future returned by the tail expression awaited");
                cx.insert_after(lines.end(e), ".await".into(), None);
            }
            _ => return gone(format!("tail expression of {}", x.from)),
        }
    }
    if let Some(t) = &x.tail {
        match block.stmts.last() {
            Some(e @ syn::Stmt::Expr(_, None)) => {
                cx.count(&format!("tail expression of {} -> {}", x.from, t));
                cx.replace(lines.start(e), lines.end(e), t.clone());
                block.stmts.pop();
            }
            _ => return gone(format!("tail expression of {}", x.from)),
        }
    }
    let mut w = BodyWalk {
        cx: &mut cx,
        spec: &x.spec,
        methods: &sp.methods,
        paths: &sp.paths,
        loop_no: 0,
        closure_no: 0,
        iter_no: 0,
        used,
        self_as: Some(if f.mut_self { "__self" } else { "this" }),
        seen: HashMap::new(),
        more: std::env::var("WEAVE_EXTRA").is_ok(),
        places: vec![],
    };
    w.visit_block(&block);
    w.ambiguous();
    let used = w.used.clone();
    for (i, a) in x.spec.anchors.iter().enumerate() {
        if !used.contains(&i) {
            cx.dropped.push((x.name.clone(), format!("{:?}", a.at)));
        }
    }
    let (dropped, bare, totals) = (cx.dropped.clone(), cx.bare.clone(), cx.totals.clone());
    for (k, v) in &cx.rewrites {
        *rw.entry(k.clone()).or_insert(0) += v;
    }
    *rw.entry(format!("body of {} extracted to {}", x.from, x.name)).or_insert(0) += 1;
    let edits: Vec<Edit> = cx
        .edits
        .into_iter()
        .filter(|e| e.start >= bs && e.end <= be)
        .map(|mut e| {
            e.start -= bs;
            e.end -= bs;
            e
        })
        .collect();
    let (body, _) = apply(&text[bs..be], edits);
    let mut body = body;
    for (a, b) in &x.subst {
        let n = body.matches(a.as_str()).count();
        if n == 0 {
            return gone(format!("{}: text `{}`", x.name, a));
        }
        *rw.entry(format!("in {}: `{}` -> `{}`", x.name, a, b)).or_insert(0) += n;
        body = body.replace(a.as_str(), b);
    }
    Ok((format!("{}\n{}\n{}\n", x.sig, x.spec.spec, body), dropped, bare, totals))
}

/// writes out the uses inside impls of a macro of the form
/// `macro_rules! m { ($($a:ty => $b:ident)*) => {$( .. )*} }`
fn expand(rel: &str, text: &mut String, name: &str) -> usize {
    let ast = match syn::parse_file(text) {
        Ok(a) => a,
        Err(e) => lost(rel, &format!("parse: {}", e)),
    };
    let lines = Lines::new(text);
    let span_text = |a: proc_macro2::LineColumn, b: proc_macro2::LineColumn| lines.text[lines.off(a)..lines.off(b)].to_string();
    use proc_macro2::{Delimiter, TokenTree};
    // the definition
    let mut def = None;
    for it in &ast.items {
        if let syn::Item::Macro(m) = it {
            if m.ident.as_ref().map(|i| i == name).unwrap_or(false) {
                let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let groups: Vec<&proc_macro2::Group> =
                    ts.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
                if groups.len() == 2 {
                    def = Some((groups[0].clone(), groups[1].clone()));
                }
            }
        }
    }
    let (pat, body) = match def {
        Some(d) => d,
        None => lost(rel, &format!("macro {}", name)),
    };
    let inner = |g: &proc_macro2::Group| -> Option<proc_macro2::Group> {
        g.stream().into_iter().find_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g),
            _ => None,
        })
    };
    let (pat, body) = match (inner(&pat), inner(&body)) {
        (Some(a), Some(b)) => (a, b),
        _ => lost(rel, &format!("macro {}", name)),
    };
    let p = norm(&span_text(pat.span_open().end(), pat.span_close().start()));
    let vars: Vec<String> = p
        .split("=>")
        .map(|v| v.trim_start_matches('$').split(':').next().unwrap().to_string())
        .collect();
    if vars.len() != 2 || p != format!("${}:ty=>${}:ident", vars[0], vars[1]) {
        lost(rel, &format!("pattern of macro {}", name));
    }
    let tmpl = span_text(body.span_open().end(), body.span_close().start());
    // the uses
    let mut edits = vec![];
    let mut n = 0;
    for it in &ast.items {
        if let syn::Item::Impl(im) = it {
            for ii in &im.items {
                if let syn::ImplItem::Macro(m) = ii {
                    if m.mac.path.is_ident(name) {
                        let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        let mut out = String::new();
                        for c in ts.chunks(4) {
                            // ty = > ident
                            if c.len() != 4 || c[1].to_string() != "=" || c[2].to_string() != ">" {
                                lost(rel, &format!("use of macro {}", name));
                            }
                            out.push_str(
                                &tmpl
                                    .replace(&format!("${}", vars[1]), &c[3].to_string())
                                    .replace(&format!("${}", vars[0]), &c[0].to_string()),
                            );
                            out.push('\n');
                            n += 1;
                        }
                        edits.push((lines.start(m), lines.end(m), out));
                    }
                }
            }
        }
    }
    edits.sort_by(|a, b| b.0.cmp(&a.0));
    for (a, b, t) in edits {
        text.replace_range(a..b, &t);
    }
    n
}

fn copy_tree(dir: &Path, base: &Path, f: &mut dyn FnMut(&str, &str)) {
    let mut es: Vec<PathBuf> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            copy_tree(&p, base, f);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let rel = p.strip_prefix(base).unwrap().to_str().unwrap().to_string();
            let t = fs::read_to_string(&p).unwrap();
            f(&rel, &t);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or_else(|| {
            eprintln!("missing {}", k);
            exit(2)
        })
    };
    let (src, specs, out, prop, report) =
        (get("--src"), get("--specs"), get("--out"), get("--prop"), get("--report"));
    let shim = spec::filter_props(&fs::read_to_string(format!("{}/vshim.rs", specs)).unwrap(), &prop);
    // contracts of library functions the unchanged source does not use
    let rules = std::env::var("WEAVE_EXTRA").ok().map(|_| {
        let t = fs::read_to_string(format!("{}/extra.rules", specs)).unwrap();
        let pick = |d: &str| -> Vec<(String, String)> {
            t.lines()
                .filter_map(|l| l.strip_prefix(d))
                .filter_map(|l| l.split_once('='))
                .map(|(a, b)| (norm(a.trim()), b.trim().to_string()))
                .collect()
        };
        (pick("//@path "), pick("//@method "))
    });
    let mut reps = vec![];
    let mut used_specs = HashSet::new();
    let mut state = state::State::default();
    // the functions of the unchanged source
    let known = fs::read_to_string(format!("{}/functions.txt", specs)).unwrap_or_default();
    let known: std::collections::BTreeSet<String> = known.lines().map(|l| l.to_string()).collect();
    // how often the text of a hint's place occurs in the unchanged source, where it is not once
    let often = fs::read_to_string(format!("{}/places.txt", specs)).unwrap_or_default();
    let often: HashMap<String, u64> =
        often.lines().filter_map(|l| l.rsplit_once('\t')).map(|(k, n)| (k.to_string(), n.parse().unwrap())).collect();
    let allowed = fs::read_to_string(format!("{}/bare.txt", specs)).unwrap_or_default();
    let allowed: HashMap<String, u64> =
        allowed.lines().filter_map(|l| l.rsplit_once(' ')).map(|(k, n)| (k.to_string(), n.parse().unwrap())).collect();
    copy_tree(Path::new(&src), Path::new(&src), &mut |rel, text| {
        let mut text = text.to_string();
        state.file(rel, &text);
        let specp = format!("{}/{}", specs, rel.replace(".rs", ".spec"));
        let target = format!("{}/{}", out, rel);
        fs::create_dir_all(Path::new(&target).parent().unwrap()).unwrap();
        let mut t = text.to_string();
        if Path::new(&specp).exists() {
            used_specs.insert(rel.to_string());
            let mut sp = spec::parse(&fs::read_to_string(&specp).unwrap(), &prop);
            if let Some(rules) = &rules {
                for (k, v) in &rules.0 {
                    sp.paths.entry(k.clone()).or_insert_with(|| v.clone());
                }
                for (k, v) in &rules.1 {
                    sp.methods.entry(k.clone()).or_insert_with(|| v.clone());
                }
            }
            // bodies the verifier cannot read are left out: their contracts are assumed in this run
            for s in std::env::var("WEAVE_SKIP").unwrap_or_default().split(',') {
                if let Some((f, n)) = s.split_once(':') {
                    let is = |name: &str| f == rel && name.rsplit("::").next() == Some(n);
                    sp.fns.iter_mut().filter(|x| is(&x.name)).for_each(|x| x.assumed = true);
                    sp.extracts.iter_mut().filter(|x| is(&x.name)).for_each(|x| x.spec.assumed = true);
                }
            }
            if sp.active {
                let mut n = 0;
                for m in &sp.expand {
                    n += expand(rel, &mut text, m);
                }
                let (t2, helpers) = inline::inline(&text, &known);
                text = t2;
                let (w, mut r) = weave_file(rel, &text, &sp);
                // loops and closures without contract which the unchanged source does not have
                let bare = r["bare"].as_object().unwrap().clone();
                for (k, n) in bare {
                    let n = n.as_u64().unwrap();
                    if std::env::var("WEAVE_BARE").is_ok() {
                        println!("{} {} {}", rel, k, n);
                    }
                    let (f, what) = k.rsplit_once(' ').unwrap();
                    if n > allowed.get(&format!("{} {}", rel, k)).copied().unwrap_or(0) {
                        r["dropped"].as_array_mut().unwrap().push(serde_json::json!([f, format!("a {} without contract", what)]));
                    }
                }
                // hints whose text occurs more or less often than in the unchanged source
                for t in r["totals"].as_array().unwrap().clone() {
                    let (f, p, n) = (t[0].as_str().unwrap(), t[1].as_str().unwrap(), t[2].as_u64().unwrap());
                    let k = format!("{}\t{}\t{}", rel, f, p);
                    if std::env::var("WEAVE_PLACES").is_ok() && n != 1 {
                        println!("{}\t{}", k, n);
                    }
                    if n != often.get(&k).copied().unwrap_or(1) {
                        r["dropped"].as_array_mut().unwrap().push(serde_json::json!([f, format!("{} times '{}'", n, p)]));
                    }
                }
                if n > 0 {
                    r["rewrites"]["methods written out from the macros of the file"] = n.into();
                }
                if helpers > 0 {
                    r["rewrites"]["calls of functions without contract written out"] = helpers.into();
                }
                t = w;
                reps.push(r);
            }
        }
        if rel == "lib.rs" {
            t.push_str("\n#[allow(unused_imports)]\n#[path = \"vshim.rs\"]\npub mod vshim;\n");
            if rules.is_some() {
                t.push_str("\n#[allow(unused_imports)]\n#[path = \"extra.rs\"]\npub mod extra;\n");
            }
        }
        fs::write(target, t).unwrap();
    });
    fs::write(format!("{}/vshim.rs", out), shim).unwrap();
    if rules.is_some() {
        fs::copy(format!("{}/extra.rs", specs), format!("{}/extra.rs", out)).unwrap();
    }
    if std::env::var("WEAVE_FUNCTIONS").is_ok() {
        state.names_of_fns().iter().for_each(|n| println!("{}", n));
    }
    fs::write(format!("{}.state", report), serde_json::to_string_pretty(&state.reached(&known)).unwrap()).unwrap();
    fs::write(report, serde_json::to_string_pretty(&reps).unwrap()).unwrap();
}
