//! Calls of functions which the contracts do not know (helpers somebody extracted) are replaced by the bodies of
//! these functions, so that the obligations of their callers stay about the whole code. Only what can be written
//! out without changing its meaning is: parameters become `let`s, `self` becomes the receiver (a place), an early
//! `return` becomes the value of the branch it ends. Everything else is left as it is.

use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Helper {
    name: String,
    self_ty: Option<String>,
    is_async: bool,
    receiver: bool,
    params: Vec<(String, bool, Option<String>)>,
    ret: Option<String>,
    ret_kind: &'static str,
    body: syn::Block,
}

pub struct Src<'a> {
    pub text: &'a str,
    starts: Vec<usize>,
}

impl<'a> Src<'a> {
    fn new(text: &'a str) -> Self {
        let mut starts = vec![0];
        starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Src { text, starts }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.starts[lc.line - 1];
        self.text[ls..].char_indices().nth(lc.column).map(|(i, _)| ls + i).unwrap_or(self.text.len())
    }
    fn range<T: Spanned>(&self, t: &T) -> (usize, usize) {
        let s = t.span();
        (self.off(s.start()), self.off(s.end()))
    }
    fn of<T: Spanned>(&self, t: &T) -> &'a str {
        let (a, b) = self.range(t);
        &self.text[a..b]
    }
}

fn test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().contains("test"))
}

/// `return`s and `?`s which belong to the function itself
fn exits<'x>(f: impl FnOnce(&mut Exits)) -> usize {
    let mut e = Exits { n: 0, _p: std::marker::PhantomData };
    f(&mut e);
    let _: Option<&'x ()> = None;
    e.n
}
struct Exits {
    n: usize,
    _p: std::marker::PhantomData<()>,
}
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Closure(_) | syn::Expr::Async(_) => {}
            syn::Expr::Return(_) | syn::Expr::Try(_) => self.n += 1,
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
fn exits_stmt(s: &syn::Stmt) -> usize {
    exits(|v| v.visit_stmt(s))
}
fn exits_expr(e: &syn::Expr) -> usize {
    exits(|v| v.visit_expr(e))
}

fn always(stmts: &[syn::Stmt]) -> bool {
    match stmts.last() {
        Some(syn::Stmt::Expr(e, _)) => always_expr(e),
        Some(syn::Stmt::Macro(m)) => diverging(&m.mac),
        _ => false,
    }
}
fn diverging(m: &syn::Macro) -> bool {
    m.path.segments.last().map(|s| ["panic", "unreachable", "todo", "unimplemented"].contains(&s.ident.to_string().as_str())).unwrap_or(false)
}
fn always_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Macro(m) => diverging(&m.mac),
        syn::Expr::Block(b) => always(&b.block.stmts),
        syn::Expr::If(i) => always(&i.then_branch.stmts) && i.else_branch.as_ref().map(|(_, e)| always_expr(e)).unwrap_or(false),
        syn::Expr::Match(m) => m.arms.iter().all(|a| always_expr(&a.body)),
        _ => false,
    }
}

/// what is left to do after a branch
type Rest<'s> = Vec<&'s syn::Stmt>;

/// the statements as one block without an early exit; the value of the block is the value of the function
fn straight(src: &Src, stmts: &[&syn::Stmt], kind: &str, fuel: &mut usize) -> Option<String> {
    if *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    let mut out = String::from("{\n");
    for (i, s) in stmts.iter().enumerate() {
        let rest: Rest = stmts[i + 1..].to_vec();
        if exits_stmt(s) == 0 {
            out.push_str(src.of(*s));
            out.push('\n');
            continue;
        }
        let t = match s {
            syn::Stmt::Expr(e, semi) => straight_expr(src, e, &rest, semi.is_some(), None, kind, fuel)?,
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = src.of(&l.pat);
                match &init.diverge {
                    Some((_, d)) => {
                        let ok = straight(src, &rest, kind, fuel)?;
                        let no = straight_expr(src, d, &vec![], false, None, kind, fuel)?;
                        format!("match {} {{ {} => {}, _ => {} }}", src.of(&init.expr), pat, ok, no)
                    }
                    None => straight_expr(src, &init.expr, &rest, true, Some(pat), kind, fuel)?,
                }
            }
            _ => return None,
        };
        out.push_str(&t);
        out.push_str("\n}");
        return Some(out);
    }
    out.push('}');
    Some(out)
}

/// an expression statement with exits, followed by the rest; `pat` is what its value is bound to
fn straight_expr(src: &Src, e: &syn::Expr, rest: &Rest, semi: bool, pat: Option<&str>, kind: &str, fuel: &mut usize) -> Option<String> {
    let last = rest.is_empty() && pat.is_none() && !semi;
    match e {
        syn::Expr::Return(r) => match &r.expr {
            Some(v) if exits_expr(v) > 0 => straight_expr(src, v, &vec![], false, None, kind, fuel),
            Some(v) => Some(src.of(v.as_ref()).to_string()),
            None => Some("()".into()),
        },
        syn::Expr::Try(t) if exits_expr(&t.expr) == 0 => {
            let go = match (pat, last) {
                (Some(p), _) => format!("{{ let {} = __v; {} }}", p, straight(src, rest, kind, fuel)?),
                (None, true) => "__v".into(),
                (None, false) => straight(src, rest, kind, fuel)?,
            };
            match kind {
                "Option" => Some(format!("match {} {{ Some(__v) => {}, None => None }}", src.of(t.expr.as_ref()), go)),
                "Result" => Some(format!("match {} {{ Ok(__v) => {}, Err(__e) => Err(__e) }}", src.of(t.expr.as_ref()), go)),
                _ => None,
            }
        }
        syn::Expr::Call(c) if pat.is_none() && last && c.args.len() == 1 => {
            // `Ok(x?)`
            let f = src.of(c.func.as_ref());
            match (&c.args[0], f, kind) {
                (syn::Expr::Try(t), "Ok", "Result") | (syn::Expr::Try(t), "Some", "Option") if exits_expr(&t.expr) == 0 => Some(src.of(t.expr.as_ref()).to_string()),
                _ => None,
            }
        }
        syn::Expr::Block(b) if pat.is_none() && b.label.is_none() => {
            let mut all: Rest = b.block.stmts.iter().collect();
            if !rest.is_empty() && !always(&b.block.stmts) {
                all.extend(rest.iter());
            }
            straight(src, &all, kind, fuel)
        }
        syn::Expr::If(i) if pat.is_none() => {
            if exits_expr(&i.cond) > 0 {
                return None;
            }
            let then = branch(src, &i.then_branch.stmts.iter().collect::<Vec<_>>(), rest, last, None, kind, fuel)?;
            let other = match &i.else_branch {
                Some((_, e)) => match e.as_ref() {
                    syn::Expr::Block(b) => branch(src, &b.block.stmts.iter().collect::<Vec<_>>(), rest, last, None, kind, fuel)?,
                    e => {
                        if exits_expr(e) > 0 || !last {
                            format!("{{ {} }}", straight_expr(src, e, rest, !last, None, kind, fuel)?)
                        } else {
                            format!("{{ {} }}", src.of(e))
                        }
                    }
                },
                None => straight(src, rest, kind, fuel)?,
            };
            Some(format!("if {} {} else {}", src.of(i.cond.as_ref()), then, other))
        }
        syn::Expr::Match(m) => {
            if exits_expr(&m.expr) > 0 {
                return None;
            }
            let go = m.arms.iter().filter(|a| !always_expr(&a.body)).count();
            if go > 1 && !rest.is_empty() && pat.is_some() {
                return None;
            }
            let mut out = format!("match {} {{\n", src.of(m.expr.as_ref()));
            for a in &m.arms {
                out.push_str(src.of(&a.pat));
                if let Some((_, g)) = &a.guard {
                    out.push_str(&format!(" if {}", src.of(g.as_ref())));
                }
                out.push_str(" => ");
                let body = match a.body.as_ref() {
                    syn::Expr::Block(b) => branch(src, &b.block.stmts.iter().collect::<Vec<_>>(), rest, last, pat, kind, fuel)?,
                    e if always_expr(e) => straight_expr(src, e, &vec![], false, None, kind, fuel).or_else(|| Some(src.of(e).to_string()))?,
                    e if exits_expr(e) > 0 => straight_expr(src, e, rest, !last, pat, kind, fuel)?,
                    e => match pat {
                        Some(p) => format!("{{ let {} = {}; {} }}", p, src.of(e), straight(src, rest, kind, fuel)?),
                        None if last => src.of(e).to_string(),
                        None => format!("{{ {}; {} }}", src.of(e), straight(src, rest, kind, fuel)?),
                    },
                };
                out.push_str(&body);
                out.push_str(",\n");
            }
            out.push('}');
            Some(out)
        }
        _ => None,
    }
}

fn branch(src: &Src, stmts: &[&syn::Stmt], rest: &Rest, last: bool, pat: Option<&str>, kind: &str, fuel: &mut usize) -> Option<String> {
    let owned: Vec<syn::Stmt> = stmts.iter().map(|s| (*s).clone()).collect();
    if always(&owned) || last {
        return straight(src, stmts, kind, fuel);
    }
    if let Some(p) = pat {
        // the value of the branch is bound
        if stmts.iter().any(|s| exits_stmt(s) > 0) {
            return None;
        }
        let body: String = stmts.iter().map(|s| src.of(*s).to_string() + "\n").collect();
        return Some(format!("{{ let {} = {{ {} }}; {} }}", p, body, straight(src, rest, kind, fuel)?));
    }
    // a value nobody uses
    if stmts.iter().any(|s| exits_stmt(s) > 0) {
        let mut all = stmts.to_vec();
        all.extend(rest.iter());
        return straight(src, &all, kind, fuel);
    }
    let body: String = stmts.iter().map(|s| src.of(*s).to_string() + if matches!(s, syn::Stmt::Expr(_, None)) { ";\n" } else { "\n" }).collect();
    Some(format!("{{ {} {} }}", body, straight(src, rest, kind, fuel)?))
}

fn idents(ts: proc_macro2::TokenStream, out: &mut Vec<proc_macro2::Ident>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => out.push(i),
            _ => {}
        }
    }
}

fn helper(src: &Src, sig: &syn::Signature, body: &syn::Block, self_ty: Option<String>) -> Option<Helper> {
    let generic: BTreeSet<String> = sig.generics.params.iter().map(|p| match p {
        syn::GenericParam::Type(t) => t.ident.to_string(),
        syn::GenericParam::Lifetime(l) => l.lifetime.ident.to_string(),
        syn::GenericParam::Const(c) => c.ident.to_string(),
    }).collect();
    let closed = |t: &syn::Type| {
        let mut v = vec![];
        idents(quote::ToTokens::to_token_stream(t), &mut v);
        !v.iter().any(|i| generic.contains(&i.to_string()) || i == "impl")
    };
    let mut params = vec![];
    let mut receiver = false;
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(_) => receiver = true,
            syn::FnArg::Typed(t) => match t.pat.as_ref() {
                syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    params.push((i.ident.to_string(), i.mutability.is_some(), if closed(&t.ty) { Some(src.of(t.ty.as_ref()).to_string()) } else { None }))
                }
                _ => return None,
            },
        }
    }
    let (ret, kind) = match &sig.output {
        syn::ReturnType::Default => (None, "unit"),
        syn::ReturnType::Type(_, t) => {
            let x = src.of(t.as_ref());
            let k = if x.starts_with("Option") { "Option" } else if x.contains("Result") { "Result" } else { "other" };
            (if closed(t) { Some(x.to_string()) } else { None }, k)
        }
    };
    Some(Helper {
        name: sig.ident.to_string(),
        self_ty,
        is_async: sig.asyncness.is_some(),
        receiver,
        params,
        ret,
        ret_kind: kind,
        body: body.clone(),
    })
}

struct Find<'a> {
    src: &'a Src<'a>,
    known: &'a BTreeSet<String>,
    helpers: Vec<Helper>,
    ty: Option<String>,
}
impl<'a, 'ast> Visit<'ast> for Find<'a> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !test(&m.attrs) {
            visit::visit_item_mod(self, m)
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if !self.known.contains(&f.sig.ident.to_string()) {
            self.helpers.extend(helper(self.src, &f.sig, &f.block, None));
        }
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if i.trait_.is_none() {
            self.ty = match i.self_ty.as_ref() {
                syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                _ => None,
            };
            visit::visit_item_impl(self, i);
            self.ty = None;
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        if !self.known.contains(&f.sig.ident.to_string()) {
            self.helpers.extend(helper(self.src, &f.sig, &f.block, self.ty.clone()));
        }
    }
}

struct Calls<'a> {
    src: &'a Src<'a>,
    known: &'a BTreeSet<String>,
    helpers: &'a [Helper],
    /// the innermost call found: start, end, text
    found: Option<(usize, usize, String)>,
    tail: BTreeSet<(usize, usize)>,
    fn_ret: String,
    inside: bool,
}

impl<'a> Calls<'a> {
    fn try_call(&mut self, whole: &syn::Expr, name: &str, ty: Option<&str>, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>, awaited: bool) {
        if self.found.is_some() {
            return;
        }
        let hs: Vec<&Helper> = self.helpers.iter().filter(|h| h.name == name && h.is_async == awaited).collect();
        if hs.len() != 1 {
            return;
        }
        let h = hs[0];
        let mut args = args;
        let mut recv = recv;
        if recv.is_none() && h.receiver {
            if args.is_empty() {
                return;
            }
            recv = Some(args.remove(0));
        }
        if args.len() != h.params.len() || recv.is_some() != h.receiver {
            return;
        }
        if let (Some(t), Some(st)) = (ty, &h.self_ty) {
            if t != "Self" && t != st {
                return;
            }
        }
        // not recursive
        let mut ids = vec![];
        idents(quote::ToTokens::to_token_stream(&h.body), &mut ids);
        if ids.iter().any(|i| *i == h.name) {
            return;
        }
        let place = match recv {
            None => None,
            Some(r) => {
                let mut r = r;
                while let syn::Expr::Reference(x) = r {
                    r = &x.expr;
                }
                let mut root = r;
                loop {
                    match root {
                        syn::Expr::Field(f) => root = &f.base,
                        syn::Expr::Path(_) => break,
                        _ => return,
                    }
                }
                let rt = self.src.of(root).to_string();
                // a name of the helper would hide the receiver
                if rt != "self" && (ids.iter().any(|i| *i == rt) || h.params.iter().any(|p| p.0 == rt)) {
                    return;
                }
                Some(self.src.of(r).to_string())
            }
        };
        let stmts: Vec<&syn::Stmt> = h.body.stmts.iter().collect();
        let n: usize = stmts.iter().map(|s| exits_stmt(s)).sum();
        let range = self.src.range(whole);
        let in_tail = self.tail.contains(&range) && h.ret.as_ref().map(|r| squeeze(r) == self.fn_ret).unwrap_or(false);
        let body = if n == 0 || in_tail {
            let (a, b) = self.src.range(&h.body);
            Some(self.src.text[a..b].to_string())
        } else {
            let mut fuel = 60;
            straight(self.src, &stmts, h.ret_kind, &mut fuel)
        };
        let mut body = match body {
            Some(b) => b,
            None => return,
        };
        if let Some(p) = &place {
            if p != "self" {
                body = match rename(&body, "self", p) {
                    Some(b) => b,
                    None => return,
                };
            }
        }
        if let Some(t) = &h.self_ty {
            if ty != Some("Self") {
                body = match rename(&body, "Self", t) {
                    Some(b) => b,
                    None => return,
                };
            }
        }
        let texts: Vec<String> = args.iter().map(|a| self.src.of(*a).to_string()).collect();
        let mut used = vec![];
        for a in &args {
            idents(quote::ToTokens::to_token_stream(a), &mut used);
        }
        let clash = h.params.len() > 1 && h.params.iter().enumerate().any(|(i, p)| used.iter().any(|u| *u == p.0) && texts[i] != p.0);
        let mut lets = String::new();
        if clash {
            for (i, t) in texts.iter().enumerate() {
                lets.push_str(&format!("let __arg{} = {};\n", i, t));
            }
        }
        for (i, (p, m, t)) in h.params.iter().enumerate() {
            let v = if clash { format!("__arg{}", i) } else { texts[i].clone() };
            if v == *p && !m {
                continue;
            }
            let t = t.as_ref().map(|t| format!(": {}", t)).unwrap_or_default();
            lets.push_str(&format!("let {}{}{} = {};\n", if *m { "mut " } else { "" }, p, t, v));
        }
        let infer = ["collect()", ".into()", "parse()", "default()", "Vec::new()"].iter().any(|x| body.contains(x));
        let text = match (&h.ret, infer) {
            (Some(r), true) if !in_tail && !r.contains("&mut") => format!("{{\n{}let __value: {} = {};\n__value\n}}", lets, r, body),
            _ if lets.is_empty() => body,
            _ => format!("{{\n{}{}\n}}", lets, body),
        };
        self.found = Some((range.0, range.1, text));
    }
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn rename(body: &str, from: &str, to: &str) -> Option<String> {
    let ts: proc_macro2::TokenStream = body.parse().ok()?;
    let mut ids = vec![];
    idents(ts, &mut ids);
    let src = Src::new(body);
    let mut at: Vec<(usize, usize)> = ids.iter().filter(|i| *i == from).map(|i| (src.off(i.span().start()), src.off(i.span().end()))).collect();
    at.sort();
    let mut out = body.to_string();
    for (a, b) in at.into_iter().rev() {
        out.replace_range(a..b, to);
    }
    Some(out)
}

impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !test(&m.attrs) {
            visit::visit_item_mod(self, m)
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if self.known.contains(&f.sig.ident.to_string()) {
            self.enter(&f.sig, &f.block);
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        if self.known.contains(&f.sig.ident.to_string()) {
            self.enter(&f.sig, &f.block);
        }
    }
    fn visit_item_macro(&mut self, _: &'ast syn::ItemMacro) {}
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let t = std::mem::take(&mut self.tail);
        visit::visit_expr_closure(self, c);
        self.tail = t;
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        // the inner calls first
        match e {
            syn::Expr::Await(a) => match a.base.as_ref() {
                syn::Expr::Call(c) => c.args.iter().for_each(|x| self.visit_expr(x)),
                syn::Expr::MethodCall(m) => {
                    self.visit_expr(&m.receiver);
                    m.args.iter().for_each(|x| self.visit_expr(x))
                }
                x => self.visit_expr(x),
            },
            _ => visit::visit_expr(self, e),
        }
        if !self.inside {
            return;
        }
        let (call, awaited) = match e {
            syn::Expr::Await(a) => (a.base.as_ref(), true),
            x => (x, false),
        };
        match call {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = c.func.as_ref() {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let ty = if segs.len() > 1 { Some(segs[segs.len() - 2].clone()) } else { None };
                    let ty = ty.filter(|t| t.chars().next().map(|c| c.is_uppercase()).unwrap_or(false));
                    self.try_call(e, &name, ty.as_deref(), None, c.args.iter().collect(), awaited);
                }
            }
            syn::Expr::MethodCall(m) => {
                let me = matches!(m.receiver.as_ref(), syn::Expr::Path(p) if p.path.is_ident("self"));
                self.try_call(e, &m.method.to_string(), if me { Some("Self") } else { None }, Some(m.receiver.as_ref()), m.args.iter().collect(), awaited);
            }
            _ => {}
        }
    }
}

impl<'a> Calls<'a> {
    fn enter(&mut self, sig: &syn::Signature, b: &syn::Block) {
        self.tail.clear();
        self.fn_ret = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => squeeze(self.src.of(t.as_ref())),
        };
        self.mark_block(b);
        struct Rets<'x, 'y> {
            c: &'x mut Calls<'y>,
        }
        impl<'x, 'y, 'ast> Visit<'ast> for Rets<'x, 'y> {
            fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
                if let Some(e) = &r.expr {
                    self.c.mark(e);
                }
            }
            fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
            fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
        }
        Rets { c: self }.visit_block(b);
        self.inside = true;
        self.visit_block(b);
        self.inside = false;
    }
    fn mark_block(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.mark(e);
        }
    }
    fn mark(&mut self, e: &syn::Expr) {
        self.tail.insert(self.src.range(e));
        match e {
            syn::Expr::Block(b) => self.mark_block(&b.block),
            syn::Expr::If(i) => {
                self.mark_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.mark(e)
                }
            }
            syn::Expr::Match(m) => m.arms.iter().for_each(|a| self.mark(&a.body)),
            _ => {}
        }
    }
}

/// the text with the calls written out, and how many
pub fn inline(text: &str, known: &BTreeSet<String>) -> (String, usize) {
    let mut text = text.to_string();
    let mut n = 0;
    while n < 40 {
        let next = {
            let file = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(_) => break,
            };
            let src = Src::new(&text);
            let mut f = Find { src: &src, known, helpers: vec![], ty: None };
            f.visit_file(&file);
            if f.helpers.is_empty() {
                break;
            }
            let helpers = f.helpers;
            let mut c = Calls { src: &src, known, helpers: &helpers, found: None, tail: BTreeSet::new(), fn_ret: String::new(), inside: false };
            c.visit_file(&file);
            match c.found {
                Some((a, b, t)) => {
                    let mut x = text.clone();
                    x.replace_range(a..b, &t);
                    x
                }
                None => break,
            }
        };
        if syn::parse_file(&next).is_err() {
            break;
        }
        text = next;
        n += 1;
    }
    (text, n)
}
