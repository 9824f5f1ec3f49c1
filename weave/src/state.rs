//! State that outlives a call: no contract describes it, so a function under contract must not reach it.
//! (The contracts are relations between the arguments and the result of a function; the functions of the
//! unchanged source hold no state of this kind.)

use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};

const CELLS: &[&str] = &[
    "Mutex", "RwLock", "RefCell", "Cell", "OnceCell", "OnceLock", "LazyLock", "LazyCell", "Lazy", "UnsafeCell", "SyncUnsafeCell",
    "ThreadLocal", "LocalKey", "Once", "Condvar", "Semaphore", "Notify", "Barrier", "DashMap", "ArcSwap", "SystemTime",
];
/// what a function asks its surroundings for
const ASKS: &[(&str, &str)] = &[
    ("env", "var"), ("env", "var_os"), ("env", "vars"), ("env", "args"), ("thread", "current"), ("process", "id"), ("Instant", "now"),
    ("Arc", "strong_count"), ("Arc", "get_mut"), ("Arc", "get_mut_unchecked"),
];

fn cell(w: &str) -> bool {
    CELLS.contains(&w) || (w.starts_with("Atomic") && w.len() > 6)
}

#[derive(Default)]
pub struct State {
    /// statics and fields which hold state: name -> where
    pub names: BTreeMap<String, String>,
    pub fields: BTreeMap<String, String>,
    fns: Vec<(String, String, Vec<String>)>,
}

fn words(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                out.push("(".into());
                words(g.stream(), out);
                out.push(")".into());
            }
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            proc_macro2::TokenTree::Literal(_) => out.push("0".into()),
        }
    }
}

fn words_of<T: ToTokens>(t: &T) -> Vec<String> {
    let mut w = vec![];
    words(t.to_token_stream(), &mut w);
    w
}

fn test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let w = words_of(a);
        w.iter().any(|x| x == "test") && !w.iter().any(|x| x == "not")
    })
}

struct Walk<'a> {
    rel: &'a str,
    st: &'a mut State,
}

impl<'a, 'ast> Visit<'ast> for Walk<'a> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if !test(&f.attrs) {
            self.st.fns.push((self.rel.into(), f.sig.ident.to_string(), words_of(f)));
            visit::visit_item_fn(self, f);
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        if !test(&f.attrs) {
            self.st.fns.push((self.rel.into(), f.sig.ident.to_string(), words_of(f)));
            visit::visit_impl_item_fn(self, f);
        }
    }
    fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
        self.st.fns.push((self.rel.into(), f.sig.ident.to_string(), words_of(f)));
        visit::visit_trait_item_fn(self, f);
    }
    fn visit_item_static(&mut self, s: &'ast syn::ItemStatic) {
        let w = words_of(&s.ty);
        if matches!(s.mutability, syn::StaticMutability::Mut(_)) || w.iter().any(|x| cell(x)) {
            self.st.names.insert(s.ident.to_string(), format!("static {}: {}", s.ident, w.join("")));
        }
    }
    fn visit_field(&mut self, f: &'ast syn::Field) {
        let w = words_of(&f.ty);
        if let (Some(i), true) = (&f.ident, w.iter().any(|x| cell(x))) {
            self.st.fields.insert(i.to_string(), format!("field {}: {}", i, w.join("")));
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "thread_local" || n == "lazy_static" || n == "static_init" {
            let mut w = vec![];
            words(m.tokens.clone(), &mut w);
            for i in 0..w.len() {
                if w[i] == "static" && i + 1 < w.len() {
                    let k = if w[i + 1] == "ref" { i + 2 } else { i + 1 };
                    if let Some(x) = w.get(k) {
                        self.st.names.insert(x.clone(), format!("{}! {}", n, x));
                    }
                }
            }
        }
    }
}

impl State {
    pub fn file(&mut self, rel: &str, text: &str) {
        if let Ok(f) = syn::parse_file(text) {
            Walk { rel, st: self }.visit_file(&f);
        }
    }

    /// the functions which reach state: (file, function, what)
    pub fn reached(&self, known: &BTreeSet<String>) -> Vec<(String, String, String)> {
        let mut out: Vec<(String, String, String)> = vec![];
        let logs = |f: &str| f == "middleware/logger.rs";
        for (f, n, w) in &self.fns {
            let mut hit = None;
            for (i, x) in w.iter().enumerate() {
                let ask = |a: &str, b: &str| {
                    x == a && i + 3 < w.len() && w[i + 1] == ":" && w[i + 3] == b && !(logs(f) && a == "Instant")
                };
                if cell(x) {
                    hit = Some(x.clone());
                } else if let Some(d) = self.names.get(x) {
                    hit = Some(d.clone());
                } else if i > 0 && w[i - 1] == "." && self.fields.contains_key(x) {
                    hit = self.fields.get(x).cloned();
                } else if let Some((a, b)) = ASKS.iter().find(|(a, b)| ask(a, b)) {
                    hit = Some(format!("{}::{}", a, b));
                } else if x == "static" && i + 1 < w.len() && w[i + 1] == "mut" {
                    hit = Some("static mut".into());
                }
                if hit.is_some() {
                    break;
                }
            }
            if let Some(h) = hit {
                out.push((f.clone(), n.clone(), h));
            }
        }
        // through helpers which the unchanged source does not have
        loop {
            let mut more = vec![];
            for (f, n, w) in &self.fns {
                if out.iter().any(|(a, b, _)| a == f && b == n) {
                    continue;
                }
                for (i, x) in w.iter().enumerate() {
                    let call = i + 1 < w.len() && w[i + 1] == "(" && !known.contains(x);
                    if let (true, Some((_, _, h))) = (call, out.iter().find(|(_, b, _)| b == x)) {
                        more.push((f.clone(), n.clone(), format!("{} (through {})", h, x)));
                        break;
                    }
                }
            }
            if more.is_empty() {
                return out;
            }
            out.extend(more);
        }
    }

    pub fn names_of_fns(&self) -> BTreeSet<String> {
        self.fns.iter().map(|f| f.1.clone()).collect()
    }
}
