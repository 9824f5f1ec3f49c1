//! The format of the spec files.
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum Anchor {
    Start,
    End,
    /// after everything, for functions without a result
    Finish,
    /// also before every `return` without a value
    FinishAll,
    Loop(usize),
    LoopStart(usize),
    LoopEnd(usize),
    LoopBefore(usize),
    LoopAfter(usize),
    /// after `let mut __itN = ..;`
    LoopInit(usize),
    Before(String, usize),
    After(String, usize),
    Arm(String, usize),
    /// `return E` -> `{ let __r = E; .. return __r }`
    Returning(String, usize),
    Closure(usize, String),
}

#[derive(Clone, Debug)]
pub struct Ghost {
    pub at: Anchor,
    pub text: String,
    pub line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub name: String,
    pub line: usize,
    pub ret: Option<String>,
    pub attr: Option<String>,
    /// not part of this property: the contract is kept, the body is not verified
    pub assumed: bool,
    pub spec: String,
    pub panic: Option<String>,
    pub for_as_while: bool,
    pub str_slices: bool,
    pub widen: bool,
    /// rewrites for this function only
    pub methods: HashMap<String, String>,
    pub paths: HashMap<String, String>,
    /// a.m1(x).m2(y) -> f(&mut a, x, y)
    pub chains: Vec<(String, String, String)>,
    /// x(a) -> f(&x, a)
    pub calls: HashMap<String, String>,
    /// `format!` with plain placeholders is a concatenation
    pub format: bool,
    /// `x[a..]` is a slice of a slice, not of a text
    pub slices: bool,
    pub anchors: Vec<Ghost>,
}

#[derive(Clone, Debug, Default)]
pub struct Extract {
    pub name: String,
    pub from: String,
    pub closure: Option<usize>,
    pub asynk: Option<usize>,
    pub sig: String,
    pub line: usize,
    pub subst: Vec<(String, String)>,
    /// stands for the tail expression, which is not extracted
    pub tail: Option<String>,
    /// the tail expression is a future: await it
    pub tail_await: bool,
    pub spec: FnSpec,
}

#[derive(Default)]
pub struct SpecFile {
    pub active: bool,
    pub items: HashSet<String>,
    pub external_impls: HashSet<String>,
    pub fns: Vec<FnSpec>,
    pub extracts: Vec<Extract>,
    pub ghost: String,
    pub ghost_line: usize,
    pub impl_ghost: HashMap<String, (usize, String)>,
    pub methods: HashMap<String, String>,
    pub paths: HashMap<String, String>,
    /// macros of the file that are written out before weaving
    pub expand: Vec<String>,
}

/// `//#if C01 C02` .. `//#endif` keeps the lines between for these properties only
/// (`//#ifnot ..` for all others); kept line numbers stay the same.
pub fn filter_props(text: &str, prop: &str) -> String {
    let mut keep = vec![true];
    let mut out = String::new();
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//#ifnot") {
            let c = !r.split_whitespace().any(|p| p == prop) || prop == "ALL";
            keep.push(c && *keep.last().unwrap());
        } else if let Some(r) = t.strip_prefix("//#if") {
            let c = r.split_whitespace().any(|p| p == prop) || prop == "ALL";
            keep.push(c && *keep.last().unwrap());
        } else if t.starts_with("//#endif") {
            keep.pop();
        } else if *keep.last().unwrap() {
            out.push_str(l);
        }
        out.push('\n');
    }
    assert!(keep.len() == 1, "unbalanced //#if");
    out
}

fn quoted(s: &str) -> (String, usize) {
    // "text" [#n]
    let a = s.find('"').expect("quote");
    let b = s.rfind('"').expect("quote");
    let n = s[b + 1..].trim().strip_prefix('#').map(|x| x.parse().unwrap()).unwrap_or(0);
    (s[a + 1..b].to_string(), n)
}

enum Target {
    None,
    Ghost,
    ImplGhost(String),
    Spec,
    Panic,
    Anchor,
    Sig,
}

pub fn parse(text: &str, prop: &str) -> SpecFile {
    let text = filter_props(text, prop);
    let mut sp = SpecFile { active: true, ..Default::default() };
    let mut target = Target::None;
    let mut in_extract = false;
    let mut default_assumed = false;
    for (no, l) in text.lines().enumerate() {
        let no = no + 1;
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (cmd, rest) = match d.find(char::is_whitespace) {
                Some(i) => (&d[..i], d[i..].trim()),
                None => (d, ""),
            };
            target = Target::None;
            macro_rules! cur {
                () => {
                    if in_extract {
                        &mut sp.extracts.last_mut().unwrap().spec
                    } else {
                        sp.fns.last_mut().unwrap()
                    }
                };
            }
            macro_rules! anchor {
                ($a:expr) => {{
                    let a = $a;
                    cur!().anchors.push(Ghost { at: a, text: String::new(), line: no });
                    target = Target::Anchor;
                }};
            }
            match cmd {
                "for" => {
                    let out = prop != "ALL" && !rest.split_whitespace().any(|p| p == prop);
                    if sp.fns.is_empty() && sp.extracts.is_empty() {
                        default_assumed = out;
                    } else {
                        cur!().assumed = out;
                    }
                }
                "only" => {
                    if prop != "ALL" && !rest.split_whitespace().any(|p| p == prop) {
                        sp.active = false;
                    }
                }
                "expand" => sp.expand.push(rest.to_string()),
                "item" => {
                    sp.items.insert(rest.to_string());
                }
                "method" => {
                    let (a, b) = rest.split_once('=').unwrap();
                    sp.methods.insert(a.trim().into(), b.trim().into());
                }
                "path" => {
                    let (a, b) = rest.split_once('=').unwrap();
                    sp.paths.insert(a.trim().into(), b.trim().into());
                }
                "fmethod" => {
                    let (a, b) = rest.split_once('=').unwrap();
                    cur!().methods.insert(a.trim().into(), b.trim().into());
                }
                "fpath" => {
                    let (a, b) = rest.split_once('=').unwrap();
                    cur!().paths.insert(a.trim().into(), b.trim().into());
                }
                "assumed" => cur!().assumed = true,
                "slices" => cur!().slices = true,
                "format" => cur!().format = true,
                "fcall" => {
                    let (a, b) = rest.split_once('=').unwrap();
                    cur!().calls.insert(a.trim().into(), b.trim().into());
                }
                "chain" => {
                    // m1.m2 = f
                    let (a, b) = rest.split_once('=').unwrap();
                    let (m1, m2) = a.trim().split_once('.').unwrap();
                    cur!().chains.push((m1.into(), m2.into(), b.trim().into()));
                }
                "ghost" => {
                    if sp.ghost_line == 0 {
                        sp.ghost_line = no;
                    }
                    target = Target::Ghost;
                }
                "implghost" => {
                    sp.impl_ghost.insert(rest.to_string(), (no, String::new()));
                    target = Target::ImplGhost(rest.to_string());
                }
                "fn" => {
                    in_extract = false;
                    sp.fns.push(FnSpec {
                        name: rest.to_string(),
                        line: no,
                        assumed: default_assumed,
                        str_slices: true,
                        widen: true,
                        ..Default::default()
                    });
                }
                "extract" => {
                    // NAME from FN [closure N] [async N]
                    in_extract = true;
                    let (name, r) = rest.split_once(" from ").unwrap();
                    let mut x = Extract { name: name.trim().into(), line: no, ..Default::default() };
                    let mut from = r.trim().to_string();
                    if let Some(i) = from.find(" closure ") {
                        x.closure = Some(from[i + 9..].trim().parse().unwrap());
                        from.truncate(i);
                    } else if let Some(i) = from.find(" async ") {
                        x.asynk = Some(from[i + 7..].trim().parse().unwrap());
                        from.truncate(i);
                    }
                    x.from = from;
                    x.spec.name = x.name.clone();
                    x.spec.str_slices = true;
                    x.spec.assumed = default_assumed;
                    sp.extracts.push(x);
                }
                "sig" => target = Target::Sig,
                "tail" => sp.extracts.last_mut().unwrap().tail = Some(rest.to_string()),
                "tailawait" => sp.extracts.last_mut().unwrap().tail_await = true,
                "subst" => {
                    let (a, b) = rest.split_once("=>").unwrap();
                    sp.extracts.last_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
                }
                "ret" => cur!().ret = Some(rest.to_string()),
                "attr" => cur!().attr = Some(rest.to_string()),
                "forwhile" => cur!().for_as_while = true,
                "noslices" => cur!().str_slices = false,
                "spec" => target = Target::Spec,
                "panic" => {
                    cur!().panic = Some(String::new());
                    target = Target::Panic
                }
                "start" => anchor!(Anchor::Start),
                "end" => anchor!(Anchor::End),
                "finish" if rest == "returns" => anchor!(Anchor::FinishAll),
                "finish" => anchor!(Anchor::Finish),
                "loop" => anchor!(Anchor::Loop(rest.parse().unwrap())),
                "loopstart" => anchor!(Anchor::LoopStart(rest.parse().unwrap())),
                "loopend" => anchor!(Anchor::LoopEnd(rest.parse().unwrap())),
                "loopbefore" => anchor!(Anchor::LoopBefore(rest.parse().unwrap())),
                "loopafter" => anchor!(Anchor::LoopAfter(rest.parse().unwrap())),
                "loopinit" => anchor!(Anchor::LoopInit(rest.parse().unwrap())),
                "before" => {
                    let (s, n) = quoted(rest);
                    anchor!(Anchor::Before(s, n))
                }
                "after" => {
                    let (s, n) = quoted(rest);
                    anchor!(Anchor::After(s, n))
                }
                "arm" => {
                    let (s, n) = quoted(rest);
                    anchor!(Anchor::Arm(s, n))
                }
                "returning" => {
                    let (s, n) = quoted(rest);
                    anchor!(Anchor::Returning(s, n))
                }
                "closure" => {
                    let (n, h) = rest.split_once(' ').unwrap();
                    anchor!(Anchor::Closure(n.parse().unwrap(), h.trim().to_string()))
                }
                _ => panic!("unknown directive {} in line {}", cmd, no),
            }
            if let Target::Ghost = target {
                sp.ghost.push('\n');
            }
            continue;
        }
        let f = if in_extract {
            sp.extracts.last_mut().map(|x| &mut x.spec)
        } else {
            sp.fns.last_mut()
        };
        match &target {
            Target::None => assert!(t.is_empty() || t.starts_with("//"), "stray line {}", no),
            Target::Ghost => {
                sp.ghost.push_str(l);
                sp.ghost.push('\n');
            }
            Target::ImplGhost(n) => {
                let e = sp.impl_ghost.get_mut(n).unwrap();
                e.1.push_str(l);
                e.1.push('\n');
            }
            Target::Spec => {
                let f = f.unwrap();
                f.spec.push_str(l);
                f.spec.push('\n');
            }
            Target::Panic => {
                let p = f.unwrap().panic.as_mut().unwrap();
                p.push_str(l);
                p.push(' ');
            }
            Target::Anchor => {
                let a = f.unwrap().anchors.last_mut().unwrap();
                a.text.push_str(l);
                a.text.push('\n');
            }
            Target::Sig => {
                let x = sp.extracts.last_mut().unwrap();
                x.sig.push_str(l);
                x.sig.push('\n');
            }
        }
    }
    sp
}
