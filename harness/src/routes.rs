//! Routing: C01 C02 C03 C04 C06 C07 C15 C18
use crate::util::*;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{ContextResult, Router};
use obsidian::{App, Body, EndpointExecutor, Method, Request};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub const METHODS: [&str; 5] = ["get", "post", "put", "patch", "delete"];

#[derive(Clone)]
pub struct Tag(pub usize);
#[derive(Clone)]
pub struct MwTag(pub Vec<usize>);

pub struct Mw(pub usize);

#[async_trait]
impl Middleware for Mw {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let mut seen = context.get::<MwTag>().cloned().unwrap_or(MwTag(vec![])).0;
        seen.push(self.0);
        context.add(MwTag(seen));
        ep.next(context).await
    }
}

// ------------------------------------------------------------------ model
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Val {
    routes: BTreeMap<String, usize>,
    mws: Vec<usize>,
}

#[derive(Clone, Default, Debug)]
pub struct Tree {
    kids: BTreeMap<String, Tree>,
    val: Option<Val>,
}

pub fn segments(path: &str) -> Vec<String> {
    path.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

fn is_param(s: &str) -> bool {
    s.starts_with(':')
}

#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub routes: BTreeMap<String, usize>,
    pub mws: Vec<usize>,
    pub params: BTreeMap<String, String>,
}

impl Tree {
    /// the node of the path, or the reason why it is ambiguous
    fn node(&mut self, segs: &[String]) -> Result<&mut Tree, String> {
        let mut cur = self;
        for s in segs {
            if !cur.kids.contains_key(s) {
                if !cur.kids.is_empty() && (is_param(s) || cur.kids.keys().any(|k| is_param(k))) {
                    return Err(format!("ambiguous '{}'", s));
                }
            }
            cur = cur.kids.entry(s.clone()).or_default();
        }
        Ok(cur)
    }

    fn malformed(segs: &[String], more: bool) -> bool {
        segs.iter()
            .enumerate()
            .any(|(i, s)| s.contains('*') && (s != "*" || i + 1 != segs.len() || more))
    }

    fn value(&mut self, path: &str) -> Result<&mut Val, String> {
        let segs = segments(path);
        if Tree::malformed(&segs, false) {
            return Err("malformed".into());
        }
        let node = self.node(&segs)?;
        Ok(node.val.get_or_insert_with(Val::default))
    }

    pub fn add_route(&mut self, path: &str, method: &str, id: usize) -> Result<(), String> {
        let v = self.value(path)?;
        if v.routes.contains_key(method) {
            return Err("duplicate".into());
        }
        v.routes.insert(method.to_string(), id);
        Ok(())
    }

    pub fn add_mw(&mut self, path: &str, id: usize) -> Result<(), String> {
        self.value(path)?.mws.push(id);
        Ok(())
    }

    pub fn mount(&mut self, path: &str, src: Tree) -> Result<(), String> {
        let segs = segments(path);
        if Tree::malformed(&segs, !src.kids.is_empty()) {
            return Err("malformed".into());
        }
        let node = self.node(&segs)?;
        if node.val.is_some() || !node.kids.is_empty() {
            return Err("conflict".into());
        }
        *node = src;
        Ok(())
    }

    /// pattern of the most specific match
    fn find(&self, segs: &[String]) -> Option<Vec<String>> {
        let (s, rest) = segs.split_first()?;
        let name = self.kids.keys().find(|k| is_param(k)).cloned().unwrap_or_else(|| s.clone());
        if name != "*" {
            if let Some(kid) = self.kids.get(&name) {
                let sub = if rest.is_empty() {
                    if kid.val.is_some() {
                        Some(vec![])
                    } else if !is_param(&name) && kid.kids.get("*").map_or(false, |k| k.val.is_some()) {
                        Some(vec!["*".to_string()])
                    } else {
                        None
                    }
                } else {
                    kid.find(rest)
                };
                if let Some(mut p) = sub {
                    p.insert(0, name);
                    return Some(p);
                }
            }
        }
        if self.kids.get("*").map_or(false, |k| k.val.is_some()) {
            return Some(vec!["*".to_string()]);
        }
        None
    }

    pub fn lookup(&self, path: &str) -> Option<Found> {
        let segs = segments(path);
        let pat = if segs.is_empty() { vec![] } else { self.find(&segs)? };
        let mut cur = self;
        let mut mws = cur.val.as_ref().map_or(vec![], |v| v.mws.clone());
        let mut params = BTreeMap::new();
        for (i, p) in pat.iter().enumerate() {
            cur = &cur.kids[p];
            if let Some(v) = &cur.val {
                mws.extend(v.mws.iter());
            }
            if is_param(p) {
                params.entry(p[1..].to_string()).or_insert_with(|| segs[i].clone());
            }
        }
        cur.val.as_ref().map(|v| Found { routes: v.routes.clone(), mws, params })
    }

    pub fn patterns(&self, pre: &str, out: &mut Vec<String>) {
        if self.val.is_some() {
            out.push(format!("{}/", pre));
        }
        for (k, t) in &self.kids {
            t.patterns(&format!("{}/{}", pre, k), out);
        }
    }
}

// ------------------------------------------------------------------ both sides
/// the names of the parameters the handlers tell, while a server is asked
static NAMES: std::sync::Mutex<Option<Vec<String>>> = std::sync::Mutex::new(None);

/// marks the context; over the wire it replies which handler and middlewares ran, and with which parameters
async fn teller(mut ctx: Context, id: usize) -> ContextResult {
    ctx.add(Tag(id));
    let names = NAMES.lock().unwrap_or_else(|e| e.into_inner()).clone();
    match names {
        None => Ok(ctx),
        Some(names) => {
            let params: BTreeMap<String, String> = names.into_iter().filter_map(|n| ctx.param::<String>(&n).ok().map(|v| (n, v))).collect();
            let mws = ctx.get::<MwTag>().cloned().map_or(vec![], |t| t.0);
            ctx.build(json!({ "id": id, "middlewares": mws, "params": params }).to_string()).ok()
        }
    }
}

/// the routers of the case behind a server: {"ops", "wire": [[METHOD, target, path, headers, body]]}
fn wire(prop: &str, case: &Value) -> Result<(), String> {
    let reqs = arr(&case["wire"]);
    if reqs.is_empty() {
        return Ok(());
    }
    let ops = arr(&case["ops"]);
    let mut pats = vec![];
    all_patterns(&ops, "", &mut pats);
    let mut names: Vec<String> = pats.iter().flat_map(|p| segments(p)).filter(|x| is_param(x)).map(|x| x[1..].to_string()).collect();
    names.sort();
    names.dedup();
    let mut app: App = App::new();
    let mut model = Tree::default();
    let mut next = 0;
    for op in &ops {
        next += 1;
        let id = next;
        let path = s(&op[1]);
        let mut m2 = model.clone();
        let h = move |ctx: Context| teller(ctx, id);
        match s(&op[0]).as_str() {
            "self" => continue,
            "mount" => {
                let sub = build(&arr(&op[2]), &mut next);
                if sub.accept_err.is_some() {
                    return Ok(());
                }
                if m2.mount(&path, sub.model).is_err() {
                    continue;
                }
                // a scope is a mount written otherwise
                let real = std::sync::Mutex::new(Some(sub.real));
                let done = match path.strip_prefix('/') {
                    Some(name) if next % 2 == 0 => guarded(|| app.scope(name, |r: &mut Router| *r = real.lock().unwrap().take().unwrap())),
                    _ => guarded(|| app.use_router(&path, real.lock().unwrap().take().unwrap())),
                };
                if done.is_err() {
                    return Ok(());
                }
            }
            kind => {
                if apply_model(&mut m2, op, id).is_err() {
                    continue;
                }
                let done = guarded(|| match kind {
                    "get" => app.get(&path, h),
                    "post" => app.post(&path, h),
                    "put" => app.put(&path, h),
                    "patch" => app.patch(&path, h),
                    "delete" => app.delete(&path, h),
                    "mw" => app.use_service_to(&path, Mw(id)),
                    "use" => app.use_service(Mw(id)),
                    _ => {}
                });
                if done.is_err() {
                    return Ok(()); // C03
                }
            }
        }
        model = m2;
    }
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            *NAMES.lock().unwrap_or_else(|e| e.into_inner()) = None;
        }
    }
    let _reset = Reset;
    *NAMES.lock().unwrap_or_else(|e| e.into_inner()) = Some(names);
    let srv = crate::http::serve(app);
    for q in reqs {
        let (method, target, path) = (s(&q[0]), s(&q[1]), s(&q[2]));
        let hs: Vec<(String, String)> = arr(&q[3]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
        let rep = crate::http::request(srv.port, &method, &target, &hs, s(&q[4]).as_bytes())?;
        let found = model.lookup(&path);
        let want = found.as_ref().and_then(|f| f.routes.get(&method.to_lowercase()).map(|id| (*id, f)));
        let got: Option<Value> = if rep.status == 200 { serde_json::from_slice(&rep.body).ok() } else { None };
        let text = String::from_utf8_lossy(&rep.body).into_owned();
        let (want, got) = match (want, got) {
            (None, None) if rep.status == 404 => continue,
            (None, _) => {
                // no handler: nothing C04 or C06 speak about
                if prop == "C04" || prop == "C06" {
                    continue;
                }
                return Err(format!("{} {} must be answered with 404, got {} {:?}", method, target, rep.status, text));
            }
            (Some((id, f)), got) => (json!({ "id": id, "middlewares": f.mws, "params": f.params }), got.unwrap_or(Value::Null)),
        };
        if (prop == "C04" || prop == "C06") && want["id"] != got["id"] {
            continue;
        }
        let fields: &[&str] = match prop {
            "C01" => &["id"],
            "C04" => &["middlewares"],
            "C06" => &["params"],
            _ => &["id", "middlewares", "params"],
        };
        for k in fields {
            if want[k] != got[k] {
                return Err(format!("{} {}: expected {} {}, got {} {:?}", method, target, k, want[k], rep.status, text));
            }
        }
    }
    Ok(())
}

fn add_wire(r: &mut Rng, case: &mut Value) {
    let qs: Vec<String> = arr(&case["queries"]).iter().map(s).filter(|q| is_target(q)).collect();
    let mut out = vec![];
    for q in qs.iter().take(24) {
        let mut path = q.clone();
        if r.chance(1, 3) {
            // what a percent-encoding means is the matter of the handler
            let i = 1 + r.below(path.len());
            let e = *r.pick(&["%2F", "%61", "%41", "%2A", "%3A", "%20", "%25", "%C3%A9", "%2e", "+", "..", "."]);
            path.insert_str(i, e);
        }
        let mut target = path.clone();
        match r.below(8) {
            0 => target = format!("http://{}{}", r.pick(&["x", "a", "a.b:81", "v"]), target),
            1 => target.push_str(*r.pick(&["?", "?a=b", "?/a", "?x/../y"])),
            _ => {}
        }
        let hs: Vec<(String, String)> = (0..r.below(3)).map(|_| any_header(r)).collect();
        let m = *r.pick(&["GET", "GET", "GET", "POST", "PUT", "PATCH", "DELETE"]);
        let body = if r.chance(1, 4) { "a=b" } else { "" };
        out.push(json!([m, target, path, hs, body]));
    }
    case["wire"] = json!(out);
}

fn apply_real(r: &mut Router, op: &Value, id: usize) {
    let kind = s(&op[0]);
    let path = s(&op[1]);
    let h = move |ctx: Context| teller(ctx, id);
    match kind.as_str() {
        "get" => r.get(&path, h),
        "post" => r.post(&path, h),
        "put" => r.put(&path, h),
        "patch" => r.patch(&path, h),
        "delete" => r.delete(&path, h),
        "mw" => r.use_service_to(&path, Mw(id)),
        "use" => r.use_service(Mw(id)),
        _ => {}
    }
}

fn apply_model(t: &mut Tree, op: &Value, id: usize) -> Result<(), String> {
    let kind = s(&op[0]);
    let path = s(&op[1]);
    match kind.as_str() {
        "mw" => t.add_mw(&path, id),
        "use" => t.add_mw("/", id),
        k if METHODS.contains(&k) => t.add_route(&path, k, id),
        _ => Ok(()),
    }
}

pub struct Built {
    pub real: Router,
    pub model: Tree,
    pub rejected: usize,
    /// disagreement on what is accepted
    pub accept_err: Option<String>,
}

/// Build the router and the model; rejected registrations are left out of both.
pub fn build(ops: &[Value], next: &mut usize) -> Built {
    let mut real = Router::new();
    let mut model = Tree::default();
    let mut rejected = 0;
    let mut accept_err = None;
    for op in ops {
        *next += 1;
        let id = *next;
        let mut m2 = model.clone();
        let mut r2 = real.clone();
        let (want, got) = if s(&op[0]) == "self" {
            let path = s(&op[1]);
            (m2.mount(&path, model.clone()), guarded(|| r2.use_router(&path, real.clone())))
        } else if s(&op[0]) == "mount" {
            let sub = build(&arr(&op[2]), next);
            rejected += sub.rejected;
            if accept_err.is_none() {
                accept_err = sub.accept_err.map(|e| format!("in the mounted router: {}", e));
            }
            let path = s(&op[1]);
            let SubParts { real: sr, model: sm } = SubParts { real: sub.real, model: sub.model };
            (m2.mount(&path, sm), guarded(|| r2.use_router(&path, sr)))
        } else {
            (apply_model(&mut m2, op, id), guarded(|| apply_real(&mut r2, op, id)))
        };
        if want.is_err() != got.is_err() && accept_err.is_none() {
            accept_err = Some(match (&want, &got) {
                (Ok(_), Err(e)) => format!("{} must be accepted, but it panics: {}", op, e),
                (Err(e), _) => format!("{} must be rejected ({}), but it is accepted", op, e),
                _ => unreachable!(),
            });
        }
        match (want, got) {
            (Ok(_), Ok(_)) => {
                model = m2;
                real = r2;
            }
            _ => rejected += 1,
        }
    }
    Built { real, model, rejected, accept_err }
}

struct SubParts {
    real: Router,
    model: Tree,
}

fn ctx() -> Context {
    Context::new(Request::new(Body::empty()), HashMap::new())
}

/// what the router says about a path
pub fn observe(r: &Router, path: &str) -> Option<Found> {
    let res = r.search_route(path)?;
    let mut routes = BTreeMap::new();
    let mut mws = vec![];
    let dummy: std::sync::Arc<dyn obsidian::router::Handler> =
        std::sync::Arc::new(|ctx: Context| async move { Ok(ctx) as ContextResult });
    for mw in res.get_middlewares() {
        let out = block_on(mw.handle(ctx(), EndpointExecutor { route_endpoint: &dummy, middleware: &[] }));
        mws.extend(out.ok().and_then(|c| c.get::<MwTag>().cloned()).map_or(vec![], |t| t.0));
    }
    for m in METHODS.iter().chain(["head", "options", "GETX"].iter()) {
        let method = Method::from_bytes(m.to_uppercase().as_bytes()).unwrap();
        if let Some(route) = res.get_route(&method) {
            let out = block_on(route.handler.call(ctx()));
            let id = out.ok().and_then(|c| c.get::<Tag>().cloned()).map_or(0, |t| t.0);
            routes.insert(m.to_string(), id);
        }
    }
    Some(Found { routes, mws, params: res.get_params().into_iter().collect() })
}

fn part(prop: &str, f: &Option<Found>) -> Value {
    match f {
        None => Value::Null,
        Some(f) => match prop {
            "C01" => json!({ "routes": f.routes }),
            "C07" => json!({ "routes": f.routes }),
            "C04" => json!({ "middlewares": f.mws }),
            "C06" => json!({ "params": f.params }),
            "C02" => json!({ "routes": f.routes, "middlewares": f.mws }),
            _ => json!({ "routes": f.routes, "middlewares": f.mws, "params": f.params }),
        },
    }
}

fn compare(prop: &str, real: &Router, model: &Tree, q: &str, what: &str) -> Result<(), String> {
    let want = model.lookup(q);
    let got = guarded(|| observe(real, q)).map_err(|e| format!("looking up {:?} panics: {}", q, e))?;
    // C04 and C06 speak about the matched path only
    if (prop == "C04" || prop == "C06") && want.as_ref().map(|f| &f.routes) != got.as_ref().map(|f| &f.routes) {
        return Ok(());
    }
    let (w, g) = (part(prop, &want), part(prop, &got));
    if w != g {
        return Err(format!("{}{:?}: expected {}, got {}", what, q, w, g));
    }
    Ok(())
}

pub fn run(prop: &str, case: &Value) -> Result<(), String> {
    let ops = arr(&case["ops"]);
    let queries: Vec<String> = arr(&case["queries"]).iter().map(s).collect();
    let mut n = 0;
    let b = build(&ops, &mut n);
    if prop == "C03" {
        return match b.accept_err {
            Some(e) => Err(e),
            // what is accepted takes effect
            None => {
                let mut pats = vec![];
                b.model.patterns("", &mut pats);
                for p in pats {
                    compare("C02", &b.real, &b.model, &instance(&p), "after the registrations, path ")?;
                }
                Ok(())
            }
        };
    }
    if b.accept_err.is_some() {
        return Ok(()); // the matter of C03
    }
    match prop {
        "C02" => {
            // after every single registration
            for k in 0..=ops.len() {
                let b = build(&ops[..k], &mut 0);
                let mut pats = vec![];
                b.model.patterns("", &mut pats);
                let all = pats.iter().map(|p| instance(p)).chain(queries.iter().cloned());
                for q in all {
                    compare(prop, &b.real, &b.model, &q, &format!("after {} registrations, path ", k))?;
                }
            }
            // in another order
            let mut order: Vec<usize> = (0..ops.len()).collect();
            Rng::new(ops.len() as u64 + 7).shuffle(&mut order);
            let mut r2 = Router::new();
            let mut ids = BTreeMap::new();
            for i in &order {
                let mut k = i + 1;
                if ops.iter().any(|o| s(&o[0]) == "mount") {
                    return Ok(());
                }
                ids.insert(k, k);
                let mut r3 = r2.clone();
                if guarded(|| apply_real(&mut r3, &ops[*i], k)).is_ok() {
                    r2 = r3;
                } else {
                    k = 0;
                }
                let _ = k;
            }
            if b.rejected == 0 {
                for q in &queries {
                    let x = observe(&b.real, q).map(|f| f.routes);
                    let y = observe(&r2, q).map(|f| f.routes);
                    if x != y {
                        return Err(format!("path {:?} depends on the order of the registrations: {:?} in the given order, {:?} in the order {:?}", q, x, y, order));
                    }
                }
            }
            Ok(())
        }
        "C18" => {
            let before: Vec<_> = queries.iter().map(|q| guarded(|| observe(&b.real, q))).collect();
            for (q, r) in queries.iter().zip(&before) {
                if let Err(e) = r {
                    return Err(format!("looking up {:?} panics: {}", q, e));
                }
            }
            for (q, r) in queries.iter().zip(&before).rev() {
                let again = guarded(|| observe(&b.real, q)).ok();
                if again.as_ref() != r.as_ref().ok() {
                    return Err(format!("looking up {:?} again gives {:?} instead of {:?}", q, again, r));
                }
            }
            Ok(())
        }
        _ => {
            for q in &queries {
                compare(prop, &b.real, &b.model, q, "path ")?;
            }
            if prop == "C15" {
                mounted(&ops, &queries)?;
            }
            wire(prop, case)
        }
    }
}

/// the sub router answers below the mount path as it does on its own
fn mounted(ops: &[Value], queries: &[String]) -> Result<(), String> {
    let mut n = 0;
    let b = build(ops, &mut n);
    let mut id = 0;
    for op in ops {
        id += 1;
        if s(&op[0]) != "mount" {
            continue;
        }
        let path = s(&op[1]);
        if path.contains(':') || path.contains('*') {
            id += count(&arr(&op[2]));
            continue;
        }
        let sub = build(&arr(&op[2]), &mut id);
        for q in queries {
            let alone = guarded(|| observe(&sub.real, q)).map_err(|e| e)?;
            let below = guarded(|| observe(&b.real, &format!("{}/{}", path, q))).map_err(|e| e)?;
            if let (Some(a), Some(m)) = (&alone, &below) {
                if segments(q).is_empty() {
                    continue;
                }
                if a.routes != m.routes || a.params != m.params || !m.mws.ends_with(&a.mws) {
                    if b.model.lookup(&format!("{}/{}", path, q)) == below {
                        continue; // mount rejected
                    }
                    return Err(format!("{:?} below the mount path {:?}: {:?}, on its own: {:?}", q, path, m, a));
                }
            }
        }
    }
    Ok(())
}

fn count(ops: &[Value]) -> usize {
    ops.iter().map(|o| 1 + if s(&o[0]) == "mount" { count(&arr(&o[2])) } else { 0 }).sum()
}

/// a request path for the registered path
fn instance(pat: &str) -> String {
    let mut out = String::new();
    for (i, s) in segments(pat).iter().enumerate() {
        out.push('/');
        if is_param(s) {
            out.push_str(&format!("p{}", i));
        } else if s == "*" {
            out.push_str("w/x");
        } else {
            out.push_str(s);
        }
    }
    if out.is_empty() {
        "/".into()
    } else {
        out
    }
}

// ------------------------------------------------------------------ cases
const SEGS: [&str; 16] =
    ["a", "ab", "abc", "b", "abd", "ba", "é", "è", "éa", "ノ", "ノー", "ノマ", "bé", "bè", "a:b", "xyz"];

fn gen_path(r: &mut Rng, malformed: bool) -> String {
    let n = [0, 1, 1, 2, 2, 3, 3, 4, 5][r.below(9)];
    let n = if n > 0 && big(r, 60) { size(r).min(600) } else { n };
    let small = r.chance(1, 2);
    let mut out = String::new();
    for i in 0..n {
        out.push('/');
        if r.chance(1, 12) {
            out.push('/');
        }
        let k = r.below(12);
        if i + 1 == n && k < 2 {
            out.push('*');
        } else if k == 2 || k == 3 {
            let mut x = r.pick(&[":x", ":x", ":x", ":y", ":xy", ":", ":é", "::"]).to_string();
            if odd(r, 12) {
                let mut y = x[1..].to_string();
                spice(r, &mut y);
                x = format!(":{}", text_segment(&y, ""));
            }
            out.push_str(&x);
        } else if malformed && r.chance(1, 15) {
            out.push_str(*r.pick(&["*", "a*", "*a", "**", ":*", "é*"]));
        } else if small {
            out.push_str(SEGS[r.below(5)]);
        } else if odd(r, 8) {
            let mut x = r.pick(&SEGS).to_string();
            spice(r, &mut x);
            out.push_str(&text_segment(&x, "a"));
        } else {
            out.push_str(r.pick(&SEGS));
        }
    }
    if r.chance(1, 4) || out.is_empty() {
        out.push('/');
    }
    if r.chance(1, 10) {
        out = out.trim_start_matches('/').to_string();
    }
    out
}

/// a text as a segment: without separators and patterns
fn text_segment(t: &str, instead: &str) -> String {
    let t: String = t.chars().filter(|c| *c != '/' && *c != '*').collect();
    let t = t.trim_start_matches(':');
    if t.is_empty() {
        instead.to_string()
    } else {
        t.to_string()
    }
}

/// many registrations of one kind around one path
fn gen_many(r: &mut Rng, prop: &str) -> Vec<Value> {
    let base = gen_path(r, false);
    let segs: Vec<String> = segments(&base).into_iter().filter(|x| !x.contains('*')).take(3).collect();
    let base = if segs.is_empty() || r.chance(1, 2) { String::new() } else { format!("/{}", segs.join("/")) };
    let n = size(r).min(if prop == "C02" { 60 } else { 300 });
    let mut out = vec![];
    match r.below(6) {
        0 => {
            // a wide node
            let apart = r.chance(2, 3);
            for i in 0..n {
                // without a common beginning
                let c = char::from_u32(if i < 26 { 0x61 } else { 0x4e00 } + i as u32).unwrap().to_string();
                let c = if apart { c.as_str() } else { *r.pick(&["n", "k", "é", "x"]) };
                out.push(json!([if r.chance(1, 6) { "mw" } else { "get" }, format!("{}/{}{}", base, c, i)]));
            }
            if r.chance(1, 2) {
                out.push(json!(["get", format!("{}/*", base)]));
            }
        }
        1 => {
            for _ in 0..n {
                out.push(json!(["mw", if base.is_empty() { "/".to_string() } else { base.clone() }]));
            }
            out.push(json!(["get", format!("{}/a", base)]));
        }
        2 => {
            // one prefix longer than the other
            let mut p = base.clone();
            for i in 0..n.min(120) {
                p = format!("{}/{}", p, r.pick(&["a", "b", "é"]));
                if r.chance(1, 3) || i + 2 > n {
                    out.push(json!([*r.pick(&["get", "mw", "post"]), p]));
                }
            }
            out.push(json!(["get", format!("{}/*", p)]));
        }
        3 => {
            let x = r.pick(&["a", "é", "ノ", "ab"]).repeat(n);
            for k in 0..4usize {
                out.push(json!(["get", format!("{}/{}{}", base, x, ["", "a", "b", "ba"][k])]));
            }
            out.push(json!(["get", format!("{}/{}", base, x.chars().take(x.chars().count() / 2).collect::<String>())]));
        }
        4 => {
            // many parameters
            let p: String = (0..n.min(80)).map(|i| format!("/:p{}", i)).collect();
            out.push(json!(["get", format!("{}{}", base, p)]));
            out.push(json!(["mw", format!("{}{}", base, p)]));
        }
        _ => {
            // mounts inside of mounts
            let mut ops: Vec<Value> = vec![json!(["get", "/a"]), json!(["get", "/"]), json!(["mw", "/"])];
            for i in 0..n.min(20) {
                ops = vec![json!(["mount", format!("/{}", r.pick(&["m", "a", "é", "m/n"])), ops])];
                if r.chance(1, 3) {
                    ops.push(json!(["get", format!("/x{}", i)]));
                }
                if r.chance(1, 3) {
                    ops.push(json!(["mw", "/"]));
                }
            }
            out = ops;
        }
    }
    if prop == "C15" || (prop != "C02" && r.chance(1, 6)) {
        out = vec![json!(["mount", *r.pick(&["/m", "/", "/a/b"]), out])];
    }
    if r.chance(1, 3) {
        r.shuffle(&mut out);
    }
    out
}

fn gen_ops(r: &mut Rng, prop: &str, depth: usize) -> Vec<Value> {
    if depth == 0 && big(r, 40) {
        return gen_many(r, prop);
    }
    let n = 1 + r.below(if prop == "C18" { 14 } else { 9 });
    let mut used: Vec<String> = vec![];
    let mut out = vec![];
    for _ in 0..n {
        let malformed = prop == "C03";
        let path = if !used.is_empty() && r.chance(1, 2) {
            // near an earlier path
            let base = r.pick(&used).clone();
            let mut segs = segments(&base);
            match r.below(5) {
                0 => segs.push(r.pick(&SEGS).to_string()),
                1 => {
                    segs.pop();
                }
                2 => {
                    if let Some(l) = segs.last_mut() {
                        l.push_str(r.pick(&["a", "b", "é", "è"]));
                    }
                }
                3 => {
                    if let Some(l) = segs.last_mut() {
                        if l.chars().count() > 1 {
                            l.pop();
                        }
                    }
                }
                _ => {}
            }
            if r.chance(1, 8) {
                segs.pop();
                segs.push("*".into());
            }
            let p = format!("/{}", segs.join("/"));
            if !malformed && Tree::malformed(&segs, false) {
                gen_path(r, false)
            } else {
                p
            }
        } else {
            gen_path(r, malformed)
        };
        used.push(path.clone());
        let k = r.below(20);
        let mount_w = match prop {
            "C15" => 9,
            "C02" => 0,
            _ => 2,
        };
        if depth < 2 && k < mount_w {
            out.push(json!(["mount", path, gen_ops(r, prop, depth + 1)]));
        } else if k == 12 && prop != "C02" && r.chance(1, 2) {
            out.push(json!(["self", path]));
        } else if k < 13 {
            let m = if r.chance(1, 2) { "get" } else { *r.pick(&METHODS) };
            out.push(json!([m, path]));
        } else if k < 19 {
            // now and then a whole stack of them
            let n = if (prop == "C04" || prop == "C15") && r.chance(1, 5) { 2 + r.below(16) } else { 1 };
            for _ in 0..n {
                out.push(json!(["mw", path]));
            }
        } else {
            out.push(json!(["use", "/"]));
        }
    }
    out
}

fn all_patterns(ops: &[Value], pre: &str, out: &mut Vec<String>) {
    for o in ops {
        let p = format!("{}/{}", pre, s(&o[1]));
        out.push(p.clone());
        if s(&o[0]) == "mount" {
            all_patterns(&arr(&o[2]), &p, out);
        }
        if s(&o[0]) == "self" {
            for q in out.clone().iter().filter(|q| q.starts_with(pre)).take(12) {
                out.push(format!("{}/{}", p, &q[pre.len()..]));
            }
        }
    }
}

fn gen_queries(r: &mut Rng, ops: &[Value], n: usize, weird: bool) -> Vec<String> {
    let mut pats = vec![];
    all_patterns(ops, "", &mut pats);
    let mut out = vec!["/".to_string(), "".to_string()];
    for p in pats.iter().take(40) {
        out.push(instance(p));
    }
    if pats.len() > 40 {
        for p in pats.iter().rev().take(20) {
            out.push(instance(p));
        }
    }
    for _ in 0..n {
        let mut segs: Vec<String> = if pats.is_empty() || r.chance(1, 6) {
            segments(&gen_path(r, true))
        } else {
            segments(r.pick(&pats))
        };
        for x in segs.iter_mut() {
            if is_param(x) && r.chance(3, 4) {
                *x = r.pick(&["a", "v", "é", "ab", "abé", "ノマノ", "*", ":x"]).to_string();
                if odd(r, 3) {
                    spice(r, x);
                }
            } else if x == "*" && r.chance(3, 4) {
                *x = r.pick(&["q", "a", "*", "a/b", "é/é/é", "a*"]).to_string();
                if odd(r, 6) {
                    spice(r, x);
                }
                if big(r, 20) {
                    *x = "q/".repeat(size(r).min(600));
                }
            } else if r.chance(1, 8) {
                match r.below(5) {
                    0 => x.push_str(r.pick(&["a", "b", "é", "*"])),
                    1 => {
                        x.pop();
                    }
                    2 => *x = r.pick(&SEGS).to_string(),
                    3 if r.chance(1, 2) => spice(r, x),
                    3 => {
                        let h: String = x.chars().take(1).collect();
                        *x = h;
                    }
                    _ => *x = format!("{}/{}", x.chars().take(1).collect::<String>(), x.chars().skip(1).collect::<String>()),
                }
            }
        }
        match r.below(8) {
            0 => {
                segs.pop();
            }
            1 => segs.push(r.pick(&SEGS).to_string()),
            3 if odd(r, 4) && !segs.is_empty() => {
                let i = r.below(segs.len());
                spice(r, &mut segs[i]);
            }
            2 => {
                if segs.len() > 1 {
                    let i = r.below(segs.len() - 1);
                    let t = segs.remove(i + 1);
                    segs[i].push_str(&t);
                }
            }
            _ => {}
        }
        let mut q = String::new();
        for x in &segs {
            q.push('/');
            if r.chance(1, 10) {
                q.push('/');
            }
            q.push_str(x);
        }
        if r.chance(1, 4) {
            q.push('/');
        }
        if r.chance(1, 12) {
            q = q.trim_start_matches('/').to_string();
        }
        out.push(q);
    }
    if weird {
        out.push("/".repeat(1 + r.below(50)));
        out.push("/a".repeat(r.below(400)));
        out.push("é".repeat(r.below(3000)));
        out.push("/\u{0}/\u{10ffff}".to_string());
        let mut t = String::new();
        for _ in 0..r.below(40) {
            t.push(*r.pick(&['/', 'a', 'b', 'é', 'è', 'ノ', ':', '*', '%', '\u{1f600}', '.']));
        }
        out.push(t);
    }
    out
}

pub fn gen(prop: &str, r: &mut Rng) -> Value {
    let ops = gen_ops(r, prop, 0);
    let n = if prop == "C03" { 0 } else { 10 };
    let queries = gen_queries(r, &ops, n, prop == "C18");
    let mut case = json!({ "ops": ops, "queries": queries });
    if ["C01", "C04", "C06", "C15"].contains(&prop) && r.chance(1, 60) {
        add_wire(r, &mut case);
    }
    case
}

/// every sequence of up to `len` registrations on paths with up to two segments of a small alphabet
pub fn enumerate(prop: &str, len: usize, f: &mut dyn FnMut(Value) -> bool) -> u64 {
    let alpha: &[&str] = if prop == "C03" {
        &["a", "ab", "é", "è", ":x", ":y", "*"]
    } else {
        &["a", "ab", "é", "è", ":x", "*"]
    };
    let mut paths = vec!["/".to_string()];
    for a in alpha {
        paths.push(format!("/{}", a));
        for b in alpha {
            paths.push(format!("/{}/{}", a, b));
        }
    }
    let ok = |p: &String| prop == "C03" || !Tree::malformed(&segments(p), false);
    paths.retain(ok);
    let mut ops = vec![];
    for p in &paths {
        ops.push(json!(["get", p]));
        if prop != "C01" && prop != "C06" {
            ops.push(json!(["mw", p]));
        }
        if prop == "C15" || prop == "C03" {
            ops.push(json!(["mount", p, [["get", "/"]]]));
            ops.push(json!(["mount", p, [["get", "/:x/b"], ["mw", "/"]]]));
            ops.push(json!(["mount", p, []]));
        }
    }
    let qalpha = ["a", "ab", "é", "è", "b", "abc", ":x", "*"];
    let mut queries = vec!["/".to_string()];
    for a in qalpha {
        queries.push(format!("/{}", a));
        for b in qalpha {
            queries.push(format!("/{}/{}", a, b));
        }
        queries.push(format!("/{}/b/c", a));
    }
    if prop == "C03" {
        queries.clear();
    }
    let mut idx = vec![];
    let mut n = 0u64;
    fn go(ops: &[Value], len: usize, idx: &mut Vec<usize>, queries: &[String], n: &mut u64, f: &mut dyn FnMut(Value) -> bool) -> bool {
        if !idx.is_empty() {
            *n += 1;
            let case = json!({"ops": idx.iter().map(|i| ops[*i].clone()).collect::<Vec<_>>(), "queries": queries});
            if !f(case) {
                return false;
            }
        }
        if idx.len() == len {
            return true;
        }
        for i in 0..ops.len() {
            idx.push(i);
            let go_on = go(ops, len, idx, queries, n, f);
            idx.pop();
            if !go_on {
                return false;
            }
        }
        true
    }
    go(&ops, len, &mut idx, &queries, &mut n, f);
    n
}
