//! Middleware chain, responses and contexts: C05 C09 C10 C17 C19
use crate::util::*;
use async_trait::async_trait;
use hyper::header::HeaderName;
use obsidian::context::{Context, ResponseBuilder};
use obsidian::middleware::{logger::Logger, Middleware};
use obsidian::router::{ContextResult, Handler, Responder, Response};
use obsidian::{Body, EndpointExecutor, ObsidianError, Request, StatusCode};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub type Log = Arc<Mutex<Vec<String>>>;

// ------------------------------------------------------------------ chain
#[derive(Clone, Default, Debug, PartialEq)]
struct Trail(Vec<String>);

/// everything a middleware can see of a context
fn look(c: &Context) -> String {
    let mut headers: Vec<_> = c.headers().iter().map(|(k, v)| format!("{}={:?}", k, v)).collect();
    headers.sort();
    format!(
        "{} {} {:?} {:?} p={:?} q={:?} ext={} resp={:?}",
        c.method(),
        c.uri(),
        headers,
        c.get::<Trail>(),
        c.param::<String>("p").ok(),
        c.param::<String>("q").ok(),
        c.extensions().len(),
        c.response().as_ref().map(|r| (r.status(), r.headers().clone()))
    )
}

struct Step {
    name: String,
    kind: String,
    log: Log,
    total: usize,
    /// its places in the chain: the same middleware may stand in several
    pos: Mutex<std::collections::VecDeque<usize>>,
}

/// which of the chain's middlewares stands at each place
fn places(case: &Value, n: usize) -> Vec<usize> {
    let same = arr(&case["same"]);
    let mut out: Vec<usize> = vec![];
    for i in 0..n {
        let q = same.get(i).and_then(|x| x.as_u64()).map(|q| q as usize).filter(|q| *q < i);
        out.push(q.map_or(i, |q| out[q]));
    }
    out
}

fn mark(c: &mut Context, s: String) {
    let mut t = c.get::<Trail>().cloned().unwrap_or_default();
    t.0.push(s);
    c.add(t);
}

#[async_trait]
impl Middleware for Step {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        self.log.lock().unwrap().push(format!("in {} {}", self.name, look(&context)));
        let pos = self.pos.lock().unwrap().pop_front();
        if Some(ep.middleware.len()) != pos.map(|p| self.total - p - 1) {
            self.log.lock().unwrap().push(format!("{} has {} left", self.name, ep.middleware.len()));
        }
        match self.kind.as_str() {
            "stop" => {
                mark(&mut context, format!("stop {}", self.name));
                Ok(context)
            }
            "stop_err" => Err(ObsidianError::GeneralError(format!("stop {}", self.name))),
            "mark" => {
                mark(&mut context, format!("before {}", self.name));
                let mut r = ep.next(context).await?;
                mark(&mut r, format!("after {}", self.name));
                Ok(r)
            }
            "err_after" => {
                let r = ep.next(context).await;
                self.log.lock().unwrap().push(format!("back {} {:?}", self.name, r.map(|c| look(&c)).map_err(|e| format!("{:?}", e))));
                Err(ObsidianError::ParamError(format!("after {}", self.name)))
            }
            "log_after" => {
                let r = ep.next(context).await;
                let t = match &r {
                    Ok(c) => look(c),
                    Err(e) => format!("err {:?}", e),
                };
                self.log.lock().unwrap().push(format!("back {} {}", self.name, t));
                r
            }
            "yield" => {
                tokio::task::yield_now().await;
                let r = ep.next(context).await;
                tokio::task::yield_now().await;
                r
            }
            "param_err" => Err(ObsidianError::NoneError),
            _ => ep.next(context).await,
        }
    }
}

const KINDS: [&str; 8] = ["pass", "mark", "log_after", "yield", "err_after", "stop", "stop_err", "param_err"];
const ENDS: [&str; 8] = ["ok", "text", "headers", "none", "err", "none_err", "err_mb", "form_err"];
const MORE_ENDS: [&str; 6] = ["s500", "s204", "s100", "s599", "empty", "big"];

fn status_end(k: &str) -> Option<u16> {
    k.strip_prefix('s').and_then(|n| n.parse().ok())
}

fn endpoint(kind: String, log: Log) -> Arc<dyn Handler> {
    Arc::new(move |mut ctx: Context| {
        let kind = kind.clone();
        let log = log.clone();
        async move {
            log.lock().unwrap().push(format!("end {}", look(&ctx)));
            mark(&mut ctx, "end".into());
            match kind.as_str() {
                "ok" => ctx.build(StatusCode::IM_A_TEAPOT).ok(),
                "empty" => ctx.build("").with_header_str("x-empty", "").ok(),
                "big" => ctx.build("x".repeat(100_000)).ok(),
                k if status_end(k).is_some() => ctx.build("status").with_status(StatusCode::from_u16(status_end(k).unwrap()).unwrap()).ok(),
                "text" => ctx.build("text é").ok(),
                "headers" => ctx.build("x").with_header_str("x-a", "1").with_header_str("x-a", "2").ok(),
                "err" => Err(ObsidianError::GeneralError("broken".into())),
                "err_mb" => Err(ObsidianError::ParamError("kaputt é".into())),
                "none_err" => Err(ObsidianError::NoneError),
                "form_err" => Err(ObsidianError::FormError(obsidian::router::FormError::Message("form".into()))),
                _ => Ok(ctx),
            }
        }
    })
}

/// what a chain of these steps must do
fn model(kinds: &[String], names: &[usize], i: usize, end: &str, trail: Vec<String>, log: &mut Vec<String>) -> Result<(Vec<String>, Option<String>), String> {
    let mut trail = trail;
    if i == kinds.len() {
        log.push("end".into());
        trail.push("end".into());
        return match end {
            "ok" => Ok((trail, Some("418".into()))),
            "text" | "headers" | "empty" | "big" => Ok((trail, Some("200".into()))),
            k if status_end(k).is_some() => Ok((trail, status_end(k).map(|n| n.to_string()))),
            "err" => Err("GeneralError(\"broken\")".into()),
            "err_mb" => Err("ParamError(\"kaputt é\")".into()),
            "none_err" => Err("NoneError".into()),
            "form_err" => Err("FormError(Message(\"form\"))".into()),
            _ => Ok((trail, None)),
        };
    }
    let name = names[i];
    log.push(format!("in {}", name));
    match kinds[i].as_str() {
        "stop" => {
            trail.push(format!("stop {}", name));
            Ok((trail, None))
        }
        "stop_err" => Err(format!("GeneralError(\"stop {}\")", name)),
        "param_err" => Err("NoneError".into()),
        "mark" => {
            trail.push(format!("before {}", name));
            let (mut t, r) = model(kinds, names, i + 1, end, trail, log)?;
            t.push(format!("after {}", name));
            Ok((t, r))
        }
        "err_after" => {
            let _ = model(kinds, names, i + 1, end, trail, log);
            log.push(format!("back {}", name));
            Err(format!("ParamError(\"after {}\")", name))
        }
        "log_after" => {
            let r = model(kinds, names, i + 1, end, trail, log);
            log.push(format!("back {}", name));
            r
        }
        _ => model(kinds, names, i + 1, end, trail, log),
    }
}

fn request(case: &Value) -> Context {
    let mut rb = Request::builder()
        .method(case["method"].as_str().unwrap_or("GET"))
        .uri(case["uri"].as_str().unwrap_or("/a/b?c=d"));
    for h in arr(&case["headers"]) {
        rb = rb.header(s(&h[0]), s(&h[1]));
    }
    let mut params = HashMap::new();
    for (k, v) in case["params"].as_object().cloned().unwrap_or_default() {
        params.insert(k, s(&v));
    }
    Context::new(rb.body(Body::from(s(&case["body"]))).unwrap(), params)
}

struct Ran {
    log: Vec<String>,
    out: Result<(Vec<String>, Option<String>, String, Vec<u8>, Option<Vec<(String, String)>>, Vec<u8>), String>,
}

/// run the chain; position of a logger in it
fn run_chain(case: &Value, logger: Option<usize>) -> Ran {
    let kinds: Vec<String> = arr(&case["chain"]).iter().map(s).collect();
    let log: Log = Default::default();
    let end = endpoint(s(&case["end"]), log.clone());
    let mut mws: Vec<Arc<dyn Middleware>> = vec![];
    let n = kinds.len() + logger.map_or(0, |_| 1);
    let places = places(case, kinds.len());
    let steps: Vec<Arc<Step>> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let at = |j: usize| j + if logger.map_or(false, |l| l <= j) { 1 } else { 0 };
            Arc::new(Step {
                name: i.to_string(),
                kind: k.clone(),
                log: log.clone(),
                total: n,
                pos: Mutex::new((0..kinds.len()).filter(|j| places[*j] == i).map(at).collect()),
            })
        })
        .collect();
    for i in 0..kinds.len() {
        if logger == Some(i) {
            mws.push(Arc::new(Logger::new()));
        }
        mws.push(steps[places[i]].clone());
    }
    if logger == Some(kinds.len()) {
        mws.push(Arc::new(Logger::new()));
    }
    let mut ctx = request(case);
    if let Some(t) = case["state"].as_str() {
        ctx.add(t.to_string());
    }
    let res = guarded(|| {
        block_on(async {
            let r = EndpointExecutor::new(&end, &mws).next(ctx).await;
            match r {
                Err(e) => Err(format!("{:?}", e)),
                Ok(mut c) => {
                    let body = hyper::body::to_bytes(c.take_body()).await.unwrap().to_vec();
                    let state = c.get::<String>().cloned();
                    let seen = format!("{} {:?}", look(&c), state);
                    let trail = c.get::<Trail>().cloned().unwrap_or_default().0;
                    let resp = c.take_response();
                    let status = resp.as_ref().map(|r| r.status().as_u16().to_string());
                    let hs = resp.as_ref().and_then(|r| r.headers().clone()).map(|v| {
                        v.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>()
                    });
                    let rb = match resp {
                        Some(r) => hyper::body::to_bytes(r.body()).await.unwrap().to_vec(),
                        None => vec![],
                    };
                    Ok((trail, status, seen, body, hs, rb))
                }
            }
        })
    });
    let log = log.lock().unwrap().clone();
    Ran { log, out: res.unwrap_or_else(|p| Err(format!("PANIC {}", p))) }
}

pub fn run_c05(case: &Value) -> Result<(), String> {
    let kinds: Vec<String> = arr(&case["chain"]).iter().map(s).collect();
    let ran = run_chain(case, None);
    let mut want_log = vec![];
    let places = places(case, kinds.len());
    let kinds: Vec<String> = places.iter().map(|p| kinds[*p].clone()).collect();
    let want = model(&kinds, &places, 0, &s(&case["end"]), vec![], &mut want_log);
    let short: Vec<String> = ran
        .log
        .iter()
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == "end" {
                "end".into()
            } else if w.get(1) == Some(&"has") {
                l.clone()
            } else {
                format!("{} {}", w[0], w[1])
            }
        })
        .collect();
    if short != want_log {
        return Err(format!("chain {:?} runs {:?}, expected {:?}", kinds, short, want_log));
    }
    let got = ran.out.as_ref().map(|o| (o.0.clone(), o.1.clone())).map_err(|e| e.clone());
    if got != want {
        return Err(format!("chain {:?} returns {:?}, expected {:?}", kinds, got, want));
    }
    if let Ok(o) = &ran.out {
        if o.3 != s(&case["body"]).into_bytes() {
            return Err("the request body was changed on the way".into());
        }
    }
    // the context comes in as it was given
    let plain = look(&{
        let mut c = request(case);
        if let Some(t) = case["state"].as_str() {
            c.add(t.to_string());
        }
        c
    });
    if let Some(first) = ran.log.first() {
        if !first.ends_with(&plain) {
            return Err(format!("first step sees {:?}, not {:?}", first, plain));
        }
    }
    Ok(())
}

pub fn run_c19(case: &Value) -> Result<(), String> {
    let n = arr(&case["chain"]).len();
    let at = (case["logger"].as_u64().unwrap_or(0) as usize).min(n);
    let a = run_chain(case, None);
    let b = run_chain(case, Some(at));
    let strip = |l: &Vec<String>| l.iter().filter(|x| !x.contains(" has ")).cloned().collect::<Vec<_>>();
    if strip(&a.log) != strip(&b.log) {
        return Err(format!("with the logger the chain runs {:?}, without {:?}", b.log, a.log));
    }
    if a.out != b.out {
        return Err(format!("with the logger the result is {:?}, without {:?}", b.out, a.out));
    }
    Ok(())
}

/// a request target, now and then a long one or one with texts of the code in it
fn gen_uri(r: &mut Rng) -> String {
    let mut t = r.pick(&["/a", "/a/b", "/é"]).replace("é", "%C3%A9");
    match r.below(4) {
        0 => t.push_str(&"/long".repeat(size(r).min(8000))),
        1 => t.push_str(&format!("/{}", "x".repeat(size(r).min(30000)))),
        _ => spice(r, &mut t),
    }
    let q = if r.chance(1, 3) { format!("?q={}", "y".repeat(size(r).min(20000))) } else { String::new() };
    if is_target(&t) {
        format!("{}{}", t, q)
    } else {
        format!("/a{}", q)
    }
}

fn gen_request(r: &mut Rng, case: &mut Value) {
    case["method"] = json!(*r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "GETX", "HEAD"]));
    case["uri"] = json!(*r.pick(&["/", "/a/b?c=d", "/%C3%A9?x=%20", "http://h:1/x", "*", "/a?b=c&d=e%", "/?x", "/a?", "/?a&b", "/?=", "/?a=b=c", "/?&", "/?%3D", "/a;b=c", "/?/", "/??", "http://u@h/x?y", "/a//b/"]));
    if r.chance(1, 6) {
        case["uri"] = json!(gen_uri(r));
    }
    case["headers"] = json!([["x-h", "1"], ["x-h", "2"], ["content-type", "text/x"]][..r.below(4)].to_vec());
    for _ in 0..r.below(3) {
        let (k, v) = if r.chance(1, 2) { any_header(r) } else { (r.pick(&["content-length", "host", "upgrade", "connection", "transfer-encoding", "date", "expect"]).to_string(), r.pick(&["4", "0", "x", "é"]).to_string()) };
        case["headers"].as_array_mut().unwrap().push(json!([k, v]));
    }
    if big(r, 60) {
        for i in 0..size(r).min(300) {
            case["headers"].as_array_mut().unwrap().push(json!([format!("x-n{}", i), "1"]));
        }
    }
    case["params"] = json!({});
    for k in ["p", "q", "P", "Pq", "é", "p-1"] {
        if r.chance(1, if k == "p" || k == "q" { 2 } else { 10 }) {
            case["params"][k] = json!(*r.pick(&["1", "é", "", "-5", "x y", "%20"]));
        }
    }
    for k in ["p", "q"] {
        if case["params"][k].is_string() && odd(r, 8) {
            let mut v = s(&case["params"][k]);
            spice(r, &mut v);
            case["params"][k] = json!(v);
        }
    }
    case["body"] = json!(*r.pick(&["", "body", "é{}"]));
    if odd(r, 20) {
        let mut b = s(&case["body"]);
        spice(r, &mut b);
        case["body"] = json!(b);
    }
    if r.chance(1, 2) {
        case["state"] = json!("state");
    }
}

pub fn gen_chain(r: &mut Rng) -> Value {
    let n = [0, 1, 1, 2, 2, 3, 3, 4, 6, 12][r.below(10)];
    let n = if big(r, 20) { size(r).min(300) } else { n };
    let mut case = json!({});
    gen_request(r, &mut case);
    let chain: Vec<&str> =
        (0..n).map(|_| if n > 20 || r.chance(3, 4) { KINDS[r.below(4)] } else { *r.pick(&KINDS) }).collect();
    case["chain"] = json!(chain);
    if r.chance(1, 3) {
        let same: Vec<Option<usize>> = (0..n).map(|i| if i > 0 && r.chance(1, 3) { Some(if r.chance(1, 2) { i - 1 } else { r.below(i) }) } else { None }).collect();
        case["same"] = json!(same);
    }
    case["end"] = if r.chance(1, 8) {
        json!(format!("s{}", any_status(r)))
    } else if r.chance(1, 4) {
        json!(*r.pick(&MORE_ENDS))
    } else {
        json!(*r.pick(&ENDS))
    };
    case["logger"] = json!(r.below(n + 1));
    case
}

pub fn enum_chain(max: usize, f: &mut dyn FnMut(Value) -> bool) -> u64 {
    let mut n = 0;
    for len in 0..=max {
        let total = KINDS.len().pow(len as u32);
        for code in 0..total {
            let mut c = code;
            let chain: Vec<&str> = (0..len)
                .map(|_| {
                    let k = KINDS[c % KINDS.len()];
                    c /= KINDS.len();
                    k
                })
                .collect();
            for end in ENDS {
                n += 1;
                let case = json!({"chain": chain, "end": end, "logger": n % (len as u64 + 1), "params": {}, "body": "b"});
                if !f(case) {
                    return n;
                }
            }
        }
    }
    n
}

// ------------------------------------------------------------------ responses
#[derive(Clone, Debug, PartialEq)]
struct Resp {
    status: u16,
    body: Vec<u8>,
    headers: Vec<(String, String)>,
}

struct Bad;
impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("bad value é"))
    }
}

fn show(r: Response) -> Resp {
    let status = r.status().as_u16();
    let headers = r.headers().clone().unwrap_or_default().into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let body = block_on(hyper::body::to_bytes(r.body())).unwrap().to_vec();
    Resp { status, body, headers }
}

fn hn(k: &str) -> HeaderName {
    HeaderName::from_bytes(k.as_bytes()).unwrap()
}

fn pairs(v: &Value) -> Vec<(&'static str, &'static str)> {
    arr(v).iter().map(|p| (leak(&s(&p[0])), leak(&s(&p[1])))).collect()
}

fn hpairs(v: &Value) -> Vec<(HeaderName, &'static str)> {
    pairs(v).into_iter().map(|(k, v)| (hn(k), v)).collect()
}

fn apply_model(m: &mut Resp, op: &Value) {
    let a = s(&op[1]);
    let b = s(&op[2]);
    match s(&op[0]).as_str() {
        "status" | "with_status" | "status_mut" => m.status = op[1].as_u64().unwrap() as u16,
        "body" => m.body = a.into_bytes(),
        "body_str" => m.body = a.into_bytes(),
        "body_vec" => m.body = format!("[{}]", a.bytes().map(|b| b.to_string()).collect::<Vec<_>>().join(",")).into_bytes(),
        "body_unit" => m.body = vec![],
        "header" | "with_header" | "header_str" | "with_header_str" => m.headers.push((a.to_lowercase(), b)),
        "headers" | "with_headers" | "headers_str" | "with_headers_str" => {
            for (k, v) in pairs(&op[1]) {
                m.headers.push((k.to_lowercase(), v.into()));
            }
        }
        "type" => m.headers.push(("content-type".into(), a)),
        "html" => {
            m.headers.push(("content-type".into(), "text/html".into()));
            m.body = a.into_bytes();
        }
        "json" => {
            m.headers.push(("content-type".into(), "application/json".into()));
            m.body = serde_json::to_vec(&op[1]).unwrap();
        }
        "json_bad" => {
            m.headers.push(("content-type".into(), "application/json".into()));
            m.body = "bad value é".as_bytes().to_vec();
            m.status = 500;
        }
        "file" => m.body = std::fs::read(&a).unwrap(),
        _ => {}
    }
}

fn apply_real(r: Response, op: &Value) -> Response {
    let a = s(&op[1]);
    let b = leak(&s(&op[2]));
    let st = || StatusCode::from_u16(op[1].as_u64().unwrap() as u16).unwrap();
    match s(&op[0]).as_str() {
        "status" => r.set_status(st()),
        "with_status" => r.with_status(st()),
        "status_mut" => {
            let mut r = r;
            *r.status_mut() = st();
            r
        }
        "body" => r.set_body(a),
        "body_str" => r.set_body(leak(&a)),
        "body_vec" => r.set_body(a.into_bytes()),
        "body_unit" => r.set_body(()),
        "header" => r.set_header(hn(&a), b),
        "with_header" => r.with_header(hn(&a), b),
        "header_str" => r.set_header_str(leak(&a), b),
        "with_header_str" => r.with_header_str(leak(&a), b),
        "headers" => r.set_headers(hpairs(&op[1])),
        "with_headers" => r.with_headers(hpairs(&op[1])),
        "headers_str" => r.set_headers_str(pairs(&op[1])),
        "with_headers_str" => r.with_headers_str(pairs(&op[1])),
        "type" => r.set_content_type(leak(&a)),
        "html" => r.html(a),
        "json" => r.json(op[1].clone()),
        "json_bad" => r.json(Bad),
        "file" => block_on(r.file(&a)),
        _ => r,
    }
}

fn apply_builder(r: ResponseBuilder, op: &Value) -> Option<ResponseBuilder> {
    let a = s(&op[1]);
    let b = leak(&s(&op[2]));
    Some(match s(&op[0]).as_str() {
        "with_status" | "status" => r.with_status(StatusCode::from_u16(op[1].as_u64().unwrap() as u16).unwrap()),
        "with_header" | "header" => r.with_header(hn(&a), b),
        "with_header_str" | "header_str" => r.with_header_str(leak(&a), b),
        "with_headers" | "headers" => r.with_headers(hpairs(&op[1])),
        "with_headers_str" | "headers_str" => r.with_headers_str(pairs(&op[1])),
        _ => return None,
    })
}

pub fn run_c09(case: &Value) -> Result<(), String> {
    let ops = arr(&case["ops"]);
    let start = s(&case["start"]);
    let mut m = Resp { status: 200, body: vec![], headers: vec![] };
    let mk = || match start.as_str() {
        "created" => Response::created(),
        "error" => Response::internal_server_error(),
        "text" => Response::new("text"),
        _ => Response::ok(),
    };
    match start.as_str() {
        "created" => m.status = 201,
        "error" => m.status = 500,
        "text" => m.body = b"text".to_vec(),
        _ => {}
    }
    let m0 = m.clone();
    let got = guarded(|| {
        let mut r = mk();
        for op in &ops {
            r = apply_real(r, op);
        }
        show(r)
    })
    .map_err(|e| format!("panics: {}", e))?;
    for op in &ops {
        apply_model(&mut m, op);
    }
    if got != m {
        return Err(format!("response after {}: {:?}, expected {:?}", case["ops"], got, m));
    }
    // through a builder
    let mut m = m0;
    let mut ctx = request(case);
    ctx.add(77u32);
    if case["pre"].as_bool() == Some(true) {
        *ctx.response_mut() = Some(Response::new("old").with_header_str("x-old", "1"));
    }
    let before = format!("{} {:?}", look(&{
        let mut c = request(case);
        c.add(77u32);
        c
    }), Some(77u32));
    let res = guarded(|| {
        let mut rb = match case["how"].as_str() {
            Some("json") => {
                m = Resp { status: 200, body: b"{\"k\":[1,\"\xc3\xa9\"]}".to_vec(), headers: vec![("content-type".into(), "application/json".into())] };
                ctx.build_json(json!({"k": [1, "é"]}))
            }
            Some("json_bad") => {
                m = Resp { status: 500, body: "bad value é".as_bytes().to_vec(), headers: vec![("content-type".into(), "application/json".into())] };
                ctx.build_json(Bad)
            }
            Some(f) if f.starts_with("file:") => {
                m = Resp { status: 200, body: std::fs::read(&f[5..]).unwrap(), headers: vec![] };
                block_on(ctx.build_file(&f[5..]))
            }
            _ => ctx.build(mk()),
        };
        for op in &ops {
            match s(&op[0]).as_str() {
                "with_status" | "status" | "with_header" | "header" | "with_header_str" | "header_str" | "with_headers" | "headers"
                | "with_headers_str" | "headers_str" => {
                    rb = apply_builder(rb, op).unwrap();
                    apply_model(&mut m, op);
                }
                _ => {}
            }
        }
        rb.ok()
    })
    .map_err(|e| format!("builder panics: {}", e))?;
    let mut c = match res {
        Ok(c) => c,
        Err(e) => return Err(format!("ResponseBuilder::ok fails: {}", e)),
    };
    let resp = c.response_mut().take();
    let after = format!("{} {:?}", look(&c), c.get::<u32>().copied());
    if before != after {
        return Err(format!("context changed by the builder: {} became {}", before, after));
    }
    if block_on(hyper::body::to_bytes(c.take_body())).unwrap() != s(&case["body"]).as_bytes() {
        return Err("request body changed by the builder".into());
    }
    match resp {
        None => Err("no response stored by the builder".into()),
        Some(r) => {
            let g = show(r);
            if g != m {
                return Err(format!("built response is {:?}, expected {:?} (how {}, ops {})", g, m, case["how"], case["ops"]));
            }
            Ok(())
        }
    }
}

const FILES: [&str; 5] = ["www/a/b.txt", "www/empty", "www/bad.utf8", "www/page.html", "www/a.gz"];

pub fn gen_c09(r: &mut Rng) -> Value {
    const OPS: [&str; 20] = [
        "file",
        "status", "with_status", "status_mut", "body", "body_str", "body_vec", "body_unit", "header", "with_header", "header_str",
        "with_header_str", "headers", "with_headers", "headers_str", "with_headers_str", "type", "html", "json", "json_bad",
    ];
    let mut case = json!({});
    gen_request(r, &mut case);
    let mut ops = vec![];
    const HK: [&str; 6] = ["x-a", "x-b", "content-type", "X-A", "set-cookie", "x-a"];
    const HV: [&str; 5] = ["1", "2", "text/html", "", "v w"];
    for _ in 0..r.below(8) {
        let o = *r.pick(&OPS);
        ops.push(match o {
            "status" | "with_status" | "status_mut" => {
                let st = if r.chance(1, 2) { any_status(r) } else { *r.pick(&[200u16, 201, 204, 404, 500, 418, 302, 999, 100]) };
                json!([o, st])
            }
            "header" | "with_header" | "header_str" | "with_header_str" if r.chance(1, 5) => {
                let h = any_header(r);
                json!([o, h.0, h.1])
            }
            "header" | "with_header" | "header_str" | "with_header_str" => json!([o, *r.pick(&HK), *r.pick(&HV)]),
            "headers" | "with_headers" | "headers_str" | "with_headers_str" => {
                let n = if big(r, 50) { size(r).min(500) } else { r.below(4) };
                let l: Vec<Value> = (0..n).map(|_| json!([*r.pick(&HK), *r.pick(&HV)])).collect();
                json!([o, l])
            }
            "json" => match r.below(6) {
                0 => json!([o, null]),
                1 => json!([o, []]),
                2 => json!([o, *r.pick(&["", "é\u{0}\u{2028}</script>", "x"])]),
                3 if big(r, 8) => json!([o, (0..size(r).min(5000)).collect::<Vec<_>>()]),
                _ => json!([o, {"a": [1, null, "é"], "b": r.below(5)}]),
            },
            "file" => json!([o, *r.pick(&FILES)]),
            "type" => json!([o, *r.pick(&["", "text", "text/plain", "application/json; charset=utf-8"])]),
            _ => {
                let mut t = r.pick(&["", "text", "é", "<p>"]).to_string();
                if odd(r, 6) {
                    spice(r, &mut t);
                }
                json!([o, t])
            }
        });
    }
    if ops.len() > 1 && r.chance(1, 4) {
        // the same thing twice
        let o = r.pick(&ops).clone();
        let at = r.below(ops.len() + 1);
        ops.insert(at, o);
    }
    case["ops"] = json!(ops);
    case["start"] = json!(*r.pick(&["ok", "created", "error", "text"]));
    case["how"] = match r.below(6) {
        0 => json!(format!("file:{}", r.pick(&FILES))),
        k => json!(["build", "build", "json", "json_bad", "build"][k - 1]),
    };
    case["pre"] = json!(r.chance(1, 3));
    case
}

pub fn run_c10(case: &Value) -> Result<(), String> {
    let t = s(&case["text"]);
    let st = case["status"].as_u64().unwrap_or(200) as u16;
    let code = StatusCode::from_u16(st).unwrap();
    let lt = leak(&t);
    let js = format!("[{}]", t.bytes().map(|b| b.to_string()).collect::<Vec<_>>().join(",")).into_bytes();
    let plain = vec![("content-type".to_string(), "text/plain; charset=utf-8".to_string())];
    let text = |status, hs: &Vec<(String, String)>| Resp { status, body: t.clone().into_bytes(), headers: hs.clone() };
    let none: Vec<(String, String)> = vec![];
    let xh = vec![("x-a".to_string(), "1".to_string()), ("x-a".to_string(), "2".to_string())];
    let hl = || vec![(hn("x-a"), "1"), (hn("x-a"), "2")];
    let sl = || vec![("x-a", "1"), ("x-a", "2")];
    let mkresp = || Response::new(lt).set_status(code).set_headers(hl());
    let table: Vec<(&str, Box<dyn Fn() -> Response>, Resp)> = vec![
        ("String", Box::new(|| lt.to_string().respond_to()), text(200, &plain)),
        ("&str", Box::new(|| lt.respond_to()), text(200, &plain)),
        ("()", Box::new(|| ().respond_to()), Resp { status: 200, body: vec![], headers: none.clone() }),
        ("StatusCode", Box::new(|| code.respond_to()), Resp { status: st, body: vec![], headers: none.clone() }),
        ("(StatusCode, String)", Box::new(|| (code, lt.to_string()).respond_to()), text(st, &none)),
        ("(StatusCode, &str)", Box::new(|| (code, lt).respond_to()), text(st, &none)),
        ("(StatusCode, ())", Box::new(|| (code, ()).respond_to()), Resp { status: st, body: vec![], headers: none.clone() }),
        ("(StatusCode, Vec<u8>)", Box::new(|| (code, lt.as_bytes().to_vec()).respond_to()), Resp { status: st, body: js.clone(), headers: none.clone() }),
        ("Vec<u8>", Box::new(|| lt.as_bytes().to_vec().respond_to()), Resp { status: 200, body: js.clone(), headers: none.clone() }),
        ("Some(String)", Box::new(|| Some(lt.to_string()).respond_to()), text(200, &plain)),
        ("Some(&str)", Box::new(|| Some(lt).respond_to()), text(200, &plain)),
        ("None::<String>", Box::new(|| None::<String>.respond_to()), Resp { status: 404, body: b"Not Found".to_vec(), headers: none.clone() }),
        ("None::<&str>", Box::new(|| None::<&'static str>.respond_to()), Resp { status: 404, body: b"Not Found".to_vec(), headers: none.clone() }),
        ("Response", Box::new(|| mkresp().respond_to()), text(st, &xh)),
        ("String.with_status", Box::new(|| lt.to_string().with_status(code)), text(st, &none)),
        ("&str.with_status", Box::new(|| lt.with_status(code)), text(st, &none)),
        ("().with_status", Box::new(|| ().with_status(code)), Resp { status: st, body: vec![], headers: none.clone() }),
        ("&str.with_header", Box::new(|| lt.with_header(hn("x-a"), "1")), text(200, &xh[..1].to_vec())),
        ("String.with_headers", Box::new(|| lt.to_string().with_headers(hl())), text(200, &xh)),
        ("&str.with_headers_str", Box::new(|| lt.with_headers_str(sl())), text(200, &xh)),
        ("Vec<u8>.with_status", Box::new(|| lt.as_bytes().to_vec().with_status(code)), Resp { status: st, body: js.clone(), headers: none.clone() }),
    ];
    for (name, f, want) in table {
        let got = guarded(|| show(f())).map_err(|e| format!("{} panics: {}", name, e))?;
        if got != want {
            return Err(format!("{} with {:?} and {} gives {:?}, expected {:?}", name, t, st, got, want));
        }
        // through a context
        let c = guarded(|| request(case).build(f()).ok()).map_err(|e| format!("{} panics: {}", name, e))?;
        let got = c.ok().and_then(|mut c| c.response_mut().take()).map(show);
        if got.as_ref() != Some(&want) {
            return Err(format!("{} built from a context gives {:?}, expected {:?}", name, got, want));
        }
    }
    // string values go through build directly, too
    let c = request(case).build(lt).ok().ok().and_then(|mut c| c.response_mut().take()).map(show);
    if c != Some(text(200, &plain)) {
        return Err(format!("build({:?}) gives {:?}", lt, c));
    }
    Ok(())
}

pub fn gen_c10(r: &mut Rng) -> Value {
    let mut case = json!({});
    gen_request(r, &mut case);
    let mut t = String::new();
    for _ in 0..r.below(6) {
        t.push(*r.pick(&['a', 'é', '"', '\n', '<', '\u{1f600}', ' ']));
    }
    match r.below(6) {
        0 => t = r.pick(&["<!DOCTYPE html><p>", "<html>", "{\"a\":1}", "[1]", "null", "\u{feff}x", "a\r\nb", "%41", "&amp;", "http://x/", "404", " x ", "\n"]).to_string(),
        1 | 2 => spice(r, &mut t),
        3 if big(r, 6) => t = "x".repeat((size(r) * (1 + r.below(300))).min(1_000_000)),
        _ => {}
    }
    case["text"] = json!(t);
    case["status"] = if r.chance(1, 2) { json!(any_status(r)) } else if r.chance(1, 4) { json!(*r.pick(&[204, 304, 100, 101, 199, 999, 205])) } else { json!(100 + r.below(900)) };
    case
}

// ------------------------------------------------------------------ context
fn read_params(c: &Context, key: &str, want: Option<&String>) -> Result<(), String> {
    fn one<T: std::str::FromStr + std::fmt::Debug>(c: &Context, key: &str, want: Option<&String>) -> Result<(), String> {
        let w = want.map(|v| v.parse::<T>().ok());
        let g = guarded(|| c.param::<T>(key)).map_err(|e| format!("param({:?}) panics: {}", key, e))?;
        let ok = match (&w, &g) {
            (None, Err(_)) | (Some(None), Err(_)) => true,
            (Some(Some(a)), Ok(b)) => format!("{:?}", a) == format!("{:?}", b),
            _ => false,
        };
        if !ok {
            return Err(format!(
                "param::<{}>({:?}) is {:?}, but the bound text is {:?}",
                std::any::type_name::<T>(),
                key,
                g.map_err(|e| e.to_string()),
                want
            ));
        }
        Ok(())
    }
    one::<String>(c, key, want)?;
    one::<i32>(c, key, want)?;
    one::<u8>(c, key, want)?;
    one::<i64>(c, key, want)?;
    one::<f64>(c, key, want)?;
    one::<bool>(c, key, want)?;
    one::<char>(c, key, want)
}

pub fn run_c17(case: &Value) -> Result<(), String> {
    let mut c = request(case);
    let mut params: HashMap<String, String> = HashMap::new();
    for (k, v) in case["params"].as_object().cloned().unwrap_or_default() {
        params.insert(k, s(&v));
    }
    let method = case["method"].as_str().unwrap_or("GET").to_string();
    let uri = case["uri"].as_str().unwrap_or("/a/b?c=d").to_string();
    let mut headers: Vec<(String, String)> = arr(&case["headers"]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
    let (mut st_s, mut st_u, mut st_v): (Option<String>, Option<u32>, Option<Vec<u8>>) = (None, None, None);
    let mut resp: Option<u16> = None;
    let mut body = s(&case["body"]);
    let mut n = 0u32;
    for op in arr(&case["ops"]) {
        n += 1;
        match s(&op).as_str() {
            "add_s" => {
                c.add(format!("s{}", n));
                st_s = Some(format!("s{}", n));
            }
            "add_u" => {
                c.add(n);
                st_u = Some(n);
            }
            "add_v" => {
                c.add(vec![n as u8]);
                st_v = Some(vec![n as u8]);
            }
            "mut_u" => {
                if let Some(x) = c.get_mut::<u32>() {
                    *x += 100;
                }
                st_u = st_u.map(|x| x + 100);
            }
            "mut_s" => {
                if let Some(x) = c.get_mut::<String>() {
                    x.push('!');
                }
                st_s = st_s.map(|x| x + "!");
            }
            "header" => {
                c.headers_mut().append("x-h", format!("v{}", n).parse().unwrap());
                headers.push(("x-h".into(), format!("v{}", n)));
            }
            "take" => {
                let b = guarded(|| block_on(hyper::body::to_bytes(c.take_body())).unwrap().to_vec())?;
                if b != body.as_bytes() {
                    return Err(format!("take_body returned {:?}, the body is {:?}", b, body));
                }
                body = String::new();
            }
            "resp" => {
                *c.response_mut() = Some(Response::new(()).set_status(StatusCode::from_u16(200 + n as u16).unwrap()));
                resp = Some(200 + n as u16);
            }
            "unresp" => {
                *c.response_mut() = None;
                resp = None;
            }
            "ext" => {
                c.extensions_mut().insert(n as i8);
            }
            _ => {}
        }
        // everything else is as it was
        let what = format!("after {} of {}", n, case["ops"]);
        if c.method().as_str() != method {
            return Err(format!("{}: method {} instead of {}", what, c.method(), method));
        }
        if c.uri().to_string() != uri {
            return Err(format!("{}: uri {} instead of {}", what, c.uri(), uri));
        }
        let mut names: Vec<String> = headers.iter().map(|h| h.0.clone()).collect();
        names.sort();
        names.dedup();
        for k in &names {
            let w: Vec<&str> = headers.iter().filter(|h| h.0 == *k).map(|h| h.1.as_str()).collect();
            let g: Vec<&str> = c.headers().get_all(k.as_str()).iter().map(|v| std::str::from_utf8(v.as_bytes()).unwrap()).collect();
            if w != g {
                return Err(format!("{}: header {} is {:?} instead of {:?}", what, k, g, w));
            }
        }
        if c.headers().len() != headers.len() {
            return Err(format!("{}: {} headers instead of {}", what, c.headers().len(), headers.len()));
        }
        if c.get::<String>() != st_s.as_ref() || c.get::<u32>() != st_u.as_ref() || c.get::<Vec<u8>>() != st_v.as_ref() {
            return Err(format!("{}: data {:?} {:?} {:?} instead of {:?} {:?} {:?}", what, c.get::<String>(), c.get::<u32>(), c.get::<Vec<u8>>(), st_s, st_u, st_v));
        }
        if c.response().as_ref().map(|r| r.status().as_u16()) != resp {
            return Err(format!("{}: response {:?} instead of {:?}", what, c.response(), resp));
        }
        for k in ["p", "q", "r", "", "P", "Q", "p ", " p", ":p", "pq", "Pq", "PQ", "é", "É", "p-1", "p_1", "*", "0"] {
            read_params(&c, k, params.get(k)).map_err(|e| format!("{}: {}", what, e))?;
        }
    }
    let rest = block_on(hyper::body::to_bytes(c.take_body())).unwrap();
    if rest != body.as_bytes() {
        return Err(format!("body at the end is {:?} instead of {:?}", rest, body));
    }
    if c.take_response().map(|r| r.status().as_u16()) != resp {
        return Err("take_response gives another response".into());
    }
    Ok(())
}

pub fn gen_c17(r: &mut Rng) -> Value {
    let mut case = json!({});
    gen_request(r, &mut case);
    for k in ["p", "q"] {
        if r.chance(2, 3) {
            case["params"][k] = json!(*r.pick(&["1", "é", "", "-5", "300", "true", "1.5", " 1", "1 ", "+7", "007", "x", "NaN", "4294967296", "%31", "a+b", "a%2Fb", "\u{0}", "TRUE", "-0", "+"]));
            if odd(r, 6) {
                let mut v = s(&case["params"][k]);
                spice(r, &mut v);
                case["params"][k] = json!(v);
            }
        }
    }
    const OPS: [&str; 11] = ["add_s", "add_u", "add_v", "mut_u", "mut_s", "header", "take", "resp", "unresp", "ext", "nop"];
    let n = if big(r, 40) { size(r).min(300) } else { 1 + r.below(10) };
    case["ops"] = json!((0..n).map(|_| *r.pick(&OPS)).collect::<Vec<_>>());
    case
}
