//! Whole requests over the loopback interface: C07 C08 C16; static files: C11
use crate::routes::{self, METHODS};
use crate::util::*;
use obsidian::context::Context;
use obsidian::router::{ContextResult, Response, Router};
use obsidian::{App, Body, ObsidianError, Request, StatusCode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Server {
    pub port: u16,
    rt: Option<tokio::runtime::Runtime>,
}

impl Drop for Server {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}

/// a free port which no connection is made from, and another one each time
fn port() -> u16 {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    for _ in 0..20000 {
        let n = NEXT.fetch_add(1, SeqCst).wrapping_add(std::process::id().wrapping_mul(1237));
        let port = 10000 + (n % 20000) as u16;
        if std::net::TcpListener::bind(("127.0.0.1", port)).is_ok() {
            return port;
        }
    }
    panic!("harness: no free port");
}

pub fn serve<T: Clone + Send + Sync + 'static>(app: App<T>) -> Server {
    let port = port();
    let rt = match tokio::runtime::Builder::new_multi_thread().worker_threads(2).thread_stack_size(1 << 20).enable_all().build() {
        Ok(rt) => rt,
        Err(e) => panic!("harness: no runtime: {}", e),
    };
    let mut h = rt.spawn(async move { app.listen(port).await });
    for _ in 0..4000 {
        if TcpStream::connect(("127.0.0.1", port)).is_ok() {
            return Server { port, rt: Some(rt) };
        }
        match rt.block_on(async { tokio::time::timeout(Duration::from_millis(5), &mut h).await }) {
            Err(_) => {}
            Ok(Ok(_)) => break,
            Ok(Err(e)) => match e.try_into_panic() {
                Ok(e) => std::panic::resume_unwind(e),
                Err(_) => break,
            },
        }
    }
    panic!("the server does not come up");
}

#[derive(Debug, Clone, PartialEq)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub fn request(port: u16, method: &str, target: &str, headers: &[(String, String)], body: &[u8]) -> Result<Reply, String> {
    let one = exchange(port, method, target, headers, body, 0)?;
    Ok(one.into_iter().next().unwrap())
}

/// the same request `before` times on one connection, then with "Connection: close"; all the replies
pub fn exchange(port: u16, method: &str, target: &str, headers: &[(String, String)], body: &[u8], before: usize) -> Result<Vec<Reply>, String> {
    let mut out = vec![];
    for i in 0..=before {
        out.extend(format!("{} {} HTTP/1.1\r\nHost: x\r\n", method, target).bytes());
        if i == before {
            out.extend(&b"Connection: close\r\n"[..]);
        }
        for (k, v) in headers {
            out.extend(format!("{}: {}\r\n", k, v).bytes());
        }
        out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
        out.extend(body);
    }
    let mut last = String::new();
    for _ in 0..3 {
        let mut st = TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
        st.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        let _ = st.write_all(&out);
        let mut buf = vec![];
        match st.read_to_end(&mut buf) {
            Ok(_) => return replies(&buf, method, before + 1),
            Err(e) if buf.is_empty() => {
                last = match e.kind() {
                    std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => "timed out".into(),
                    _ => e.to_string(),
                }
            }
            Err(_) => return replies(&buf, method, before + 1),
        }
    }
    Err(format!("no answer: {}", last))
}

fn replies(mut buf: &[u8], method: &str, n: usize) -> Result<Vec<Reply>, String> {
    let mut out = vec![];
    for _ in 0..n {
        let (r, used) = parse(buf, method)?;
        buf = &buf[used..];
        out.push(r);
    }
    Ok(out)
}

fn parse(buf: &[u8], method: &str) -> Result<(Reply, usize), String> {
    let pos = buf.windows(4).position(|w| w == b"\r\n\r\n").ok_or(format!("connection closed, got {:?}", String::from_utf8_lossy(buf)))?;
    let head = String::from_utf8_lossy(&buf[..pos]).into_owned();
    let mut lines = head.split("\r\n");
    let status: u16 = lines.next().unwrap_or("").split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or("bad status line")?;
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.find(':').map(|i| (l[..i].to_lowercase(), l[i + 1..].trim().to_string())))
        .collect();
    let after = &buf[pos + 4..];
    let mut body = vec![];
    let mut used = 0;
    let length = headers.iter().find(|(k, _)| k == "content-length").and_then(|(_, v)| v.parse::<usize>().ok());
    if method == "HEAD" || status == 204 || status == 304 || status < 200 {
        // without a body
    } else if headers.iter().any(|(k, v)| k == "transfer-encoding" && v.contains("chunked")) {
        loop {
            let rest = &after[used..];
            let i = rest.windows(2).position(|w| w == b"\r\n").ok_or("bad chunk")?;
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..i]).trim(), 16).map_err(|_| "bad chunk")?;
            let rest = &rest[i + 2..];
            body.extend(&rest[..n.min(rest.len())]);
            rest.get(n + 2..).ok_or("bad chunk")?;
            used += i + 2 + n + 2;
            if n == 0 {
                break;
            }
        }
    } else {
        used = length.unwrap_or(after.len());
        body = after.get(..used).ok_or("the reply is cut off")?.to_vec();
    }
    Ok((Reply { status, headers, body }, pos + 4 + used))
}

// ------------------------------------------------------------------ C07
/// routes of the case over the wire: {"ops": as in routes, "requests": [[METHOD, path]]}
pub fn run_c07(case: &Value) -> Result<(), String> {
    routes::run("C07", case)?;
    let reqs = arr(&case["requests"]);
    if reqs.is_empty() {
        return Ok(());
    }
    if case["state"].as_bool() == Some(true) {
        let mut app: App<String> = App::new();
        app.set_app_state("state".to_string());
        c07_requests(app, case, reqs)
    } else {
        let app: App = App::new();
        c07_requests(app, case, reqs)
    }
}

fn c07_requests<T: Clone + Send + Sync + 'static>(mut app: App<T>, case: &Value, reqs: Vec<Value>) -> Result<(), String> {
    let ran: Arc<Mutex<Vec<String>>> = Default::default();
    let mut n = 0;
    let mut model = routes::build(&[], &mut n).model;
    let mut id = 0;
    for op in arr(&case["ops"]) {
        id += 1;
        let (kind, path) = (s(&op[0]), s(&op[1]));
        let mut m2 = model.clone();
        let log = ran.clone();
        let h = move |ctx: Context| {
            log.lock().unwrap().push(format!("h{}", id));
            async move { ctx.build(format!("handler {}", id)).ok() }
        };
        let ok = if METHODS.contains(&kind.as_str()) {
            m2.add_route(&path, &kind, id)
        } else if kind == "mw" {
            m2.add_mw(&path, id)
        } else if kind == "use" {
            m2.add_mw("/", id)
        } else {
            continue;
        };
        if ok.is_err() {
            continue; // C03
        }
        let mw = LogMw(id, ran.clone());
        let done = guarded(|| match kind.as_str() {
            "get" => app.get(&path, h),
            "post" => app.post(&path, h),
            "put" => app.put(&path, h),
            "patch" => app.patch(&path, h),
            "delete" => app.delete(&path, h),
            "mw" => app.use_service_to(&path, mw),
            _ => app.use_service(mw),
        });
        if done.is_err() {
            return Ok(()); // C03
        }
        model = m2;
    }
    let srv = serve(app);
    for q in reqs {
        let (method, path) = (s(&q[0]), s(&q[1]));
        ran.lock().unwrap().clear();
        let hs: Vec<(String, String)> = arr(&q[3]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
        let rs = exchange(srv.port, &method, &path, &hs, b"", q[2].as_u64().unwrap_or(0) as usize)?;
        if rs.iter().any(|x| x.status != rs[0].status || x.body != rs[0].body) {
            return Err(format!("{} {} is answered differently when it is repeated on one connection: {:?}", method, path, rs));
        }
        let r = rs[0].clone();
        let log = ran.lock().unwrap().clone();
        let found = model.lookup(&path).and_then(|f| f.routes.get(&method.to_lowercase()).copied().filter(|_| method == method.to_uppercase()));
        match found {
            Some(id) => {
                if r.status != 200 || r.body != format!("handler {}", id).into_bytes() || !log.contains(&format!("h{}", id)) {
                    return Err(format!("{} {} must be answered by handler {}, got {} {:?}", method, path, id, r.status, String::from_utf8_lossy(&r.body)));
                }
            }
            None => {
                let b = if method == "HEAD" { &b""[..] } else { b"404 Not Found" };
                if r.status != 404 || r.body != b || !log.is_empty() {
                    return Err(format!("{} {} must be answered with 404, got {} {:?}, which ran {:?}", method, path, r.status, String::from_utf8_lossy(&r.body), log));
                }
            }
        }
    }
    Ok(())
}

struct LogMw(usize, Arc<Mutex<Vec<String>>>);

#[async_trait::async_trait]
impl obsidian::middleware::Middleware for LogMw {
    async fn handle<'a>(&'a self, context: Context, ep: obsidian::EndpointExecutor<'a>) -> ContextResult {
        self.1.lock().unwrap().push(format!("m{}", self.0));
        ep.next(context).await
    }
}

pub fn gen_c07(r: &mut Rng, wire: bool) -> Value {
    let mut case = routes::gen("C07", r);
    if wire {
        let ops: Vec<Value> = arr(&case["ops"]).into_iter().filter(|o| s(&o[0]) != "mount" && s(&o[1]).is_ascii()).collect();
        let qs: Vec<String> = arr(&case["queries"]).iter().map(s).filter(|q| is_target(q)).collect();
        let mut reqs = vec![];
        for q in qs.iter().take(8) {
            for _ in 0..3 {
                let hs: Vec<(String, String)> = (0..r.below(4)).map(|_| any_header(r)).collect();
                let own: Vec<&String> = dict().texts.iter().filter(|t| t.len() < 20 && t.chars().all(|c| c.is_ascii_uppercase())).collect();
                if !own.is_empty() && r.chance(1, 3) {
                    reqs.push(json!([*r.pick(&own), q, 0, hs]));
                    continue;
                }
                reqs.push(json!([*r.pick(&["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "GETX", "get", "Get", "post", "Put", "patch", "pAtCh", "Delete", "PATCHES"]), q, r.below(2), hs]));
            }
        }
        case["state"] = json!(r.chance(1, 3));
        case["ops"] = json!(ops);
        case["requests"] = json!(reqs);
    }
    case
}

// ------------------------------------------------------------------ C08
fn error_of(kind: &str, text: &str) -> ObsidianError {
    match kind {
        "param" => ObsidianError::ParamError(text.into()),
        "general" => ObsidianError::GeneralError(text.into()),
        "form" => ObsidianError::FormError(obsidian::router::FormError::Message(text.into())),
        "json" => ObsidianError::JsonError(serde_json::from_str::<i32>("{").unwrap_err()),
        _ => ObsidianError::NoneError,
    }
}

fn error_text(kind: &str, text: &str) -> String {
    match kind {
        "param" | "general" | "form" => text.to_string(),
        "json" => serde_json::from_str::<i32>("{").unwrap_err().to_string(),
        _ => "Input should not be None".into(),
    }
}

fn c08_app(kind: u64) -> Server {
    let mut app: App<u8> = if kind == 1 { App::default() } else { App::new() };
    if kind == 2 {
        app.set_app_state(1);
    }
    if kind > 0 {
        app.use_service(LogMw(0, Default::default()));
    }
    let path = if kind == 3 { "/a/:x/*" } else { "/" };
    app.post(path, |mut ctx: Context| async move {
        let b = hyper::body::to_bytes(ctx.take_body()).await.unwrap();
        let spec: Value = serde_json::from_slice(&b).unwrap();
        match s(&spec["kind"]).as_str() {
            "none" => Ok(ctx),
            "err" => Err(error_of(&s(&spec["err"]), &s(&spec["text"]))),
            _ => {
                let mut resp = Response::new(s(&spec["text"])).set_status(StatusCode::from_u16(spec["status"].as_u64().unwrap() as u16).unwrap());
                for h in arr(&spec["headers"]) {
                    resp = resp.set_header_str(leak(&s(&h[0])), leak(&s(&h[1])));
                }
                if spec["empty_list"].as_bool() == Some(true) {
                    resp = resp.set_headers(vec![]);
                }
                if spec["bytes"].is_array() {
                    let bytes: Vec<u8> = arr(&spec["bytes"]).iter().map(|x| x.as_u64().unwrap() as u8).collect();
                    resp = resp.set_body(Raw(bytes));
                }
                *ctx.response_mut() = Some(resp);
                Ok(ctx)
            }
        }
    });
    serve(app)
}

struct Raw(Vec<u8>);
impl obsidian::router::ResponseBody for Raw {
    fn into_body(self) -> Body {
        Body::from(self.0)
    }
}

thread_local! {
    static C08: std::cell::RefCell<BTreeMap<u64, Server>> = std::cell::RefCell::new(BTreeMap::new());
}

pub fn run_c08(case: &Value) -> Result<(), String> {
    let app = case["app"].as_u64().unwrap_or(0);
    let port = C08.with(|c| c.borrow_mut().entry(app).or_insert_with(|| c08_app(app)).port);
    let before = case["before"].as_u64().unwrap_or(0) as usize;
    let path = if app == 3 { "/a/1/b" } else { "/" };
    let hs: Vec<(String, String)> = arr(&case["request_headers"]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
    for r in exchange(port, "POST", path, &hs, case.to_string().as_bytes(), before)? {
        compare_c08(case, r)?;
    }
    Ok(())
}

fn compare_c08(case: &Value, r: Reply) -> Result<(), String> {
    let mut own: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in &r.headers {
        own.entry(k.clone()).or_default().push(v.clone());
    }
    for k in ["date", "connection", "content-length", "transfer-encoding"] {
        own.remove(k);
    }
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let (status, body) = match s(&case["kind"]).as_str() {
        "none" => (200, vec![]),
        "err" => (500, error_text(&s(&case["err"]), &s(&case["text"])).into_bytes()),
        _ => {
            for h in arr(&case["headers"]) {
                want.insert(s(&h[0]).to_lowercase(), vec![s(&h[1])]);
            }
            let b = if case["bytes"].is_array() {
                arr(&case["bytes"]).iter().map(|x| x.as_u64().unwrap() as u8).collect()
            } else {
                s(&case["text"]).into_bytes()
            };
            (case["status"].as_u64().unwrap() as u16, b)
        }
    };
    if r.status != status || r.body != body || own != want {
        return Err(format!(
            "the chain produces {}, the client receives status {}, headers {:?}, body {:?}",
            case, r.status, own, String::from_utf8_lossy(&r.body)
        ));
    }
    Ok(())
}

pub fn gen_c08(r: &mut Rng) -> Value {
    let mut text = String::new();
    for _ in 0..r.below(8) {
        text.push(*r.pick(&['a', 'é', ' ', '\n', '{', '\u{1f600}', '%']));
    }
    if odd(r, 6) {
        spice(r, &mut text);
    }
    if big(r, 40) {
        let n = size(r).min(300_000);
        text.push_str(&"ab".repeat(n));
    }
    let mut case = match r.below(4) {
        0 => json!({"kind": "none"}),
        1 => json!({"kind": "err", "err": *r.pick(&["param", "general", "form", "json", "none"]), "text": text}),
        _ => {
            let n = if big(r, 30) { size(r).min(60) } else { r.below(6) };
            let n = if r.chance(1, 4) { 0 } else { n };
            let hs: Vec<Value> = (0..n)
                .map(|_| {
                    if r.chance(1, 3) {
                        let (k, v) = any_header(r);
                        return json!([k, v]);
                    }
                    json!([
                        *r.pick(&["x-a", "x-b", "X-A", "content-type", "set-cookie", "etag", "cache-control", "location", "server", "vary"]),
                        *r.pick(&["1", "2", "text/html", "a=b; c", "v w", ""])
                    ])
                })
                .collect();
            let mut c = json!({"kind": "resp", "status": any_status(r), "headers": hs, "text": text});
            c["empty_list"] = json!(r.chance(1, 3));
            if r.chance(1, 4) {
                c["bytes"] = json!((0..r.below(300)).map(|_| r.below(256)).collect::<Vec<_>>());
            }
            c
        }
    };
    case["app"] = json!(r.below(4));
    case["before"] = json!(r.below(4) / 2);
    case["request_headers"] = json!((0..r.below(3)).map(|_| any_header(r)).collect::<Vec<_>>());
    case
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Debug)]
struct State {
    text: String,
    clones: Arc<Mutex<u32>>,
}

async fn tell(mut ctx: Context, who: &str) -> String {
    let mut hs: Vec<String> = ctx.headers().iter().map(|(k, v)| format!("{}: {:?}", k, v)).collect();
    hs.sort();
    let body = hyper::body::to_bytes(ctx.take_body()).await.unwrap().to_vec();
    format!(
        "{} {} {} {:?} body {:?} state {:?} other {:?} empty {} big {:?} x {:?} y {:?} response {} extensions {}",
        who,
        ctx.method(),
        ctx.uri(),
        hs,
        String::from_utf8_lossy(&body),
        ctx.get::<State>().map(|s| s.text.clone()),
        ctx.get::<String>(),
        ctx.get::<Empty>().is_some(),
        ctx.get::<Big>().map(|b| b.0.iter().sum::<u64>()),
        ctx.param::<String>("x").ok(),
        ctx.param::<String>("y").ok(),
        ctx.response().is_some(),
        ctx.extensions().len()
    )
}

/// a state of some size, which owns nothing
#[derive(Clone, Copy, Debug)]
struct Big([u64; 40]);

/// a state without any data
#[derive(Clone, Debug)]
struct Empty;

struct TellMw;

#[async_trait::async_trait]
impl obsidian::middleware::Middleware for TellMw {
    async fn handle<'a>(&'a self, ctx: Context, _ep: obsidian::EndpointExecutor<'a>) -> ContextResult {
        let back = Context::new(Request::new(Body::empty()), HashMap::new());
        back.build(tell(ctx, "middleware").await).ok()
    }
}

async fn teller(ctx: Context) -> ContextResult {
    let back = Context::new(Request::new(Body::empty()), HashMap::new());
    back.build(tell(ctx, "handler").await).ok()
}

fn c16_app<T: Clone + Send + Sync + 'static>(state: Option<T>, early: Option<T>) -> App<T> {
    let mut app: App<T> = App::new();
    if let Some(s) = early {
        app.set_app_state(s);
    }
    app.get("/a/:x", teller);
    app.post("/a/:x/b/:y", teller);
    app.put("/w/*", teller);
    app.delete("/", teller);
    let mut sub = Router::new();
    sub.use_service(TellMw);
    sub.patch("/:y", teller);
    app.use_router("/mw/:x", sub);
    app.scope("scope", |r: &mut Router| r.get("/s", teller));
    if let Some(s) = state {
        app.set_app_state(s);
    }
    app
}

thread_local! {
    static C16: std::cell::RefCell<BTreeMap<String, Server>> = std::cell::RefCell::new(BTreeMap::new());
}

pub fn run_c16(case: &Value) -> Result<(), String> {
    let kind = s(&case["state"]);
    let state = |text: &str| Some(State { text: text.into(), clones: Default::default() });
    let port = C16.with(|c| {
        c.borrow_mut()
            .entry(kind.clone())
            .or_insert_with(|| match kind.as_str() {
                "state" => serve(c16_app(state("the state é"), None)),
                "early" => serve(c16_app(None, state("the state é"))),
                "twice" => serve(c16_app(state("the state é"), state("another state"))),
                "string" => serve(c16_app(Some("a string".to_string()), None)),
                "empty" => serve(c16_app(Some(Empty), None)),
                "big" => serve(c16_app(Some(Big([7; 40])), Some(Big([1; 40])))),
                "shared" => serve(c16_app(Some(Arc::new(Mutex::new(vec![1u8]))), None)),
                _ => serve(c16_app::<State>(None, None)),
            })
            .port
    });
    let _ = |s: State| s.clones;
    let t = arr(&case["target"]);
    let (method, path) = (s(&t[0]), s(&t[1]));
    let q = s(&case["query"]);
    let uri = format!("{}{}", path, q);
    let hs: Vec<(String, String)> = arr(&case["headers"]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
    let body = s(&case["body"]);
    let before = case["before"].as_u64().unwrap_or(0) as usize;
    let rs = exchange(port, &method, &uri, &hs, body.as_bytes(), before)?;
    for (i, r) in rs.into_iter().enumerate() {
        compare_c16(case, r, i == before)?;
    }
    Ok(())
}

fn compare_c16(case: &Value, r: Reply, last: bool) -> Result<(), String> {
    let kind = s(&case["state"]);
    let t = arr(&case["target"]);
    let (method, path) = (s(&t[0]), s(&t[1]));
    let uri = format!("{}{}", path, s(&case["query"]));
    let body = s(&case["body"]);
    let mut all: Vec<(String, String)> = arr(&case["headers"]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
    all.push(("host".into(), "x".into()));
    if last {
        all.push(("connection".into(), "close".into()));
    }
    all.push(("content-length".into(), body.len().to_string()));
    let mut want_h: Vec<String> = all.iter().map(|(k, v)| format!("{}: {:?}", k, v)).collect();
    want_h.sort();
    let opt = |v: &Value| v.as_str().map(|s| s.to_string());
    let want = format!(
        "{} {} {} {:?} body {:?} state {:?} other {:?} empty {} big {:?} x {:?} y {:?} response false extensions {}",
        if path.starts_with("/mw") { "middleware" } else { "handler" },
        method,
        uri,
        want_h,
        body,
        if ["state", "early", "twice"].contains(&kind.as_str()) { Some("the state é".to_string()) } else { None },
        if kind == "string" { Some(&"a string") } else { None },
        kind == "empty",
        if kind == "big" { Some(280u64) } else { None },
        opt(&t[2]),
        opt(&t[3]),
        // the state, and what hyper adds to a request which asks for another protocol
        (kind != "none") as usize + case["headers"].as_array().map_or(false, |hs| hs.iter().any(|h| h[0] == "upgrade")) as usize,
    );
    let got = String::from_utf8_lossy(&r.body).into_owned();
    if r.status != 200 || got != want {
        return Err(format!("the handler sees {:?} (status {}), expected {:?}", got, r.status, want));
    }
    Ok(())
}

pub fn gen_c16(r: &mut Rng) -> Value {
    let word = |r: &mut Rng, t: &str| {
        let mut t = t.to_string();
        if odd(r, 3) {
            spice(r, &mut t);
        }
        if is_target(&format!("/{}", t)) && !t.is_empty() && !t.contains('/') && t.len() < 3000 {
            t
        } else {
            "v".into()
        }
    };
    let (v, w) = (word(r, "v"), word(r, "%20z"));
    let ts = [
        json!(["GET", format!("/a/{}", v), v, null]),
        json!(["POST", format!("/a/{}/b/{}", v, w), v, w]),
        json!(["PUT", format!("/w/{}/r", v), null, null]),
        json!(["DELETE", "/", null, null]),
        json!(["PATCH", format!("/mw/{}/{}", v, w), v, w]),
        json!(["GET", "/scope/s", null, null]),
    ];
    let hs = [json!(["x-h", "1"]), json!(["x-h", "2"]), json!(["accept", "*/*"])];
    let mut headers = hs[..r.below(4)].to_vec();
    for _ in 0..r.below(3) {
        let (k, v) = any_header(r);
        if !headers.iter().any(|h| s(&h[0]) == k) {
            headers.push(json!([k, v]));
        }
    }
    for (k, v) in [("te", "trailers"), ("trailer", "x"), ("upgrade", "foo"), ("date", "now"), ("proxy-authorization", "x"), ("keep-alive", "timeout=5"), ("connection", "x-h")] {
        if r.chance(1, 8) {
            headers.push(json!([k, v]));
        }
    }
    let body = match r.below(8) {
        0 if big(r, 3) => "é".repeat(size(r).min(200_000)),
        k => ["", "text", "é\n{}"][k % 3].to_string(),
    };
    json!({
        "state": *r.pick(&["state", "early", "twice", "none", "string", "empty", "big", "shared"]),
        "before": r.below(3),
        "target": r.pick(&ts).clone(),
        "query": *r.pick(&["", "?a=b", "?", "?a=%C3&b=c=d", "?a=b?c", "?&&="]),
        "headers": headers,
        "body": body,
    })
}

// ------------------------------------------------------------------ C11
fn write(p: &Path, b: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, b).unwrap();
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    fn place() -> PathBuf {
        std::env::temp_dir().join(format!("obsidian-static-{}", std::process::id()))
    }
    pub fn remove() {
        let _ = std::fs::remove_dir_all(Scratch::place());
    }
    pub fn new() -> Self {
        let p = Scratch::place();
        std::fs::create_dir_all(&p).unwrap();
        for (f, b) in files() {
            write(&p.join(f), &b);
        }
        for t in &dict().texts {
            // names the code knows
            let f = p.join("base/www").join(t.trim_matches('/'));
            let fits = !t.contains("..") && !t.trim_matches('/').is_empty() && t.len() < 60 && !t.contains('\u{0}');
            if fits && !f.exists() && std::fs::create_dir_all(f.parent().unwrap()).is_ok() {
                let _ = std::fs::write(&f, t.as_bytes());
            }
        }
        std::env::set_current_dir(p.join("base")).unwrap();
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn files() -> Vec<(&'static str, Vec<u8>)> {
    let www: Vec<(&str, Vec<u8>)> = vec![
        ("index.html", b"<html>\n".to_vec()),
        ("a/b.txt", "text é\r\n".as_bytes().to_vec()),
        ("a/c/d.bin", (0..=255u8).cycle().take(70_000).collect()),
        ("empty", vec![]),
        ("bad.utf8", vec![0xff, 0xfe, 0x00, 0xc3]),
        ("nul", vec![0; 9]),
        ("%2e%2e", b"percent".to_vec()),
        ("x..y", b"dots".to_vec()),
        ("..z", b"two dots".to_vec()),
        ("z..", b"dots at the end".to_vec()),
        (".hidden", b"hidden".to_vec()),
        (".git/config", b"hidden too".to_vec()),
        ("UPPER.TXT", b"upper".to_vec()),
        ("upper.txt", b"lower".to_vec()),
        ("a b.txt", b"blank".to_vec()),
        ("a%20b.txt", b"percent blank".to_vec()),
        ("+", b"plus".to_vec()),
        ("page.html", b"\xef\xbb\xbf<html>\r\n".to_vec()),
        ("page", b"no ending".to_vec()),
        ("a.gz", b"\x1f\x8b\x08 not really".to_vec()),
        ("sub/index.html", b"index of sub".to_vec()),
        ("big.bin", (0..=255u8).cycle().take(1_200_000).collect()),
        ("...", b"three dots".to_vec()),
        ("static/index.html", b"inner static".to_vec()),
        // names of text with bytes that are not
        ("raw.txt", b"t\0\xff\xfe\xc3(\r\n".to_vec()),
        ("raw.html", b"\xff\xfe<\0h\0".to_vec()),
        ("raw.css", b"a{\xe9}".to_vec()),
        ("raw.js", b"\xef\xbb\xbf'\xff'".to_vec()),
        ("raw.json", b"{\"a\":\"\xfc\"}".to_vec()),
        ("raw.svg", b"<svg>\xa0</svg>".to_vec()),
        ("raw.md", b"\n\r\n\xc0\x80".to_vec()),
        ("raw.csv", b"a;\xe4\r\n".to_vec()),
        ("raw.xml", b"<?xml?>\xff".to_vec()),
        ("base/www/a/b.txt", b"deep".to_vec()),
    ];
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![
        ("secret.txt", b"SECRET outside".to_vec()),
        ("base/secret.txt", b"SECRET base".to_vec()),
        ("base/www2/secret.txt", b"SECRET www2".to_vec()),
        ("base/www/../etc/secret.txt", b"SECRET etc".to_vec()),
        ("base/deep/secret.txt", b"SECRET deep".to_vec()),
    ];
    for d in ["base/www", "base/deep/pub", "base/v.d."] {
        for (f, b) in &www {
            out.push((leak(&format!("{}/{}", d, f)), b.clone()));
        }
    }
    out
}

/// {"virtual": path or null, "dir": dir, "rest": [segments], "slash": bool, "mount": path or absent}
pub fn run_c11(case: &Value, scratch: &Scratch) -> Result<(), String> {
    let dir = s(&case["dir"]);
    let segs: Vec<String> = arr(&case["rest"]).iter().map(s).collect();
    let mut r = Router::new();
    let (virt, accepted) = match case["virtual"].as_str() {
        Some(v) => (v.to_string(), guarded(|| r.use_static_to(v, &dir))),
        None => (dir.clone(), guarded(|| r.use_static(&dir))),
    };
    if accepted.is_err() {
        return Ok(()); // C03
    }
    // below a mount only the containment is checked, unless "exact" asks for more: see known-findings.txt
    let mount = case["mount"].as_str();
    let exact = mount.is_none() || case["exact"].as_bool() == Some(true);
    let mut uri = virt.trim_end_matches('/').to_string();
    if let Some(m) = mount {
        let mut outer = Router::new();
        if guarded(|| outer.use_router(m, r)).is_err() {
            return Ok(()); // C03
        }
        r = outer;
        uri = format!("/{}/{}", m.trim_matches('/'), uri.trim_start_matches('/')).trim_end_matches('/').to_string();
    }
    for x in &segs {
        uri.push('/');
        uri.push_str(x);
    }
    if case["slash"].as_bool() == Some(true) {
        uri = uri.replace('/', "//");
        uri.push('/');
    }
    if !uri.starts_with('/') {
        uri.insert(0, '/');
    }
    let parsed: hyper::Uri = match uri.parse() {
        Ok(u) => u,
        Err(_) => return Ok(()),
    };
    if r.search_route(parsed.path()).is_none() {
        return Ok(()); // C01
    }
    let hs = arr(&case["headers"]);
    // the whole way over an application, or the handler alone
    let srv = if case["app"].as_bool() == Some(true) && is_target(&uri) {
        let mut app: App = App::new();
        let done = guarded(|| match (mount, case["virtual"].as_str()) {
            (Some(m), v) => {
                let mut inner = Router::new();
                match v {
                    Some(v) => inner.use_static_to(v, &dir),
                    None => inner.use_static(&dir),
                }
                app.use_router(m, inner)
            }
            (None, Some(v)) => app.use_static_to(v, &dir),
            (None, None) => app.use_static(&dir),
        });
        if done.is_err() {
            return Ok(()); // C03
        }
        Some(serve(app))
    } else {
        None
    };
    let get = || -> Result<(u16, Vec<u8>), String> {
        if let Some(srv) = &srv {
            let hs: Vec<(String, String)> = hs.iter().map(|h| (s(&h[0]), s(&h[1]))).collect();
            return request(srv.port, "GET", &uri, &hs, b"").map(|r| (r.status, r.body));
        }
        let found = r.search_route(parsed.path()).ok_or("no route")?;
        let route = found.get_route(&hyper::Method::GET).ok_or("no GET route")?;
        let mut rq = Request::builder().uri(parsed.clone());
        for h in &hs {
            rq = rq.header(s(&h[0]), s(&h[1]));
        }
        let ctx = Context::new(rq.body(Body::empty()).unwrap(), found.get_params());
        guarded(|| {
            block_on(async {
                match route.handler.call(ctx).await {
                    Err(e) => Err(e.to_string()),
                    Ok(c) => match c.take_response() {
                        None => Err("no response".to_string()),
                        Some(r) => {
                            let st = r.status().as_u16();
                            let b = hyper::body::to_bytes(r.body()).await.map_err(|e| e.to_string())?;
                            Ok((st, b.to_vec()))
                        }
                    },
                }
            })
        })
        .map_err(|e| format!("GET {} panics: {}", uri, e))?
        .map_err(|e| format!("GET {} fails: {}", uri, e))
    };
    let out = get()?;
    let root = scratch.0.join("base").join(dir.trim_matches('/'));
    let clean: Vec<&String> = segs.iter().filter(|x| !x.is_empty()).collect();
    // outside at any point of the walk?
    let mut depth = 0i32;
    let mut leaves = false;
    for x in &clean {
        match x.as_str() {
            ".." => depth -= 1,
            "." => {}
            _ => depth += 1,
        }
        leaves |= depth < 0;
    }
    let mut file = root.clone();
    for x in &clean {
        file.push(x);
    }
    let content = std::fs::read(&file).ok();
    if String::from_utf8_lossy(&out.1).contains("SECRET") {
        return Err(format!("GET {} of the static directory {:?} sends a file outside of it: {:?}", uri, dir, String::from_utf8_lossy(&out.1)));
    }
    if !exact {
        return Ok(());
    }
    let dots = clean.iter().any(|x| *x == "..");
    if leaves {
        if out.0 != 404 {
            return Err(format!("GET {} leaves the static directory {:?}, but is answered with {}", uri, dir, out.0));
        }
        return Ok(());
    }
    match content {
        // a path which goes up and down again may be refused
        Some(c) => {
            if (out.0, &out.1) != (200, &c) && !(dots && out.0 == 404) {
                return Err(format!(
                    "GET {} of the static directory {:?} must send {} bytes of {:?}, got {} with {} bytes",
                    uri, dir, c.len(), file, out.0, out.1.len()
                ));
            }
            if case["rewrite"].as_bool() == Some(true) && out.0 == 200 {
                // the file as it is when the request arrives
                for new in [vec![b'z'; c.len()], b"another content".to_vec()] {
                    std::fs::write(&file, &new).unwrap();
                    let again = get();
                    std::fs::write(&file, &c).unwrap();
                    let again = again?;
                    if again != (200, new.clone()) {
                        return Err(format!(
                            "GET {} of the static directory {:?} after the file got another content of {} bytes: {} with {} bytes",
                            uri, dir, new.len(), again.0, again.1.len()
                        ));
                    }
                }
                let hidden = scratch.0.join("away");
                if std::fs::rename(&file, &hidden).is_ok() {
                    let gone = get();
                    std::fs::rename(&hidden, &file).unwrap();
                    let gone = gone?;
                    if gone.0 != 404 {
                        return Err(format!("GET {} of the static directory {:?} after the file was removed: {}", uri, dir, gone.0));
                    }
                }
            }
        }
        None => {
            if out.0 != 404 {
                return Err(format!("GET {} of the static directory {:?}: no such file, but {}", uri, dir, out.0));
            }
        }
    }
    Ok(())
}

pub fn gen_c11(r: &mut Rng) -> Value {
    const SEG: [&str; 20] = [
        "a", "b.txt", "c", "d.bin", "index.html", "empty", "bad.utf8", "nul", "..", "..", "%2e%2e", ".", "x..y", "...", "static", "base", "www",
        "secret.txt", "missing", "www2",
    ];
    const GOOD: [&[&str]; 35] = [
        &["..z"], &["z.."], &[".hidden"], &[".git", "config"], &["UPPER.TXT"], &["upper.txt"], &["a%20b.txt"], &["+"], &["page.html"], &["page"], &["a.gz"],
        &["sub", "index.html"], &["sub"], &["big.bin"],
        &["raw.txt"], &["raw.html"], &["raw.css"], &["raw.js"], &["raw.json"], &["raw.svg"], &["raw.md"], &["raw.csv"], &["raw.xml"],
        &["index.html"], &["a", "b.txt"], &["a", "c", "d.bin"], &["empty"], &["bad.utf8"], &["nul"], &["%2e%2e"], &["x..y"], &["..."],
        &["static", "index.html"], &["base", "www", "a", "b.txt"], &["..", "secret.txt"],
    ];
    let texts: Vec<&str> = dict().texts.iter().flat_map(|t| t.split('/')).filter(|t| !t.is_empty() && is_target(&format!("/{}", t))).collect();
    let rest: Vec<&str> = match r.below(if texts.is_empty() { 4 } else { 6 }) {
        4 => vec![*r.pick(&texts)],
        5 => {
            let mut v = r.pick(&GOOD).to_vec();
            let at = r.below(v.len() + 1);
            v.insert(at, *r.pick(&texts));
            v
        }
        0 => r.pick(&GOOD).to_vec(),
        1 => {
            let mut v: Vec<&str> = vec![".."; r.below(4)];
            for _ in 0..r.below(2) {
                let at = r.below(v.len() + 1);
                v.insert(at, "a");
            }
            v.push("secret.txt");
            v
        }
        2 => {
            let mut v = r.pick(&GOOD).to_vec();
            let at = r.below(v.len() + 1);
            v.insert(at, *r.pick(&["..", ".", "a", "%2e%2e"]));
            v
        }
        _ => (0..r.below(6)).map(|_| *r.pick(&SEG)).collect(),
    };
    let virt = [json!(null), json!("/static"), json!("files/x/"), json!("/"), json!("/v//w"), json!("s"), json!("/base/www")];
    json!({
        "virtual": r.pick(&virt).clone(),
        "dir": *r.pick(&["www", "/www/", "deep/pub", "//deep//pub/", "v.d."]),
        "rest": rest,
        "slash": r.chance(1, 6),
        "rewrite": r.chance(1, 4),
        "app": r.chance(1, 25),
        "headers": if r.chance(1, 4) { let h = any_header(r); json!([[h.0, h.1]]) } else { json!([]) },
        "mount": if r.chance(1, 5) { json!(*r.pick(&["/m", "a/b/", "/"])) } else { json!(null) },
    })
}

pub fn enum_c11(f: &mut dyn FnMut(Value) -> bool) -> u64 {
    let seg = ["..", ".", "a", "b.txt", "secret.txt", "index.html", "%2e%2e"];
    let mut n = 0;
    for virt in [json!(null), json!("/static"), json!("/")] {
        for len in 0..=4usize {
            for code in 0..seg.len().pow(len as u32) {
                let mut c = code;
                let rest: Vec<&str> = (0..len)
                    .map(|_| {
                        let k = seg[c % seg.len()];
                        c /= seg.len();
                        k
                    })
                    .collect();
                n += 1;
                if !f(json!({"virtual": virt, "dir": "/www/", "rest": rest, "slash": false})) {
                    return n;
                }
            }
        }
    }
    n
}
