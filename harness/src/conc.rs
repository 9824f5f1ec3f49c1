//! Requests which are handled at the same time: C20.
//! A schedule is enforced with gates inside a middleware and the handlers: every step of it moves one request on
//! to its next gate (sent -> middleware -> handler -> middleware again -> answered).
use crate::http::{exchange, request, serve, Reply, Server};
use crate::util::*;
use obsidian::context::Context;
use obsidian::router::ContextResult;
use obsidian::{App, ObsidianError, StatusCode};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(12);

/// where every request is, and how far it may go
#[derive(Default)]
struct Gates {
    at: Mutex<HashMap<String, (usize, usize)>>, // id -> (gate reached, gates open)
    moved: Condvar,
}

impl Gates {
    fn reached(&self, id: &str, gate: usize) {
        self.at.lock().unwrap().entry(id.to_string()).or_insert((0, 0)).0 = gate;
        self.moved.notify_all();
    }
    fn open(&self, id: &str, gates: usize) {
        self.at.lock().unwrap().entry(id.to_string()).or_insert((0, 0)).1 = gates;
    }
    fn is_open(&self, id: &str, gate: usize) -> bool {
        // requests nobody asks about pass
        self.at.lock().unwrap().get(id).map_or(true, |x| x.1 >= gate)
    }
    /// waits until the request has reached the gate
    fn wait(&self, id: &str, gate: usize) -> bool {
        let end = Instant::now() + PATIENCE;
        let mut at = self.at.lock().unwrap();
        while at.get(id).map_or(0, |x| x.0) < gate {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            at = self.moved.wait_timeout(at, left).unwrap().0;
        }
        true
    }
}

const ANSWERED: usize = 9;

fn id_of(ctx: &Context) -> String {
    ctx.headers().get("x-id").map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).unwrap_or_default()
}

async fn gate(g: &Gates, id: &str, no: usize) {
    g.reached(id, no);
    while !g.is_open(id, no) {
        tokio::time::sleep(Duration::from_micros(150)).await;
    }
    tokio::task::yield_now().await;
}

#[derive(Clone, Debug, PartialEq)]
struct Tag(String);

#[derive(Clone, Debug)]
pub struct State(&'static str);

#[derive(Deserialize, Debug, Default)]
#[serde(default)]
struct Form {
    a: Vec<String>,
    b: Option<i32>,
}

struct Gate(Arc<Gates>);

#[async_trait::async_trait]
impl obsidian::middleware::Middleware for Gate {
    async fn handle<'a>(&'a self, mut ctx: Context, ep: obsidian::EndpointExecutor<'a>) -> ContextResult {
        let id = id_of(&ctx);
        ctx.add(Tag(id.clone()));
        gate(&self.0, &id, 1).await;
        let r = ep.next(ctx).await;
        gate(&self.0, &id, 3).await;
        if let Ok(c) = &r {
            if c.get::<Tag>() != Some(&Tag(id.clone())) || id_of(c) != id {
                return Err(ObsidianError::GeneralError(format!("request {} gets the context of {:?} back", id, c.get::<Tag>())));
            }
        }
        r
    }
}

/// what the handler sees
async fn tell(ctx: &mut Context) -> String {
    let tag = ctx.get::<Tag>().map(|t| t.0.clone());
    let state = ctx.get::<State>().map(|t| t.0);
    let (x, y) = (ctx.param::<String>("x").ok(), ctx.param::<String>("y").ok());
    let (m, u) = (ctx.method().clone(), ctx.uri().clone());
    let q: Option<Form> = ctx.query_params().ok();
    let n = ctx.headers().len();
    let body = hyper::body::to_bytes(ctx.take_body()).await.map(|b| b.to_vec()).unwrap_or_default();
    told(tag.as_deref(), state, x.as_deref(), y.as_deref(), &format!("{} {}", m, u), q, n, &String::from_utf8_lossy(&body))
}

#[allow(clippy::too_many_arguments)]
fn told(tag: Option<&str>, state: Option<&str>, x: Option<&str>, y: Option<&str>, line: &str, q: Option<Form>, n: usize, body: &str) -> String {
    format!("tag {:?} state {:?} x {:?} y {:?} line {} query {:?} headers {} body {:?}", tag, state, x, y, line, q, n, body)
}

fn app(state: Option<State>, g: Arc<Gates>) -> App<State> {
    let mut app: App<State> = App::new();
    if let Some(s) = state {
        app.set_app_state(s);
    }
    app.use_service(Gate(g.clone()));
    let h = g.clone();
    app.get("/p/:x/:y", move |mut ctx: Context| {
        let g = h.clone();
        async move {
            gate(&g, &id_of(&ctx), 2).await;
            let t = tell(&mut ctx).await;
            ctx.build(t).ok()
        }
    });
    let h = g.clone();
    app.post("/o/:y/b/:x", move |mut ctx: Context| {
        let g = h.clone();
        async move {
            let t = tell(&mut ctx).await;
            gate(&g, &id_of(&ctx), 2).await;
            ctx.build(t).ok()
        }
    });
    let h = g.clone();
    app.post("/form/*", move |mut ctx: Context| {
        let g = h.clone();
        async move {
            gate(&g, &id_of(&ctx), 2).await;
            let f: Result<Form, _> = ctx.form().await;
            ctx.build(format!("{:?}", f.ok())).with_status(StatusCode::ACCEPTED).ok()
        }
    });
    let h = g.clone();
    app.put("/json", move |mut ctx: Context| {
        let g = h.clone();
        async move {
            gate(&g, &id_of(&ctx), 2).await;
            let v: Result<Value, _> = ctx.json().await;
            ctx.build_json(v.ok()).ok()
        }
    });
    let h = g.clone();
    app.get("/e/:x", move |ctx: Context| {
        let g = h.clone();
        async move {
            gate(&g, &id_of(&ctx), 2).await;
            Err::<Context, _>(ObsidianError::GeneralError(format!("no {}", ctx.param::<String>("x").unwrap_or_default())))
        }
    });
    let h = g.clone();
    app.patch("/", move |ctx: Context| {
        let g = h.clone();
        async move {
            gate(&g, &id_of(&ctx), 2).await;
            Ok(ctx)
        }
    });
    app.scope("in", move |r: &mut obsidian::router::Router| {
        let h = g.clone();
        r.use_service(obsidian::middleware::logger::Logger::default());
        r.get("/:x", move |mut ctx: Context| {
            let g = h.clone();
            async move {
                gate(&g, &id_of(&ctx), 2).await;
                let id = leak(&id_of(&ctx));
                let t = tell(&mut ctx).await;
                ctx.build(t).with_header_str("x-seen", id).with_status(StatusCode::CREATED).ok()
            }
        });
    });
    app
}

thread_local! {
    static SERVERS: std::cell::RefCell<BTreeMap<bool, (Server, Arc<Gates>)>> = std::cell::RefCell::new(BTreeMap::new());
}

/// kind, method, path, x, y, body
fn shape(q: &Value, id: &str) -> (String, String, Option<String>, Option<String>, String) {
    let p = |m: &str, p: String, x: Option<String>, y: Option<String>, b: String| (m.to_string(), p, x, y, b);
    let (v, n) = (format!("v{}", id), s(&q["text"]));
    match s(&q["kind"]).as_str() {
        "get" => p("GET", format!("/p/{}/{}", v, n), Some(v.clone()), Some(n.clone()), String::new()),
        "post" => p("POST", format!("/o/{}/b/{}", v, n), Some(n.clone()), Some(v.clone()), format!("body {} {}", id, n)),
        "form" => p("POST", format!("/form/{}", v), None, None, format!("a={}&b=7&a={}", v, n)),
        "json" => p("PUT", "/json".into(), None, None, format!("{{\"id\": [{:?}, {:?}]}}", v, n)),
        "error" => p("GET", format!("/e/{}", v), Some(v.clone()), None, String::new()),
        "nothing" => p("PATCH", "/".into(), None, None, format!("body {}", id)),
        "scope" => p("GET", format!("/in/{}", v), Some(v.clone()), None, String::new()),
        "missing" => p("GET", format!("/q/{}", v), None, None, String::new()),
        _ => p("DELETE", format!("/p/{}/{}", v, n), None, None, String::new()),
    }
}

/// {"state": bool, "reqs": [{"kind", "text", "query": bool}], "order": [index of the request to move on]}
pub fn run(case: &Value) -> Result<(), String> {
    let with_state = case["state"].as_bool() == Some(true);
    let server = SERVERS.with(|c| {
        let mut c = c.borrow_mut();
        if !c.contains_key(&with_state) {
            let g: Arc<Gates> = Default::default();
            let app = guarded(|| app(if with_state { Some(State("the state")) } else { None }, g.clone()));
            c.insert(with_state, (serve(app.ok()?), g));
        }
        let e = c.get(&with_state).unwrap();
        Some((e.0.port, e.1.clone()))
    });
    let (port, gates) = match server {
        Some(x) => x,
        None => return Ok(()), // C03
    };
    let reqs = arr(&case["reqs"]);
    if let (Some(n), false) = (case["run"].as_u64(), reqs.is_empty()) {
        return long_run(&reqs, n as usize, port, &gates, with_state);
    }
    let replies: Arc<Mutex<BTreeMap<usize, Result<Reply, String>>>> = Default::default();
    let mut step: Vec<usize> = vec![0; reqs.len()];
    let ids: Vec<String> = (0..reqs.len()).map(|i| format!("r{}", i)).collect();
    gates.at.lock().unwrap().clear();
    for id in &ids {
        gates.open(id, 0);
    }
    let mut threads = vec![];
    let mut stuck = None;
    let mut order: Vec<usize> = arr(&case["order"]).iter().filter_map(|x| x.as_u64().map(|x| x as usize)).filter(|x| *x < reqs.len()).collect();
    for _ in 0..4 {
        order.extend(0..reqs.len()); // the rest
    }
    let at_once = case["at_once"].as_bool() == Some(true);
    for i in order {
        if step[i] >= 4 {
            continue;
        }
        if step[i] == 0 {
            let (m, p, _, _, b) = shape(&reqs[i], &i.to_string());
            let mut hs = vec![("x-id".to_string(), ids[i].clone())];
            for k in 0..reqs[i]["more"].as_u64().unwrap_or(0) {
                hs.push((format!("x-more-{}", k), "1".into()));
            }
            let t = format!("{}{}", p, query(&reqs[i], i));
            let (g, id, out) = (gates.clone(), ids[i].clone(), replies.clone());
            if at_once {
                gates.open(&ids[i], ANSWERED);
            }
            let client = std::thread::Builder::new().stack_size(1 << 18).spawn(move || {
                let r = request(port, &m, &t, &hs, b.as_bytes());
                out.lock().unwrap().insert(i, r);
                g.reached(&id, ANSWERED);
            });
            threads.push(client.unwrap_or_else(|e| panic!("harness: {}", e)));
        } else {
            gates.open(&ids[i], step[i]);
        }
        step[i] += 1;
        let until = if step[i] == 4 { ANSWERED } else { step[i] };
        if !at_once && !gates.wait(&ids[i], until) {
            stuck = Some(format!("request {} does not get on (step {}) while the others wait", i, step[i]));
            break;
        }
    }
    for id in &ids {
        gates.open(id, ANSWERED);
    }
    for t in threads {
        let _ = t.join();
    }
    if let Some(e) = stuck {
        return Err(e);
    }
    let replies = replies.lock().unwrap();
    for i in 0..reqs.len() {
        match replies.get(&i) {
            Some(Ok(r)) => compare(&reqs[i], i, with_state, r, true)?,
            Some(Err(e)) => return Err(format!("request {} ({}) is not answered: {}", i, reqs[i], e)),
            None => return Err(format!("request {} ({}) is not answered", i, reqs[i])),
        }
    }
    Ok(())
}

/// many requests in a row, on one connection per kind
fn long_run(reqs: &[Value], n: usize, port: u16, gates: &Gates, with_state: bool) -> Result<(), String> {
    gates.at.lock().unwrap().clear();
    for (i, q) in reqs.iter().enumerate() {
        gates.open(&format!("r{}", i), ANSWERED);
        let (m, p, _, _, b) = shape(q, &i.to_string());
        let mut hs = vec![("x-id".to_string(), format!("r{}", i))];
        for k in 0..q["more"].as_u64().unwrap_or(0) {
            hs.push((format!("x-more-{}", k), "1".into()));
        }
        let mut left = n;
        while left > 0 {
            let now = left.min(200);
            let rs = exchange(port, &m, &format!("{}{}", p, query(q, i)), &hs, b.as_bytes(), now - 1)?;
            for (k, r) in rs.iter().enumerate() {
                compare(q, i, with_state, r, k + 1 == now).map_err(|e| format!("in request {} of {} in a row: {}", n - left + k, n, e))?;
            }
            left -= now;
        }
    }
    Ok(())
}

fn query(q: &Value, i: usize) -> String {
    if q["query"].as_bool() == Some(true) {
        format!("?a=q{}&b={}", i, i)
    } else {
        String::new()
    }
}

fn compare(q: &Value, i: usize, with_state: bool, r: &Reply, closing: bool) -> Result<(), String> {
    let id = format!("r{}", i);
    let (m, p, x, y, b) = shape(q, &i.to_string());
    let state = if with_state { Some("the state") } else { None };
    let form = match q["query"].as_bool() {
        Some(true) => Form { a: vec![format!("q{}", i)], b: Some(i as i32) },
        _ => Form::default(),
    };
    let n = 3 + closing as usize + q["more"].as_u64().unwrap_or(0) as usize;
    let line = format!("{} {}{}", m, p, query(q, i));
    let seen = || told(Some(&id), state, x.as_deref(), y.as_deref(), &line, Some(form), n, &b);
    let mut header = None;
    let (status, body) = match s(&q["kind"]).as_str() {
        "get" | "post" => (200, seen()),
        "form" => (202, format!("{:?}", Some(Form { a: vec![format!("v{}", i), s(&q["text"]).replace("%20", " ")], b: Some(7) }))),
        "json" => (200, serde_json::from_str::<Value>(&b).unwrap().to_string()),
        "error" => (500, format!("no v{}", i)),
        "nothing" => (200, String::new()),
        "scope" => {
            header = Some(id.clone());
            (201, seen())
        }
        _ => (404, "404 Not Found".into()),
    };
    let got = r.headers.iter().find(|h| h.0 == "x-seen").map(|h| h.1.clone());
    if r.status != status || r.body != body.as_bytes() || got != header {
        return Err(format!(
            "request {} ({}) is answered with {} x-seen {:?} {:?}, alone it gets {} x-seen {:?} {:?}",
            i, q, r.status, got, String::from_utf8_lossy(&r.body), status, header, body
        ));
    }
    Ok(())
}

const KINDS: [&str; 9] = ["get", "post", "form", "json", "error", "nothing", "scope", "missing", "method"];

fn interleavings(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.iter().all(|x| *x == 0) {
        out.push(cur.clone());
        return;
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            cur.push(i);
            interleavings(left, cur, out);
            cur.pop();
            left[i] += 1;
        }
    }
}

/// all interleavings of two requests of the given kinds
pub fn enumerate(f: &mut dyn FnMut(Value) -> bool) -> u64 {
    let mut n = 0;
    let mut all = vec![];
    interleavings(&mut vec![4, 4], &mut vec![], &mut all);
    for (a, b) in [("get", "get"), ("get", "scope"), ("post", "form"), ("json", "error"), ("nothing", "missing")] {
        for (k, o) in all.iter().enumerate() {
            n += 1;
            let case = json!({"state": k % 2 == 0, "reqs": [{"kind": a, "text": "t0", "query": true}, {"kind": b, "text": "t1"}], "order": o});
            if !f(case) {
                return n;
            }
        }
    }
    n
}

pub fn gen(r: &mut Rng) -> Value {
    let many = big(r, 8);
    let run = big(r, 8);
    let n = if run { 1 + r.below(2) } else if many { size(r).min(70).max(2) } else { 2 + r.below(4) };
    let reqs: Vec<Value> = (0..n)
        .map(|_| json!({"kind": *r.pick(&KINDS), "text": *r.pick(&["t", "u", "b", "a%20c"]), "query": r.chance(1, 3), "more": r.below(3)}))
        .collect();
    let mut order: Vec<usize> = (0..4 * n).map(|i| i % n).collect();
    r.shuffle(&mut order);
    if many && r.chance(1, 2) {
        // all of them get as far as the handler before the first one is answered
        order = (0..4 * n).map(|i| i % n).collect();
    }
    if run {
        return json!({"state": r.chance(2, 3), "reqs": reqs, "run": size(r).min(3000)});
    }
    json!({"state": r.chance(2, 3), "reqs": reqs, "order": order, "at_once": r.chance(1, 4)})
}
