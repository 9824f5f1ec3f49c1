//! Random numbers, panics, case shrinking.
use serde_json::Value;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

thread_local! {
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| *q.borrow()) {
            old(i)
        }
    }));
}

/// Run the code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(String, usize)>) {
    match v {
        Value::Array(a) => {
            out.push((path.iter().map(|p| format!("/{}", p)).collect(), a.len()));
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                arrays(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                arrays(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn texts(v: &Value, path: &mut Vec<String>, out: &mut Vec<String>) {
    match v {
        Value::String(t) if !t.is_empty() => out.push(path.iter().map(|p| format!("/{}", p.replace('~', "~0").replace('/', "~1"))).collect()),
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                texts(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                texts(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

/// Drop parts of the long texts as long as the case keeps failing.
fn shrink_texts(case: Value, fails: &dyn Fn(&Value) -> bool) -> Value {
    let mut cur = case;
    let start = std::time::Instant::now();
    let mut list = vec![];
    texts(&cur, &mut vec![], &mut list);
    for ptr in list {
        let mut t: Vec<char> = match cur.pointer(&ptr) {
            Some(Value::String(t)) => t.chars().collect(),
            _ => continue,
        };
        let mut part = t.len() / 2;
        while part >= 1 && t.len() > 30 {
            let mut i = 0;
            while i + part <= t.len() {
                if start.elapsed().as_secs() > 10 {
                    return cur;
                }
                let mut u = t.clone();
                u.drain(i..i + part);
                let mut cand = cur.clone();
                *cand.pointer_mut(&ptr).unwrap() = Value::String(u.iter().collect());
                if fails(&cand) {
                    cur = cand;
                    t = u;
                } else {
                    i += part;
                }
            }
            part /= 2;
        }
    }
    cur
}

/// Drop list elements as long as the case keeps failing.
pub fn shrink(case: &Value, fails: &dyn Fn(&Value) -> bool) -> Value {
    shrink_texts(shrink_lists(case, fails), fails)
}

fn shrink_lists(case: &Value, fails: &dyn Fn(&Value) -> bool) -> Value {
    let mut cur = case.clone();
    let start = std::time::Instant::now();
    loop {
        let mut list = vec![];
        arrays(&cur, &mut vec![], &mut list);
        let mut progress = false;
        'outer: for (ptr, len) in list {
            for i in (0..len).rev() {
                if start.elapsed().as_secs() > 20 {
                    return cur;
                }
                let mut cand = cur.clone();
                if let Some(Value::Array(a)) = cand.pointer_mut(&ptr) {
                    a.remove(i);
                }
                if fails(&cand) {
                    cur = cand;
                    progress = true;
                    break 'outer;
                }
            }
        }
        if !progress {
            return cur;
        }
    }
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
            .unwrap();
    }
    RT.with(|rt| rt.block_on(f))
}

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}

pub fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

// ------------------------------------------------------------------ a dictionary for the generators
/// Literals of the code under test which the unchanged code does not have (see tools/driver.py), as in the
/// dictionaries of fuzzers: texts, and numbers which may be limits.
#[derive(Default)]
pub struct Dict {
    pub texts: Vec<String>,
    pub numbers: Vec<usize>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        if let Some(v) = std::env::var("HARNESS_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()).and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            d.texts = arr(&v["texts"]).iter().map(s).filter(|t| !t.is_empty()).collect();
            d.numbers = arr(&v["numbers"]).iter().filter_map(|n| n.as_u64()).map(|n| n as usize).collect();
        }
        d
    })
}

const ODD: [&str; 44] = [
    "%20", "%2F", "%2f", "%2e", "%00", "%", "+", ";", "?", "&", "=", ".", "..", "~", "-", "_", "@", "!", "'", "\"", "(", "[]", "[0]", "$", ",", "|",
    "\\", " ", "\t", "\n", "\r\n", "\u{0}", "\u{feff}", "\u{a0}", "\u{301}", "A", "É", "ß", "0", "1", "null", "true", "on", "#",
];

/// makes a text odd, and sometimes long
pub fn spice(r: &mut Rng, t: &mut String) {
    let d = dict();
    let at = |r: &mut Rng, t: &String| -> usize {
        let n = t.chars().count();
        match r.below(4) {
            0 => 0,
            1 => t.len(),
            _ => t.char_indices().map(|x| x.0).nth(r.below(n + 1)).unwrap_or(t.len()),
        }
    };
    match r.below(10) {
        0 => *t = t.to_uppercase(),
        1 => {
            let i = r.below(t.chars().count());
            *t = t.chars().enumerate().map(|(k, c)| if k == i { if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() } } else { c }).collect();
        }
        2 => *t = t.to_lowercase(),
        3 => {
            let n = size(r).min(2000);
            let c = *r.pick(&['a', 'b', 'x', 'é', '1', ' ']);
            let i = at(r, t);
            t.insert_str(i, &c.to_string().repeat(n));
        }
        k if k < 7 && !d.texts.is_empty() => {
            let i = at(r, t);
            let x = r.pick(&d.texts).clone();
            if r.chance(1, 3) {
                *t = x;
            } else {
                t.insert_str(i, &x);
            }
        }
        _ => {
            let i = at(r, t);
            let x = *r.pick(&ODD);
            if r.chance(1, 5) {
                *t = x.to_string();
            } else {
                t.insert_str(i, x);
            }
        }
    }
}

/// a number which may be just above or below some limit
pub fn size(r: &mut Rng) -> usize {
    let d = dict();
    let n = if !d.numbers.is_empty() && r.chance(2, 3) {
        *r.pick(&d.numbers)
    } else {
        *r.pick(&[1, 2, 4, 5, 8, 10, 12, 16, 20, 24, 32, 50, 64, 99, 100, 127, 128, 200, 255, 256, 300, 500, 512])
    };
    match r.below(4) {
        0 => n.saturating_sub(1),
        1 => n,
        2 => n + 1,
        _ => n + 2 + r.below(4),
    }
}

/// one in `n`, or often when the code has limits of its own
pub fn big(r: &mut Rng, n: usize) -> bool {
    let n = if dict().numbers.is_empty() { n } else { 5 };
    r.chance(1, n)
}

/// one in `n`, or often when the code has texts of its own
pub fn odd(r: &mut Rng, n: usize) -> bool {
    let n = if dict().texts.is_empty() { n } else { 4 };
    r.chance(1, n)
}

const HEADERS: [&str; 22] = [
    "accept", "authorization", "cookie", "user-agent", "referer", "origin", "x-forwarded-for", "x-forwarded-host", "x-http-method-override", "range",
    "if-none-match", "if-modified-since", "accept-encoding", "accept-language", "content-type", "cache-control", "x-request-id", "dnt", "forwarded",
    "x-real-ip", "pragma", "x-requested-with",
];
const HEADER_VALUES: [&str; 16] = [
    "*/*", "1", "", "text/html", "application/json", "application/x-www-form-urlencoded; charset=latin1", "a=b; c=d", "Basic YTpi", "gzip, br", "bytes=0-1",
    "no-cache", "GET", "DELETE", "127.0.0.1", "\"tag\"", "Wed, 21 Oct 2015 07:28:00 GMT",
];
/// these are hyper's business
const NOT_OURS: [&str; 9] = ["connection", "content-length", "transfer-encoding", "host", "expect", "upgrade", "te", "date", "http2-settings"];

fn header_name(t: &str) -> Option<String> {
    let t = t.trim_end_matches(':').to_lowercase();
    let ok = !t.is_empty() && t.len() < 60 && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') && !NOT_OURS.contains(&t.as_str());
    if ok {
        Some(t)
    } else {
        None
    }
}

/// a header of a request or a response which has no meaning to hyper
pub fn any_header(r: &mut Rng) -> (String, String) {
    let names: Vec<String> = dict().texts.iter().filter_map(|t| header_name(t)).collect();
    let name = if !names.is_empty() && r.chance(1, 2) { r.pick(&names).clone() } else { r.pick(&HEADERS).to_string() };
    let vals: Vec<&String> = dict().texts.iter().filter(|t| t.is_ascii() && t.trim() == t.as_str() && !t.chars().any(|c| c.is_control())).collect();
    let value = if !vals.is_empty() && r.chance(1, 2) { r.pick(&vals).to_string() } else { r.pick(&HEADER_VALUES).to_string() };
    (name, value)
}

/// a status hyper sends with a body
pub fn any_status(r: &mut Rng) -> u16 {
    let d = dict();
    let n = if !d.numbers.is_empty() && r.chance(1, 2) {
        size(r) as u16
    } else if r.chance(1, 2) {
        *r.pick(&[200u16, 201, 202, 203, 205, 206, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 405, 406, 409, 410, 413, 418, 422, 429, 500, 501, 502, 503, 504, 599])
    } else {
        200 + r.below(800) as u16
    };
    if n < 200 || n > 999 || n == 204 || n == 304 {
        200
    } else {
        n
    }
}

/// something a request target may contain
pub fn is_target(t: &str) -> bool {
    t.starts_with('/') && t.bytes().all(|c| c > b' ' && c < 127 && !b"<>\"{}|\\^`#?".contains(&c)) && t.parse::<hyper::Uri>().map_or(false, |u| u.path() == t)
}
