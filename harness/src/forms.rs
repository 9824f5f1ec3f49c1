//! Query, form and json: C12 C13 C14
use crate::util::*;
use obsidian::context::Context;
use obsidian::router::from_cow_map;
use obsidian::{Body, Request};
use serde::Deserialize;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

/// a body that arrives in these chunks
fn chunked(chunks: Vec<Vec<u8>>, abort: bool) -> Body {
    let (mut tx, body) = Body::channel();
    tokio::spawn(async move {
        for c in chunks {
            if tx.send_data(c.into()).await.is_err() {
                return;
            }
        }
        if abort {
            tx.abort();
        }
    });
    body
}

fn split(bytes: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut cuts: Vec<usize> = cuts.iter().map(|c| c % (bytes.len() + 1)).collect();
    cuts.sort();
    let mut out = vec![];
    let mut at = 0;
    for c in cuts {
        out.push(bytes[at..c].to_vec());
        at = c;
    }
    out.push(bytes[at..].to_vec());
    out
}

fn bytes_of(v: &Value) -> Vec<u8> {
    match v {
        Value::String(t) => t.clone().into_bytes(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        _ => vec![],
    }
}

fn cuts_of(v: &Value) -> Vec<usize> {
    arr(v).iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect()
}

fn others(c: &Context) -> String {
    format!("{} {} {:?} {:?} {:?} {:?}", c.method(), c.uri(), c.headers(), c.get::<u32>(), c.param::<String>("p").ok(), (c.extensions().len(), c.response().is_some()))
}

fn ctx(uri: &str, body: Body, case: &Value) -> Context {
    let mut m = HashMap::new();
    m.insert("p".to_string(), "é".to_string());
    let mut b = Request::builder().method(case["method"].as_str().unwrap_or("POST")).uri(uri).header("x-h", "1");
    for h in arr(&case["headers"]) {
        b = b.header(s(&h[0]), s(&h[1]));
    }
    let mut c = Context::new(b.body(body).unwrap(), m);
    c.add(5u32);
    c
}

/// method and headers of the request: what is read from the body is the same whatever they say
fn gen_frame(r: &mut Rng, case: &mut Value, len: usize) {
    if r.chance(1, 2) {
        return;
    }
    case["method"] = json!(*r.pick(&["POST", "GET", "PUT", "DELETE", "HEAD", "PATCH", "X"]));
    let mut hs = vec![];
    for _ in 0..r.below(4) {
        let n = r.pick(&[len, len, 0, 1, len / 2, len.saturating_sub(1), len + 1, 1 << 40]).to_string();
        let h = match r.below(5) {
            0 => ("content-length".to_string(), n),
            1 => {
                let v = *r.pick(&[
                    "application/json", "application/x-www-form-urlencoded", "text/plain", "application/json; charset=latin1", "multipart/form-data; boundary=x",
                    "application/x-www-form-urlencoded;charset=utf-16", "", "application/vnd.api+json",
                ]);
                ("content-type".to_string(), v.to_string())
            }
            2 => (r.pick(&["content-encoding", "transfer-encoding", "expect", "te", "trailer", "upgrade"]).to_string(), r.pick(&["gzip", "chunked", "identity", "100-continue"]).to_string()),
            _ => any_header(r),
        };
        hs.push(json!([h.0, h.1]));
    }
    case["headers"] = json!(hs);
}

// ------------------------------------------------------------------ C12
fn decode(b: &[u8]) -> String {
    let mut out = vec![];
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        match b[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() => {
                out.push((hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap()) as u8);
                i += 2;
            }
            c => out.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn grouped(q: &[u8]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for piece in q.split(|c| *c == b'&') {
        if piece.is_empty() {
            continue;
        }
        let mut kv = piece.splitn(2, |c| *c == b'=');
        let k = decode(kv.next().unwrap());
        let v = decode(kv.next().unwrap_or(&[]));
        if !v.is_empty() {
            m.entry(k).or_default().push(v);
        }
    }
    m
}

/// a number of bytes which may be just above some limit
fn big_size(r: &mut Rng) -> usize {
    if r.chance(1, 2) {
        size(r).min(2_000_000)
    } else {
        *r.pick(&[1000, 1024, 1025, 4097, 8193, 16_385, 65_537, 70_000, 131_073, 300_000, 1_048_577]) + r.below(3)
    }
}

/// the same as a list of numbers, compactly
fn bytes_json(b: Vec<u8>) -> Value {
    match String::from_utf8(b) {
        Ok(t) => json!(t),
        Err(e) => json!(e.into_bytes()),
    }
}

fn short(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.len() > 400 {
        format!("{}... ({} bytes)", t.chars().take(200).collect::<String>(), b.len())
    } else {
        t.into_owned()
    }
}

fn short_of<T: std::fmt::Debug>(t: &T) -> String {
    let t = format!("{:?}", t);
    if t.len() > 600 {
        format!("{}... ({} characters)", t.chars().take(300).collect::<String>(), t.len())
    } else {
        t
    }
}

#[derive(Deserialize, Debug, PartialEq)]
struct Strict {
    a: Vec<String>,
    b: Option<String>,
}

pub fn run_c12(case: &Value) -> Result<(), String> {
    let data = bytes_of(&case["data"]);
    let want = grouped(&data);
    let runs: Vec<Vec<usize>> = vec![vec![], cuts_of(&case["cuts"]), (0..data.len().min(64)).collect()];
    for cuts in runs {
        let chunks = split(&data, &cuts);
        let (got, strict, rest, before, after) = guarded(|| {
            block_on(async {
                let mut c = ctx("/x", chunked(chunks.clone(), false), case);
                let before = others(&c);
                let got = c.form::<HashMap<String, Vec<String>>>().await.map_err(|e| e.to_string());
                let after = others(&c);
                let rest = hyper::body::to_bytes(c.take_body()).await.map_err(|e| e.to_string());
                let mut c = ctx("/x", chunked(chunks.clone(), false), case);
                let strict = c.form::<Strict>().await.ok();
                (got, strict, rest, before, after)
            })
        })
        .map_err(|e| format!("form panics: {}", e))?;
        let got: Result<BTreeMap<_, _>, _> = got.map(|m| m.into_iter().collect());
        if got != Ok(want.clone()) {
            return Err(format!("form {:?} in chunks {:?} gives {}, expected {}", short(&data), chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), short_of(&got), short_of(&want)));
        }
        let w = want.get("a").map(|a| Strict { a: a.clone(), b: want.get("b").map(|b| b[0].clone()) });
        if strict != w {
            return Err(format!("form {:?} gives {}, expected {}", short(&data), short_of(&strict), short_of(&w)));
        }
        if rest.as_ref().map(|b| b.len()) != Ok(0) {
            return Err(format!("after form the body is {:?}", rest));
        }
        if before != after {
            return Err(format!("form changes the context: {} to {}", before, after));
        }
    }
    if let Ok(text) = std::str::from_utf8(&data) {
        if let Ok(uri) = format!("/x?{}", text).parse::<hyper::Uri>() {
            let q = uri.query().unwrap_or("").as_bytes().to_vec();
            let want = grouped(&q);
            let got = guarded(|| {
                let mut c = ctx(&uri.to_string(), Body::from("body"), case);
                c.query_params::<HashMap<String, Vec<String>>>().map_err(|e| e.to_string())
            })
            .map_err(|e| format!("query_params panics: {}", e))?
            .map(|m| m.into_iter().collect::<BTreeMap<_, _>>());
            if got != Ok(want.clone()) {
                return Err(format!("query {:?} gives {}, expected {}", short(text.as_bytes()), short_of(&got), short_of(&want)));
            }
        }
    }
    Ok(())
}

pub fn gen_c12(r: &mut Rng) -> Value {
    let mut b: Vec<u8> = vec![];
    let big = big(r, 40);
    let pairs = if big && r.chance(1, 2) { size(r).min(3000) } else { r.below(8) };
    let few = r.chance(1, 3);
    for i in 0..pairs {
        if !b.is_empty() {
            b.push(b'&');
        }
        let mut k = r.pick(&["a", "a", "b", "c", "ab", "%61", "a+b", "", "é", "a%5B%5D", "%C3%A9", "a[]", "A", "a.b", "?a", "a[0]", "_method"]).to_string();
        if few {
            k = r.pick(&["a", "b"]).to_string();
        }
        if big && r.chance(1, 2) {
            k = format!("k{}", i);
        }
        if odd(r, 15) {
            spice(r, &mut k);
        }
        b.extend(k.as_bytes());
        if r.chance(9, 10) {
            b.push(b'=');
            if odd(r, 8) {
                let mut v = r.pick(&["1", "x", "é", "ab"]).to_string();
                spice(r, &mut v);
                b.extend(v.as_bytes());
                continue;
            }
            if big && r.chance(1, 4) {
                let n = big_size(r) / 4;
                b.extend(std::iter::repeat(*r.pick(&[b'x', b'+', b'1'])).take(n.min(400_000 / pairs.max(1))));
            }
            let v: &[u8] = *r.pick(&[&b"1"[..], b"1", b"2", b"", b"a?b", b"?", b"null", b"%0D%0A", b"%2B", b"%2b%25", b"x+y", b"%20", b"%", b"%4", b"%zz", b"%C3%A9", b"%ff", b"\xff\xfe", b"1=2", "é".as_bytes(), b"a;b", b"%26", b"%00", b"0"]);
            b.extend(v);
        }
    }
    if r.chance(1, 5) {
        let n = r.below(6);
        for _ in 0..n {
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(&[b'&', b'=', b'%', b'+', b'a', 0xC3, b' ', b';', b'#']));
        }
    }
    let cuts: Vec<usize> = (0..r.below(5)).map(|_| r.below(b.len() + 1)).collect();
    let n = b.len();
    let mut case = json!({ "data": bytes_json(b), "cuts": cuts });
    gen_frame(r, &mut case, n);
    case
}

// ------------------------------------------------------------------ C13
#[derive(Deserialize, Debug, PartialEq)]
struct Unit;
#[derive(Deserialize, Debug, PartialEq)]
struct New(i32);
#[derive(Deserialize, Debug, PartialEq)]
struct Wrap(Vec<String>);
#[derive(Deserialize, Debug, PartialEq)]
struct Deep {
    k: Vec<Option<String>>,
    #[serde(default)]
    l: Option<i32>,
}
#[derive(Deserialize, Debug, PartialEq)]
#[allow(dead_code)]
enum Choice {
    A,
    B(i32),
}

pub fn run_c13(case: &Value) -> Result<(), String> {
    let mut data: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in case["map"].as_object().cloned().unwrap_or_default() {
        data.insert(k, arr(&v).iter().map(s).collect());
    }
    let map: HashMap<Cow<str>, Cow<[String]>> =
        data.iter().map(|(k, v)| (Cow::from(k.as_str()), Cow::from(&v[..]))).collect();

    fn check<'a, T, X: PartialEq + std::fmt::Debug>(
        map: &'a HashMap<Cow<'a, str>, Cow<'a, [String]>>,
        data: &BTreeMap<String, Vec<String>>,
        per: impl Fn(&[String]) -> Option<X>,
        conv: impl Fn(T) -> X,
    ) -> Result<(), String>
    where
        T: Deserialize<'a>,
    {
        let name = std::any::type_name::<T>();
        let mut want = Some(BTreeMap::new());
        for (k, v) in data {
            let x = if v.is_empty() { None } else { per(v) };
            match (x, &mut want) {
                (Some(x), Some(m)) => {
                    m.insert(k.clone(), x);
                }
                _ => want = None,
            }
        }
        let got = guarded(|| from_cow_map::<HashMap<String, T>, _>(map).ok()).map_err(|e| format!("deserializing {:?} into maps of {} panics: {}", data, name, e))?;
        let got = got.map(|m| m.into_iter().map(|(k, v)| (k, conv(v))).collect::<BTreeMap<_, _>>());
        if got != want {
            return Err(format!("deserializing {:?} into maps of {}: {:?}, expected {:?}", data, name, got, want));
        }
        Ok(())
    }
    fn scalar<T: std::str::FromStr + for<'de> Deserialize<'de> + std::fmt::Debug>(
        map: &HashMap<Cow<'_, str>, Cow<'_, [String]>>,
        data: &BTreeMap<String, Vec<String>>,
    ) -> Result<(), String> {
        let d = |t: T| format!("{:?}", t);
        // the borrowed map lives as long as the call
        let owned: HashMap<Cow<str>, Cow<[String]>> = map.iter().map(|(k, v)| (Cow::from(k.to_string()), Cow::from(v.to_vec()))).collect();
        check::<T, String>(unsafe_life(&owned), data, |v| v[0].parse::<T>().ok().map(d), d)?;
        check::<Vec<T>, Vec<String>>(
            unsafe_life(&owned),
            data,
            |v| v.iter().map(|x| x.parse::<T>().ok().map(d)).collect(),
            |t| t.into_iter().map(d).collect(),
        )?;
        check::<Option<T>, Option<String>>(
            unsafe_life(&owned),
            data,
            |v| if v[0].is_empty() { Some(None) } else { v[0].parse::<T>().ok().map(|t| Some(d(t))) },
            |t| t.map(d),
        )?;
        check::<Vec<Option<T>>, Vec<Option<String>>>(
            unsafe_life(&owned),
            data,
            |v| v.iter().map(|x| if x.is_empty() { Some(None) } else { x.parse::<T>().ok().map(|t| Some(d(t))) }).collect(),
            |t| t.into_iter().map(|x| x.map(d)).collect(),
        )
    }
    fn unsafe_life<'a, 'b>(m: &'a HashMap<Cow<'b, str>, Cow<'b, [String]>>) -> &'a HashMap<Cow<'a, str>, Cow<'a, [String]>> {
        m
    }
    scalar::<u8>(&map, &data)?;
    scalar::<u16>(&map, &data)?;
    scalar::<u32>(&map, &data)?;
    scalar::<u64>(&map, &data)?;
    scalar::<i8>(&map, &data)?;
    scalar::<i16>(&map, &data)?;
    scalar::<i32>(&map, &data)?;
    scalar::<i64>(&map, &data)?;
    scalar::<f32>(&map, &data)?;
    scalar::<f64>(&map, &data)?;
    scalar::<bool>(&map, &data)?;
    scalar::<String>(&map, &data)?;
    let first = |v: &[String]| v[0].chars().next();
    check::<char, char>(&map, &data, first, |c| c)?;
    check::<Vec<char>, Vec<char>>(&map, &data, |v| v.iter().map(|x| x.chars().next()).collect(), |c| c)?;
    check::<(), ()>(&map, &data, |_| Some(()), |c| c)?;
    check::<Vec<()>, usize>(&map, &data, |v| Some(v.len()), |c| c.len())?;
    check::<Vec<Unit>, usize>(&map, &data, |v| Some(v.len()), |c| c.len())?;
    check::<Vec<serde::de::IgnoredAny>, usize>(&map, &data, |v| Some(v.len()), |c| c.len())?;
    check::<New, i32>(&map, &data, |v| v[0].parse().ok(), |c| c.0)?;
    check::<Vec<New>, Vec<i32>>(&map, &data, |v| v.iter().map(|x| x.parse().ok()).collect(), |c| c.into_iter().map(|n| n.0).collect())?;
    check::<Wrap, Vec<String>>(&map, &data, |v| Some(v.to_vec()), |c| c.0)?;
    check::<Vec<Vec<String>>, Vec<String>>(&map, &data, |v| Some(v.to_vec()), |c| c.concat())?;
    check::<std::collections::BTreeSet<String>, std::collections::BTreeSet<String>>(&map, &data, |v| Some(v.iter().cloned().collect()), |c| c)?;
    check::<serde::de::IgnoredAny, ()>(&map, &data, |_| Some(()), |_| ())?;
    // a target that says nothing gets the text
    let text = |x: &String| serde_json::Value::String(x.clone());
    check::<serde_json::Value, serde_json::Value>(&map, &data, |v| Some(text(&v[0])), |c| c)?;
    check::<Vec<serde_json::Value>, Vec<serde_json::Value>>(&map, &data, |v| Some(v.iter().map(text).collect()), |c| c)?;

    // structures
    let deep = guarded(|| from_cow_map::<Deep, _>(&map).ok()).map_err(|e| format!("struct target panics on {:?}: {}", data, e))?;
    let want = (|| {
        if data.values().any(|v| v.is_empty()) {
            return None;
        }
        let k = data.get("k")?.iter().map(|x| if x.is_empty() { None } else { Some(x.clone()) }).collect();
        let l = match data.get("l") {
            None => None,
            Some(v) if v[0].is_empty() => None,
            Some(v) => Some(v[0].parse().ok()?),
        };
        Some(Deep { k, l })
    })();
    if deep != want {
        return Err(format!("deserializing {:?} into a struct: {:?}, expected {:?}", data, deep, want));
    }
    // never a panic, whatever the target
    guarded(|| from_cow_map::<HashMap<String, Choice>, _>(&map).ok()).map_err(|e| format!("enum target panics on {:?}: {}", data, e))?;
    guarded(|| from_cow_map::<HashMap<String, (i32, String)>, _>(&map).ok()).map_err(|e| format!("tuple target panics on {:?}: {}", data, e))?;
    guarded(|| from_cow_map::<HashMap<String, HashMap<String, String>>, _>(&map).ok()).map_err(|e| format!("nested target panics on {:?}: {}", data, e))?;
    guarded(|| from_cow_map::<HashMap<i32, String>, _>(&map).ok()).map_err(|e| format!("integer keys panic on {:?}: {}", data, e))?;
    guarded(|| from_cow_map::<Vec<String>, _>(&map).ok()).map_err(|e| format!("sequence target panics on {:?}: {}", data, e))?;
    guarded(|| from_cow_map::<i32, _>(&map).ok()).map_err(|e| format!("scalar target panics on {:?}: {}", data, e))?;
    guarded(|| from_cow_map::<Choice, _>(&map).ok()).map_err(|e| format!("enum target panics on {:?}: {}", data, e))?;
    Ok(())
}

pub fn gen_c13(r: &mut Rng) -> Value {
    let mut m = json!({});
    let ints = r.chance(1, 3);
    let big = big(r, 60);
    let keys = if big && r.chance(1, 2) { size(r).min(400) } else { r.below(4) };
    for i in 0..keys {
        let mut k = r.pick(&["k", "l", "m", "é", "", "a[]", "K", "k.a", "_", "0"]).to_string();
        if odd(r, 15) {
            spice(r, &mut k);
        }
        if i > 6 {
            k = format!("k{}", i);
        }
        let n = [0, 1, 1, 2, 2, 3, 5][r.below(7)];
        let n = if big && i < 6 { size(r).min(700) } else { n };
        let n = if r.chance(3, 4) { n.max(1) } else { n };
        let vs: Vec<String> = (0..n)
            .map(|_| {
                let mut v = if ints {
                    r.pick(&["1", "2", "0", "-3", "77", ""]).to_string()
                } else {
                    r.pick(&[
                        "1", "", "é", "x", "true", "false", "1.5", "-1", "256", "99999999999999999999", " 1", "A", "e\u{301}", "inf", "+4", "null", "on",
                        "off", "yes", "TRUE", "True", "1,2", "01", "-0", "0x10", "1_000", "1e3", "NaN", "1 ", "None", "-129", "65536", "2147483648",
                        "-2147483649", "4294967296", "9223372036854775808", "18446744073709551616", "  ", "\u{0}", "\"x\"", "1.", ".5", "t", "()",
                    ])
                    .to_string()
                };
                if odd(r, 12) && !ints {
                    spice(r, &mut v);
                }
                v
            })
            .collect();
        m[k] = json!(vs);
    }
    json!({ "map": m })
}

// ------------------------------------------------------------------ C14
#[derive(Deserialize, Debug, PartialEq)]
struct J {
    a: i32,
    b: Vec<String>,
}

pub fn run_c14(case: &Value) -> Result<(), String> {
    let data = bytes_of(&case["data"]);
    let abort = case["abort"].as_bool().unwrap_or(false);
    let want: Option<Value> = if abort { None } else { serde_json::from_slice(&data).ok() };
    let want_t: Option<J> = if abort { None } else { serde_json::from_slice(&data).ok() };
    for cuts in [vec![], cuts_of(&case["cuts"]), (0..data.len().min(64)).collect()] {
        let chunks = split(&data, &cuts);
        let (got, got_t, rest, before, after, again) = guarded(|| {
            block_on(async {
                let mut c = ctx("/x", chunked(chunks.clone(), abort), case);
                let before = others(&c);
                let got = c.json::<Value>().await.ok();
                let after = others(&c);
                let again = c.json::<Value>().await.ok();
                let rest = hyper::body::to_bytes(c.take_body()).await.map(|b| b.len()).ok();
                let mut c = ctx("/x", chunked(chunks.clone(), abort), case);
                (got, c.json::<J>().await.ok(), rest, before, after, again)
            })
        })
        .map_err(|e| format!("json panics: {}", e))?;
        let sizes: Vec<usize> = chunks.iter().map(|c| c.len()).collect();
        if got != want {
            return Err(format!("json body {:?} in chunks {:?} (aborted: {}) gives {}, expected {}", short(&data), sizes, abort, short_of(&got), short_of(&want)));
        }
        if got_t != want_t {
            return Err(format!("json body {:?} in chunks {:?} gives {}, expected {}", short(&data), sizes, short_of(&got_t), short_of(&want_t)));
        }
        if rest != Some(0) || again.is_some() {
            return Err(format!("the body is not empty after json(): {:?} {:?}", rest, again));
        }
        if before != after {
            return Err(format!("json changes the context: {} to {}", before, after));
        }
    }
    Ok(())
}

pub fn gen_c14(r: &mut Rng) -> Value {
    fn val(r: &mut Rng, d: usize) -> Value {
        match r.below(if d > 2 { 4 } else { 7 }) {
            0 => json!(r.below(100)),
            1 => {
                let mut t = r.pick(&["", "x", "é", "\u{1f600}\"\\", "\u{0}\u{1f}", "\u{feff}", " x ", "//", "/*"]).to_string();
                if odd(r, 8) {
                    spice(r, &mut t);
                }
                json!(t)
            }
            2 => Value::Null,
            3 => json!(r.chance(1, 2)),
            4 | 5 => json!((0..r.below(4)).map(|_| val(r, d + 1)).collect::<Vec<_>>()),
            _ => {
                let mut m = json!({});
                for _ in 0..r.below(4) {
                    m[*r.pick(&["a", "b", "é"])] = val(r, d + 1);
                }
                m
            }
        }
    }
    let v = if r.chance(1, 3) { json!({"a": r.below(9), "b": ["x", "é"]}) } else { val(r, 0) };
    let mut b = serde_json::to_vec(&v).unwrap();
    if big(r, 60) {
        // long, deep
        let n = big_size(r);
        b = match r.below(5) {
            0 => {
                let mut c = vec![b' '; n.min(2_000_000)];
                c.extend(&b);
                c
            }
            1 => serde_json::to_vec(&json!({"a": 1, "b": ["x".repeat(n.min(2_000_000)), ""]})).unwrap(),
            2 => {
                let n = size(r).min(126);
                format!("{}{}", "[".repeat(n), "]".repeat(n)).into_bytes()
            }
            3 => serde_json::to_vec(&json!({"a": 2, "b": (0..n.min(40_000)).map(|i| i.to_string()).collect::<Vec<_>>()})).unwrap(),
            _ => {
                b.extend(vec![b'\n'; n.min(2_000_000)]);
                b
            }
        };
    }
    match r.below(13) {
        8 => {
            let mut c = b"\xef\xbb\xbf".to_vec();
            c.extend(&b);
            b = c;
        }
        9 => {
            let n = 1 + r.below(3);
            b.extend(vec![*r.pick(&[0u8, b',', b';', b'}', b'\r', 0x1a]); n]);
        }
        10 => {
            let i = r.below(b.len() + 1);
            let x: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xe2\x80\xa8", b"\x01", b"\\u0000", b"\\ud800", b"1e999", b"-", b"0", b"'", b"/**/", b"// x\n"]);
            for (k, c) in x.iter().enumerate() {
                b.insert(i + k, *c);
            }
        }
        11 => b = r.pick(&[&b""[..], b" ", b"null", b"{\"a\":1,\"a\":2,\"b\":[]}", b"{\"a\":1,\"b\":[],\"c\":3}", b")]}',\n{\"a\":1,\"b\":[]}", b"\"\xff\"", b"[\"\xc3(\"]", b"{\"a\":1.0,\"b\":[]}", b"NaN", b"{'a':1}", b"[1,]", b"{\"a\":9999999999,\"b\":[]}"]).to_vec(),
        12 => {
            let mut t = String::from_utf8_lossy(&b).into_owned();
            spice(r, &mut t);
            b = t.into_bytes();
        }
        0 => {
            b.truncate(r.below(b.len() + 1));
        }
        1 => b.extend(r.pick(&[&b" "[..], b"x", b"{}", b"\n", b"\x00", b"\xff"]).iter()),
        2 => {
            if b.is_empty() {
                b.push(b'1');
            }
            let i = r.below(b.len());
            b[i] = *r.pick(&[b'"', b'{', b',', 0xff, b' ', b'0']);
        }
        3 => {
            let mut c = b"  ".to_vec();
            c.extend(&b);
            b = c;
        }
        _ => {}
    }
    let cuts: Vec<usize> = (0..r.below(5)).map(|_| r.below(b.len() + 1)).collect();
    let n = b.len();
    let mut case = json!({ "data": bytes_json(b), "cuts": cuts, "abort": r.chance(1, 8) });
    gen_frame(r, &mut case, n);
    case
}
