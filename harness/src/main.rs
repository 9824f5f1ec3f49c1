//! Differential checks of the real crate against executable models.
//!   harness PROP --seed N --secs S --depth quick|thorough --out FILE
//!   harness PROP --replay FILE
mod chain;
mod conc;
mod forms;
mod http;
mod routes;
mod util;

use serde_json::{json, Value};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::Instant;
use util::*;

static CURRENT: AtomicPtr<Value> = AtomicPtr::new(std::ptr::null_mut());
static CASES: AtomicU64 = AtomicU64::new(0);
/// far more than any case takes, with the time-outs of its connections
const TOO_LONG: u64 = 100;
static INCONCLUSIVE: AtomicU64 = AtomicU64::new(0);
/// what goes wrong when the machine runs out of something
const INFRA: [&str; 9] = [
    "harness:",
    "Resource temporarily unavailable",
    "failed to spawn thread",
    "Too many open files",
    "Cannot allocate memory",
    "Cannot assign requested address",
    "Address already in use",
    "(os error 11)",
    "(os error 24)",
];

/// reports a case which does not come to an end
fn watch(prop: &str, seed: u64, out: Option<String>) {
    let prop = prop.to_string();
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (p, n) = (CURRENT.load(SeqCst), CASES.load(SeqCst));
            if p.is_null() || n != last {
                last = n;
                since = Instant::now();
            } else if since.elapsed().as_secs() >= TOO_LONG {
                // the case stays where it is: the thread which owns it is stuck in it
                let case = unsafe { (*p).clone() };
                let doc = json!({
                    "property": prop, "seed": seed, "enumerated": n, "random": 0, "over_the_wire_cases": 0, "domains": [],
                    "failure": {"case": case, "error": format!("does not come to an end within {} s", TOO_LONG)}, "unstable": false,
                    "seconds": TOO_LONG,
                });
                if let Some(f) = &out {
                    let _ = std::fs::write(f, serde_json::to_string_pretty(&doc).unwrap());
                }
                eprintln!("{}", doc);
                if prop == "C11" || prop == "C09" {
                    http::Scratch::remove();
                }
                std::process::exit(1);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let thorough = opt("--depth").as_deref() == Some("thorough");
    install_panic_hook();
    let scratch = if prop == "C11" || prop == "C09" { Some(http::Scratch::new()) } else { None };

    let trace = opt("--trace");
    watch(&prop, seed, opt("--out"));
    let run = |case: &Value| -> Result<(), String> {
        if let Some(f) = &trace {
            // what was running when the process died
            let _ = std::fs::write(f, json!({ "case": case }).to_string());
        }
        CURRENT.store(case as *const Value as *mut Value, SeqCst);
        CASES.fetch_add(1, SeqCst);
        let r = guarded(|| match prop.as_str() {
            "C01" | "C02" | "C03" | "C04" | "C06" | "C15" | "C18" => routes::run(&prop, case),
            "C05" => chain::run_c05(case),
            "C07" => http::run_c07(case),
            "C08" => http::run_c08(case),
            "C09" => chain::run_c09(case),
            "C10" => chain::run_c10(case),
            "C11" => http::run_c11(case, scratch.as_ref().unwrap()),
            "C12" => forms::run_c12(case),
            "C13" => forms::run_c13(case),
            "C14" => forms::run_c14(case),
            "C16" => http::run_c16(case),
            "C17" => chain::run_c17(case),
            "C19" => chain::run_c19(case),
            "C20" => conc::run(case),
            _ => panic!("unknown property"),
        });
        CURRENT.store(std::ptr::null_mut(), SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", e)),
        };
        match r {
            Err(e) if INFRA.iter().any(|x| e.contains(x)) => {
                // the machine, not the code under test: the case says nothing
                eprintln!("inconclusive: {}", e);
                INCONCLUSIVE.fetch_add(1, SeqCst);
                Ok(())
            }
            r => r,
        }
    };

    if let Some(f) = opt("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        match run(&v["case"]) {
            Ok(()) => {
                eprintln!("the case passes");
                drop(scratch);
                std::process::exit(0)
            }
            Err(e) => {
                eprintln!("{}", e);
                drop(scratch);
                std::process::exit(1)
            }
        }
    }

    let start = Instant::now();
    let mut failure: Option<(Value, String)> = None;
    let mut enumerated = 0u64;
    let mut random = 0u64;
    let mut domains: Vec<String> = vec![];
    {
        let mut check = |case: Value| -> bool {
            match run(&case) {
                Ok(()) => true,
                Err(e) => {
                    failure = Some((case, e));
                    false
                }
            }
        };
        let only = args.iter().any(|a| a == "--random-only");
        match prop.as_str() {
            _ if only => {}
            "C01" | "C02" | "C03" | "C04" | "C06" | "C15" => {
                let len = if thorough && prop != "C02" { 3 } else { 2 };
                enumerated += routes::enumerate(&prop, len, &mut |c| start.elapsed().as_secs_f64() < 3.0 * secs + 20.0 && check(c));
                domains.push(format!("all sequences of up to {} registrations on paths of up to 2 segments", len));
            }
            "C05" | "C19" => {
                let n = if thorough { 4 } else { 2 };
                enumerated += chain::enum_chain(n, &mut check);
                domains.push(format!("all chains of up to {} middlewares of 8 kinds with 8 kinds of endpoints", n));
            }
            "C20" => {
                enumerated += conc::enumerate(&mut check);
                domains.push("all 70 interleavings of two requests with four steps each, for 5 pairs of requests".into());
            }
            "C11" => {
                enumerated += http::enum_c11(&mut check);
                domains.push("all request paths of up to 4 segments out of 7 below 3 virtual paths".into());
            }
            _ => {}
        }
    }
    let t1 = Instant::now();
    let mut i = 0u64;
    let mut wire = 0u64;
    while failure.is_none() && (t1.elapsed().as_secs_f64() < secs || i < 20) {
        i += 1;
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let case = match prop.as_str() {
            "C01" | "C02" | "C03" | "C04" | "C06" | "C15" | "C18" => routes::gen(&prop, &mut r),
            "C05" | "C19" => chain::gen_chain(&mut r),
            "C07" => {
                let w = i % 200 == 1 || i < 4;
                wire += w as u64;
                http::gen_c07(&mut r, w)
            }
            "C08" => http::gen_c08(&mut r),
            "C09" => chain::gen_c09(&mut r),
            "C10" => chain::gen_c10(&mut r),
            "C11" => http::gen_c11(&mut r),
            "C12" => forms::gen_c12(&mut r),
            "C13" => forms::gen_c13(&mut r),
            "C14" => forms::gen_c14(&mut r),
            "C16" => http::gen_c16(&mut r),
            "C17" => chain::gen_c17(&mut r),
            "C20" => conc::gen(&mut r),
            _ => panic!("unknown property"),
        };
        random += 1;
        if let Err(e) = run(&case) {
            failure = Some((case, e));
        }
    }
    let fail = failure.map(|(case, _)| {
        // a smaller case must not fail for the reason that it is no case any more
        let panics = matches!(run(&case), Err(e) if e.starts_with("panic: "));
        let small = shrink(&case, &|c| matches!(run(c), Err(e) if panics || !e.starts_with("panic: ")));
        // a case which fails only sometimes is no evidence
        let again: Vec<Result<(), String>> = (0..2).map(|_| run(&small)).collect();
        match again.iter().find_map(|r| r.as_ref().err()) {
            Some(e) => json!({"case": small, "error": e}),
            None => match run(&case) {
                Err(e) => json!({"case": case, "error": e}),
                Ok(()) => Value::Null,
            },
        }
    });
    let unstable = matches!(&fail, Some(Value::Null));
    let out = json!({
        "property": prop, "seed": seed, "enumerated": enumerated, "random": random, "over_the_wire_cases": wire,
        "domains": domains, "failure": fail.clone().unwrap_or(Value::Null), "unstable": unstable,
        "inconclusive": INCONCLUSIVE.load(SeqCst), "seconds": start.elapsed().as_secs_f64(),
    });
    if let Some(f) = opt("--out") {
        std::fs::write(f, serde_json::to_string_pretty(&out).unwrap()).unwrap();
    }
    eprintln!("{}", serde_json::to_string_pretty(&out).unwrap());
    drop(scratch);
    std::process::exit(if matches!(&fail, Some(f) if !f.is_null()) { 1 } else { 0 });
}
