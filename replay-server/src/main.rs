//! The server under test through its public interface: the subscription table, and clients on the
//! loopback network, plain and encrypted.
#[path = "../../replay/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../replay/src/spec.rs"]
#[allow(dead_code)]
mod spec;
mod net;
mod race;
mod stats;
mod table;
mod wire;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let prop = get("--property", "C12");
    let seconds: f64 = get("--seconds", "10").parse().unwrap();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let out = get("--out", "");
    let only = get("--only", "");
    if a.iter().any(|x| x == "--probe") { return; }
    std::panic::set_hook(Box::new(|i| { if let Ok(mut m) = stats::PANICS.lock() { if m.len() < 4000 { m.push_str(&format!("{i}; ")); } } }));
    let st = Arc::new(stats::Stats::new(&prop));
    let t = Instant::now();
    run(st.clone(), seed, seconds, only);
    let bad = st.report(&out, t.elapsed().as_secs_f64());
    // tasks of a broken server may be stuck
    std::process::exit(if bad { 1 } else { 0 });
}

fn families(p: &str) -> &'static [&'static str] {
    match p {
        "C12" => &["match", "hist"],
        "C13" => &["hist"],
        "C14" => &["deliver", "mixed"],
        "C15" => &["takeover", "mixed"],
        "C16" => &["refuse", "gone"],
        "C17" => &["suback"],
        "C18" => &["connect"],
        "C20" => &["pairs", "many"],
        "C21" => &["registry"],
        "C22" => &["shutdown"],
        _ => &["stream", "sealed"],
    }
}

fn run(st: Arc<stats::Stats>, seed: u64, seconds: f64, only: String) {
    if let Some((f, i)) = only.split_once(':') {
        alone(st, f.to_string(), seed, i.parse().unwrap());
        return;
    }
    let end = Instant::now() + Duration::from_secs_f64(seconds);
    let fams = families(&st.prop);
    let mut tasks = vec![];
    for k in 0..8u64 {
        let st = st.clone();
        tasks.push(std::thread::spawn(move || {
            let mut i = k;
            while Instant::now() < end && !st.done() {
                for f in fams {
                    if *f == "match" && i >= table::MATCH || *f == "pairs" && i >= race::PAIRS { continue; }
                    alone(st.clone(), f.to_string(), seed, i);
                    if Instant::now() >= end || st.done() { break; }
                }
                i += 8;
            }
            if fams.contains(&"match") && i >= table::MATCH { st.exhausted("every filter of up to three levels over {a, b, empty, +, #} against every topic name of up to four levels over {a, b, empty}"); }
            if fams.contains(&"pairs") && i >= race::PAIRS { st.exhausted("the pairs of calls of race.rs: two calls at once after each of the preparations, each interrupted before one of its first acquisitions of a lock"); }
        }));
    }
    for t in tasks { let _ = t.join(); }
}
/// a case with a runtime of its own, whose end closes every socket of the server
fn alone(st: Arc<stats::Stats>, f: String, seed: u64, i: u64) {
    let table = f == "match" || f == "hist" || f == "pairs" || f == "many";
    let rt = if table { tokio::runtime::Builder::new_current_thread().enable_all().build() } else { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build() };
    let Ok(rt) = rt else { return };
    // a lookup has no time limit of its own
    rt.block_on(one(st, f, seed, i));
    rt.shutdown_background();
}

async fn one(st: Arc<stats::Stats>, f: String, seed: u64, i: u64) {
    let case = format!("{f}:{i}");
    let fam = f.bytes().fold(7u64, |a, b| a.wrapping_mul(31) + b as u64);
    let r = gen::Rng::new(seed, fam, i);
    let c = stats::Case { st, name: case };
    match f.as_str() {
        "match" => table::matching(c, i).await,
        "hist" => table::history(c, r).await,
        "pairs" => race::pairs(c, i).await,
        "many" => race::many(c, r).await,
        "deliver" | "mixed" | "refuse" | "gone" | "suback" => net::case(c, &f, r).await,
        "takeover" => net::takeover(c, r).await,
        "sealed" => net::sealed(c, r).await,
        "registry" => net::registry(c, r).await,
        "shutdown" => net::shutdown(c, r).await,
        "connect" => net::connect(c, r).await,
        _ => net::stream(c, r).await,
    }
}
