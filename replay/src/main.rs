mod gen;
mod real;
mod spec;
mod checks;
use std::io::Write;
use std::sync::{Mutex, atomic::{AtomicU64, Ordering}};

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static CURFILE: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub static BEAT: AtomicU64 = AtomicU64::new(0);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let prop = get("--property", "C01");
    let seconds: f64 = get("--seconds", "10").parse().unwrap();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let out = get("--out", "");
    let only = get("--only", "");
    if !out.is_empty() { *CURFILE.lock().unwrap() = std::fs::File::create(format!("{out}.cur")).ok(); }
    if a.iter().any(|x| x == "--probe") { checks::probe(); return; }
    std::panic::set_hook(Box::new(|i| { if let Ok(mut m) = checks::PANIC.lock() { *m = i.to_string(); } }));
    // a case that does not end is a failing case
    {
        let (prop, out) = (prop.clone(), out.clone());
        std::thread::spawn(move || {
            let mut last = (0, std::time::Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let b = BEAT.load(Ordering::SeqCst);
                if b != last.0 { last = (b, std::time::Instant::now()); }
                if b != 0 && last.1.elapsed().as_secs() >= 20 {
                    let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                    let mut st = checks::Stats::new(&prop);
                    st.fail("C01", "decoding does not end", &c);
                    st.report(&out, last.1.elapsed().as_secs_f64(), true);
                    std::process::exit(1);
                }
            }
        });
    }
    let t = std::time::Instant::now();
    let mut st = checks::Stats::new(&prop);
    checks::run(&mut st, seed, seconds, &only);
    let bad = st.report(&out, t.elapsed().as_secs_f64(), false);
    std::io::stdout().flush().unwrap();
    std::process::exit(if bad { 1 } else { 0 });
}
