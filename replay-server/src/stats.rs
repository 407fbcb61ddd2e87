use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub static PANICS: Mutex<String> = Mutex::new(String::new());

#[derive(Default)]
struct In { evals: u64, nontrivial: u64, fams: BTreeMap<String, u64>, samples: Vec<String>, failure: Option<(String, String, String, String)>, others: u64, other_samples: Vec<String>, exhausted: Vec<String>, infra: u64 }
pub struct Stats { pub prop: String, m: Mutex<In> }
pub struct Case { pub st: Arc<Stats>, pub name: String }

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn short(s: &str) -> String { if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s.into() } }
impl Stats {
    pub fn new(p: &str) -> Stats { Stats { prop: p.into(), m: Mutex::default() } }
    pub fn done(&self) -> bool { self.m.lock().unwrap().failure.is_some() }
    pub fn exhausted(&self, s: &str) { let mut m = self.m.lock().unwrap(); if !m.exhausted.iter().any(|x| x == s) { m.exhausted.push(s.into()); } }
    pub fn report(&self, out: &str, secs: f64) -> bool {
        let m = self.m.lock().unwrap();
        let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
        let fams = m.fams.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
        let f = match &m.failure { Some((c, w, i, l)) => format!("{{\"case\": {}, \"what\": {}, \"input\": {}, \"breaks\": {}, \"hang\": false}}", esc(c), esc(w), esc(i), esc(l)), None => "null".into() };
        let s = format!("{{\"property\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"families\": {{{}}}, \"exhausted\": [{}], \"samples\": [{}], \"seconds\": {:.2}, \"other_failures\": {}, \"other_samples\": [{}], \"not_run\": {}, \"failure\": {}}}\n",
            esc(&self.prop), m.evals, m.nontrivial, fams, list(&m.exhausted), list(&m.samples), secs, m.others, list(&m.other_samples), m.infra, f);
        if out.is_empty() { print!("{s}"); } else { std::fs::write(out, &s).unwrap(); }
        m.failure.is_some()
    }
}
impl Case {
    /// `labels`: the properties this difference breaks
    pub fn fail(&self, labels: &str, what: &str, input: &str) {
        let p = PANICS.lock().map(|p| p.clone()).unwrap_or_default();
        let what = if p.is_empty() { what.to_string() } else { format!("{what} [panics so far: {p}]") };
        let mut m = self.st.m.lock().unwrap();
        if labels.split(' ').any(|l| l == self.st.prop) {
            if m.failure.is_none() { m.failure = Some((self.name.clone(), short(&what), short(input), labels.into())); }
        } else {
            m.others += 1;
            if m.other_samples.len() < 3 { m.other_samples.push(format!("[{labels}] {} {}", self.name, short(&what))); }
        }
    }
    pub fn hit(&self, nontrivial: bool, sample: impl FnOnce() -> String) {
        let mut m = self.st.m.lock().unwrap();
        m.evals += 1;
        if nontrivial { m.nontrivial += 1; if m.samples.len() < 6 { let s = sample(); if s.len() < 500 { m.samples.push(s); } } }
        *m.fams.entry(self.name.split(':').next().unwrap().to_string()).or_insert(0) += 1;
    }
    /// the environment did not let the case run
    pub fn infra(&self) { self.st.m.lock().unwrap().infra += 1; }
}
