//! Reader for the contract files (*.vc).
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub tags: String,
    pub ret: String,
    pub attrs: Vec<String>,
    pub spec: Vec<String>,
    pub loops: BTreeMap<usize, Vec<String>>,
    pub loop_body: BTreeMap<usize, Vec<String>>,
    pub loop_after: BTreeMap<usize, Vec<String>>,
    pub loop_end: BTreeMap<usize, Vec<String>>,
    pub closures: BTreeMap<usize, Vec<String>>,
    pub entry: Vec<String>,
    pub tail: Vec<String>,
    /// the tail goes in front of every `return` as well
    pub tail_returns: bool,
    pub awaits: Vec<String>,
    pub exit: Vec<String>,
    pub lets: BTreeMap<String, Vec<String>>,
    pub external: bool,
    pub optional: bool,
    pub src: String,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub prelude: Vec<(String, String)>,
    pub modules: BTreeMap<String, Vec<(String, String)>>,
    pub fns: BTreeMap<String, FnContract>,
    /// ghost members of an `impl` or `trait` block, by its key
    pub members: BTreeMap<String, Vec<String>>,
    /// supertraits of a trait
    pub bounds: BTreeMap<String, String>,
    /// items left out, with the reason
    pub skip: BTreeMap<String, String>,
    pub bitflags_extern: BTreeSet<String>,
    pub type_attrs: BTreeMap<String, Vec<String>>,
    /// functions of this type are not made to appear (kept out) unless they have a contract
    pub only: BTreeSet<String>,
}

pub fn load(dir: &Path) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    load_into(dir, &mut c)?;
    Ok(c)
}

pub fn load_into(dir: &Path, c: &mut Contracts) -> Result<(), String> {
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| format!("{}: {e}", dir.display()))?
        .filter_map(|e| e.ok()).map(|e| e.path())
        .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
    files.sort();
    for f in files { load_file(&f, c)?; }
    Ok(())
}
pub fn load_file(f: &Path, c: &mut Contracts) -> Result<(), String> {
    let text = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
    parse(&text, f.file_name().unwrap().to_str().unwrap(), c)
}

enum Mode { None, Prelude, Module(String), Spec(String), Loop(String, usize), LoopBody(String, usize), LoopAfter(String, usize), LoopEnd(String, usize), Closure(String, usize),
    Entry(String), Tail(String), Await(String), Exit(String), Let(String, String), Member(String) }

fn parse(text: &str, fname: &str, c: &mut Contracts) -> Result<(), String> {
    let mut mode = Mode::None;
    for (n, line) in text.lines().enumerate() {
        let src = format!("{fname}:{}", n + 1);
        if let Some(d) = line.strip_prefix("@@") {
            let d = d.trim();
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim().to_string();
            let cur = match &mode {
                Mode::Spec(k) | Mode::Loop(k, _) | Mode::LoopBody(k, _) | Mode::LoopAfter(k, _) | Mode::LoopEnd(k, _) | Mode::Closure(k, _) | Mode::Entry(k) | Mode::Tail(k) | Mode::Await(k) | Mode::Exit(k) | Mode::Let(k, _) => Some(k.clone()),
                _ => None,
            };
            let need = |cur: Option<String>| cur.ok_or(format!("{src}: no function"));
            mode = match word {
                "prelude" => Mode::Prelude,
                "module" => Mode::Module(rest),
                "fn" => {
                    let e = c.fns.entry(rest.clone()).or_default();
                    if e.src.is_empty() { e.src = src; }
                    Mode::Spec(rest)
                }
                "loop" => Mode::Loop(need(cur)?, rest.parse().map_err(|_| format!("{src}: loop index"))?),
                "loop-body" => Mode::LoopBody(need(cur)?, rest.parse().map_err(|_| format!("{src}: loop index"))?),
                "loop-after" => Mode::LoopAfter(need(cur)?, rest.parse().map_err(|_| format!("{src}: loop index"))?),
                "loop-end" => Mode::LoopEnd(need(cur)?, rest.parse().map_err(|_| format!("{src}: loop index"))?),
                "closure" => Mode::Closure(need(cur)?, rest.parse().map_err(|_| format!("{src}: closure index"))?),
                "entry" => Mode::Entry(need(cur)?),
                "tail" => { let k = need(cur)?; if rest == "returns" { c.fns.get_mut(&k).unwrap().tail_returns = true; } Mode::Tail(k) }
                "await" => Mode::Await(need(cur)?),
                "exit" => Mode::Exit(need(cur)?),
                "let" => Mode::Let(need(cur)?, rest),
                "tags" => { let k = need(cur)?; c.fns.get_mut(&k).unwrap().tags = rest; Mode::Spec(k) }
                "attr" => { let k = need(cur)?; c.fns.get_mut(&k).unwrap().attrs.push(rest); Mode::Spec(k) }
                "ret" => { let k = need(cur)?; c.fns.get_mut(&k).unwrap().ret = rest; Mode::Spec(k) }
                "external" => { let k = need(cur)?; c.fns.get_mut(&k).unwrap().external = true; Mode::Spec(k) }
                "optional" => { let k = need(cur)?; c.fns.get_mut(&k).unwrap().optional = true; Mode::Spec(k) }
                "members" => Mode::Member(rest),
                "bound" => { let (t, b) = rest.split_once(' ').ok_or(format!("{src}: bound"))?; c.bounds.insert(t.into(), b.into()); Mode::None }
                "skip" => { let (t, b) = rest.split_once(" because ").ok_or(format!("{src}: skip K because ..."))?; c.skip.insert(t.trim().into(), b.into()); Mode::None }
                "bitflags" => { c.bitflags_extern.insert(rest); Mode::None }
                "typeattr" => { let (t, b) = rest.split_once(' ').ok_or(format!("{src}: typeattr"))?; c.type_attrs.entry(t.into()).or_default().push(b.into()); Mode::None }
                "end" => Mode::None,
                _ => return Err(format!("{src}: unknown directive {word}")),
            };
            continue;
        }
        if line.trim().is_empty() { continue; }
        let l = line.to_string();
        match &mode {
            Mode::None => if !line.trim_start().starts_with("//") { return Err(format!("{src}: text outside a section")) },
            Mode::Prelude => c.prelude.push((src, l)),
            Mode::Module(m) => c.modules.entry(m.clone()).or_default().push((src, l)),
            Mode::Spec(k) => c.fns.get_mut(k).unwrap().spec.push(l),
            Mode::Loop(k, i) => c.fns.get_mut(k).unwrap().loops.entry(*i).or_default().push(l),
            Mode::LoopBody(k, i) => c.fns.get_mut(k).unwrap().loop_body.entry(*i).or_default().push(l),
            Mode::LoopAfter(k, i) => c.fns.get_mut(k).unwrap().loop_after.entry(*i).or_default().push(l),
            Mode::LoopEnd(k, i) => c.fns.get_mut(k).unwrap().loop_end.entry(*i).or_default().push(l),
            Mode::Closure(k, i) => c.fns.get_mut(k).unwrap().closures.entry(*i).or_default().push(l),
            Mode::Entry(k) => c.fns.get_mut(k).unwrap().entry.push(l),
            Mode::Tail(k) => c.fns.get_mut(k).unwrap().tail.push(l),
            Mode::Exit(k) => c.fns.get_mut(k).unwrap().exit.push(l),
            Mode::Await(k) => c.fns.get_mut(k).unwrap().awaits.push(l),
            Mode::Let(k, n) => c.fns.get_mut(k).unwrap().lets.entry(n.clone()).or_default().push(l),
            Mode::Member(k) => c.members.entry(k.clone()).or_default().push(l),
        }
    }
    Ok(())
}
