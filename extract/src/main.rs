//! Mechanical extraction of the real source of /repo into the Verus dialect.
//!
//! usage: extract --contracts DIR --part codec|server --repo /repo --out OUT.rs --map OUT.map
//!
//! Every function body in the output is the token stream of the function in /repo after the
//! rewrites listed in REWRITES below; the specification text around it comes from the contract
//! files.  Nothing is matched against a stored copy of the code.
mod contracts;
mod rewrite;
mod seq;
mod emit;

use std::path::{Path, PathBuf};

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut contracts, mut part, mut out, mut map) =
        (PathBuf::from("/repo"), PathBuf::new(), String::new(), PathBuf::new(), PathBuf::new());
    let mut files: Vec<String> = vec![];
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--repo" => repo = v.into(),
            "--contracts" => contracts = v.into(),
            "--part" => part = v,
            "--out" => out = v.into(),
            "--map" => map = v.into(),
            // development only: the listed source files, the others are left out
            "--files" => files = v.split(',').map(|s| s.to_string()).collect(),
            _ => panic!("unknown argument {a}"),
        }
    }
    match run(&repo, &contracts, &part, &out, &map, &files) {
        Ok(()) => (),
        Err(e) => {
            eprintln!("EXTRACTION-FAILED: {e}");
            std::process::exit(3);
        }
    }
}

fn run(repo: &Path, contracts: &Path, part: &str, out: &Path, map: &Path, only: &[String]) -> Result<(), String> {
    let mut c = contracts::load(&contracts.join("codec"))?;
    // per part of the server library: its source files and the contract files that go with them
    let (server, vcs): (&[&str], &[&str]) = match part {
        "codec" => (&[], &[]),
        "topics" => (&["topics.rs"], &["00_prelude", "09_paths", "10_topics"]),
        "shared" => (&["topics.rs"], &["00_prelude", "09_paths", "11_shared"]),
        "dispatcher" => (&["topics.rs", "dispatcher.rs", "cfg.rs", "config.rs", "error.rs", "packetinfo.rs", "clients/client.rs"],
            &["00_prelude", "05_error", "09_paths", "10_topics", "15_ents", "20_client", "30_dispatcher"]),
        "client" => (&["cfg.rs", "config.rs", "error.rs", "packetinfo.rs", "clients/client.rs", "clients/clientworker.rs", "clients/mqttclient.rs", "clients/noiseclient.rs", "clients/mod.rs"],
            &["00_prelude", "05_error", "08_io", "15_ents", "20_client", "40_clientworker", "50_mqttclient", "60_noiseclient", "70_manager"]),
        "whole" => (&["topics.rs", "dispatcher.rs", "cfg.rs", "config.rs", "error.rs", "packetinfo.rs", "clients/client.rs", "clients/clientworker.rs", "clients/mqttclient.rs", "clients/noiseclient.rs", "clients/mod.rs", "lib.rs"],
            &["00_prelude", "05_error", "08_io", "09_paths", "10_topics", "15_ents", "20_client", "30_dispatcher", "40_clientworker", "50_mqttclient", "60_noiseclient", "70_manager", "80_server"]),
        _ => return Err(format!("unknown part {part}")),
    };
    for v in vcs { contracts::load_file(&contracts.join("server").join(format!("{v}.vc")), &mut c)?; }
    let codec = || -> Result<Vec<PathBuf>, String> {
        let mut v: Vec<PathBuf> = std::fs::read_dir(repo.join("packet/src"))
            .map_err(|e| e.to_string())?
            .filter_map(|e| e.ok())
            .map(|e| e.path())
            .filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false))
            .filter(|p| !matches!(p.file_stem().and_then(|s| s.to_str()), Some("lib") | Some("prelude")))
            .collect();
        v.sort();
        Ok(v)
    };
    let mut srcs: Vec<(bool, PathBuf)> = codec()?.into_iter().map(|p| (false, p)).collect();
    srcs.extend(server.iter().map(|f| (true, repo.join("server-lib/src").join(f))));
    srcs.retain(|(_, s)| only.is_empty() || only.iter().any(|o| s.file_stem().unwrap().to_str() == Some(o)));
    let mut e = emit::Emitter::new(&c);
    e.raw_line("// GENERATED by /verif/extract from the working tree of /repo: do not edit");
    e.prelude();
    let (mut files, mut sfiles) = (Vec::new(), Vec::new());
    for (is_server, s) in &srcs {
        let text = std::fs::read_to_string(s).map_err(|e| format!("{}: {e}", s.display()))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{}: {e}", s.display()))?;
        let module = s.file_stem().unwrap().to_str().unwrap().to_string();
        let path = s.strip_prefix(repo).unwrap().display().to_string();
        if *is_server { sfiles.push((format!("s_{module}"), path, f)); } else { files.push((module, path, f)); }
    }
    let mut sx = seq::SeqCx { shared: part == "shared", ..Default::default() };
    let awaits = c.fns.iter().filter(|(_, f)| !f.awaits.is_empty()).map(|(k, _)| k.clone()).collect();
    let exits = c.fns.iter().filter(|(_, f)| !f.exit.is_empty()).map(|(k, _)| k.clone()).collect();
    seq::prepare(&mut sfiles, &mut sx, &awaits, &exits, &mut e.notes);
    files.extend(sfiles);
    // names needed by the rewrites
    let mut cx = rewrite::Cx::default();
    for (_, _, f) in &files {
        rewrite::collect(&f.items, &mut cx)?;
    }
    for n in &c.bitflags_extern { cx.bitflags.insert(n.clone()); }
    for (module, path, f) in files {
        e.module(&module, &path, f, &cx)?;
    }
    e.finish();
    for (k, f) in &c.fns {
        if !e.used.contains(k) && !f.optional {
            e.notes.push(format!("LOST-FUNCTION {k}"));
        }
    }
    std::fs::write(out, &e.out).map_err(|e| e.to_string())?;
    std::fs::write(map, e.map_text()).map_err(|e| e.to_string())?;
    Ok(())
}
