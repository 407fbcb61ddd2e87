#!/usr/bin/env python3
"""plant.py [ID...]: writes /verif/seeded/<id>/ from bugs.py after confirming each bug in a scratch copy:
it compiles, passes the existing tests, and its demonstration fails with it and passes without it."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS, PACKET_HEAD
from bugs_server import BUGS_SERVER, SERVER_HEAD
SEEDED = "/verif/seeded"
WT = "/tmp/plant/repo"
ENV = {**os.environ, "CARGO_TARGET_DIR": "/tmp/plant/target", "CARGO_NET_OFFLINE": "true"}

def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout

DEMO = '''#!/bin/bash
# exit 0: the property holds on what this program tries; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[profile.dev]
debug-assertions = true
overflow-checks = true
[workspace]
E
unset RUSTFLAGS
cd "$d"
CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q
'''
DEPS = {"packet": 'apiformes-packet = { path = "$repo/packet" }\nbytes = "1"',
        "server": 'apiformes-packet = { path = "$repo/packet" }\napiformes-server-lib = { path = "$repo/server-lib", features = ["noise"] }\nbytes = "1"\nsnow = "0.8"\ntokio = { version = "1", features = ["full"] }'}

def fresh():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(WT):
        subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    subprocess.check_call("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -qfd", shell=True, cwd=WT)

def main():
    ids = sys.argv[1:]
    for b in BUGS + BUGS_SERVER:
        if ids and b["id"] not in ids:
            continue
        d = f"{SEEDED}/{b['id']}"
        fresh()
        for f, old, new in b["edits"]:
            p = f"{WT}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT", f, "found", s.count(old), "times"); break
            open(p, "w").write(s.replace(old, new))
        else:
            _, diff = sh("git diff", cwd=WT)
            c, o = sh("cargo test --workspace --offline --locked --no-fail-fast -- --test-threads 8 2>&1", cwd=WT)
            ok = sum(int(x) for x in re.findall(r"(\d+) passed", o)); bad = sum(int(x) for x in re.findall(r"(\d+) failed", o))
            if c != 0 or ok < 73:
                print(b["id"], "TESTS", c, ok, bad, "\n".join(l for l in o.splitlines() if "FAILED" in l or l.startswith("error"))[:1500]); continue
            os.makedirs(d, exist_ok=True)
            open(f"{d}/patch.diff", "w").write(diff)
            kind = b.get("crate", "packet")
            open(f"{d}/demo.rs", "w").write((PACKET_HEAD if kind == "packet" else SERVER_HEAD) + b["demo"])
            open(f"{d}/demo.sh", "w").write(DEMO % DEPS[kind])
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            cb, ob = sh(f"{d}/demo.sh", cwd=WT)
            sh("git reset -q --hard", cwd=WT)
            cg, og = sh(f"{d}/demo.sh", cwd=WT)
            good = cb != 0 and cg == 0 and "error[" not in ob
            print(b["id"], b["property"], "OK" if good else f"DEMO with={cb} without={cg}\n{ob[-800:]}\n---\n{og[-800:]}", "|", (ob.strip().splitlines() or [""])[0][:150] if good else "")
            if not good:
                shutil.rmtree(d)
main()
