#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property on the current working tree of /repo:
 1. the extractor turns the source into the verifier's dialect and attaches the contracts,
 2. Verus discharges (or not) every obligation of every function,
 3. an oracle runs the real code against an executable specification, to turn a failed obligation
    into a failing input, and as a second opinion when everything is discharged.
"""
import fcntl, hashlib, json, os, re, resource, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
PARTS = {**{f"C{i:02}": "codec" for i in range(1, 12)}, "C12": "topics", "C13": "topics", **{f"C{i:02}": "dispatcher" for i in range(14, 18)}, "C18": "client", "C19": "client", "C20": "shared", "C21": "whole", "C22": "whole"}
# the modules whose obligations are discharged in a part; the contracts of the packet library are
# discharged in the part "codec" and assumed elsewhere
MODULES = {"codec": [], "topics": ["s_topics"], "shared": ["s_topics"], "dispatcher": ["s_topics", "s_dispatcher", "s_client", "s_error", "s_config", "s_packetinfo", "ents"],
           "client": ["s_clientworker", "s_mqttclient", "s_noiseclient", "s_mod", "s_client", "s_error", "s_config", "s_packetinfo", "ents"],
           "whole": ["s_lib", "s_topics", "s_dispatcher", "s_clientworker", "s_mqttclient", "s_noiseclient", "s_mod", "s_client", "s_error", "s_config", "s_packetinfo", "ents"]}
CRATE = {p: "replay" if p == "codec" else "replay-server" for p in MODULES}
FRESH = {p: ["apiformes-packet"] if p == "codec" else ["apiformes-packet", "apiformes-server-lib"] for p in MODULES}
FAILED = ["postcondition not satisfied", "precondition not satisfied", "precondition not met", "assertion failed", "assertion failure", "possible arithmetic underflow/overflow",
          "invariant not satisfied", "loop ensures not satisfied", "decreases not satisfied", "could not prove termination", "possible division by zero", "constructed value may fail to meet its declared type invariant",
          "possible bit shift", "unreachable", "not satisfied", "may fail", "may panic", "failed this", "possible "]
UNDECIDED = ["resource limit", "rlimit", "timed out", "timeout", "solver", "canceled"]

def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def sh(cmd, cwd=None, timeout=600, mem=None, extra_env=None):
    """run to the end, in its own process group; returns (code, stdout, stderr); code None on timeout"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env={**env(), **(extra_env or {})}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e

def build_extractor():
    c, o, e = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=f"{VERIF}/extract")
    if c != 0:
        raise SystemExit(f"the extractor does not build:\n{e[-3000:]}")

def build_oracle(part, fresh=True):
    d = f"{VERIF}/{CRATE[part]}"
    if not os.path.isdir(d):
        return "no oracle"
    if fresh:
        for p in FRESH[part]:
            sh(["cargo", "clean", "--offline", "-q", "-p", p], cwd=d)
    c, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=d)
    if c != 0:
        return "\n".join(l for l in e.splitlines() if l.startswith("error"))[:2000] or e[-2000:]
    return None

# ------------------------------------------------------------------------------------- the verifier
class Map:
    def __init__(self, path):
        self.fns, self.ens, self.notes, self.loops = [], {}, [], 0
        for l in open(path, errors="replace"):
            f = l.rstrip("\n").split("\t")
            if f[0] == "F":
                self.fns.append((int(f[1]), int(f[2]), f[3], f[4], f[5], f[6], [t for t in (f[7] if len(f) > 7 else "").split(",") if t]))
            elif f[0] == "E":
                self.ens[int(f[1])] = [t for t in f[3].split(",") if t]
            elif f[0] == "N":
                self.notes.append("\t".join(f[1:]))
    def at(self, line):
        for f in self.fns:
            if f[0] <= line <= f[1]:
                return f
        return None

def extract(part):
    out, mp = f"{BUILD}/{part}.rs", f"{BUILD}/{part}.map"
    for f in (out, mp):
        if os.path.exists(f):
            os.remove(f)
    c, o, e = sh([f"{VERIF}/extract/target/release/extract", "--repo", REPO, "--contracts", f"{VERIF}/contracts", "--part", part, "--out", out, "--map", mp], timeout=120)
    if c != 0:
        return None, (e.strip().splitlines() or ["the extractor stopped"])[-1]
    return Map(mp), None

def verus(part, timeout, src=None, extra=(), errors=6, without=()):
    """all modules of the codec except `without`, or the modules of the server part"""
    src = src or f"{BUILD}/{part}.rs"
    only = MODULES[part] or [m for m in re.findall(r"^pub mod (\w+)", open(src).read(), re.M) if m not in without]
    only = [x for m in only for x in ("--verify-only-module", m)] + (["--verify-root"] if not MODULES[part] else [])
    cmd = ["verus", "--crate-type=lib", "--multiple-errors", str(errors), "--num-threads", "8", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", *extra, *only, os.path.basename(src)]
    t = time.time()
    c, o, e = sh(cmd, cwd=os.path.dirname(src), timeout=timeout, mem=24 << 30)
    diags = []
    for l in e.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error":
            diags.append(d)
    try:
        res = json.loads(o)
    except ValueError:
        res = None
    return {"cmd": " ".join(cmd), "code": c, "res": res, "diags": diags, "stderr": e, "wall": time.time() - t}

def classify(v, mp):
    """-> (failed obligations [(function, text, tags)], undecided [text], structural [text])"""
    failed, und, struct = [], [], []
    for d in v["diags"]:
        m = d["message"]
        low = m.lower()
        if low.startswith("aborting due to"):
            continue
        lines, here = [], None
        for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
            lines += [(s["line_start"], s["is_primary"], s.get("label") or "", "".join(t["text"] for t in s.get("text", [])[:1]).strip())]
        for c in d.get("children", []):
            for s in c.get("spans", []):
                lines += [(s["line_start"], False, s.get("label") or "", "")]
        tags = []
        for ln, prim, lab, txt in lines:
            if ln in mp.ens:
                tags = mp.ens[ln]
        fn = None
        for ln, prim, lab, txt in lines:
            f = mp.at(ln)
            # the function whose body fails: where the primary span is, unless that is a contract line of a callee
            if f and (fn is None or prim or "at this call" in lab or "at the end of the function body" in lab or "at this exit" in lab):
                fn = f
                if "at this call" in lab or "at the end of the function body" in lab or "at this exit" in lab:
                    break
        name = fn[2] if fn else "?"
        where = f"{fn[3]}:{fn[4]}" if fn else f"generated line {lines[0][0] if lines else '?'}"
        text = f"{m} in {name} ({where}): " + " | ".join(f"{lab + ': ' if lab else ''}{txt}" for _, _, lab, txt in lines if txt)[:400]
        if any(u in low for u in UNDECIDED):
            und.append(text)
        elif any(x in low for x in FAILED) and not d.get("code"):
            # an own obligation of a function that decodes: absence of panics
            if not tags:
                tags = list(fn[6]) if fn else []
                if re.search(r"deserialize|from_bytes", name) and ("precondition" in low or "overflow" in low or "possible" in low or "termination" in low or "decreases" in low) and "C01" not in tags:
                    tags.append("C01")
            failed.append((name, text, tags, d.get("rendered", "")[:3000]))
        else:
            struct.append(text)
    r = v["res"]
    if r is None or r["verification-results"].get("encountered-vir-error") or (v["code"] not in (0, 1)):
        struct.append(f"the verifier ended with {v['code']}" if v["code"] is not None else "the verifier ran out of time")
    return failed, und, struct

def trusted(part):
    """what the generated file assumes, read off the file itself"""
    src = open(f"{BUILD}/{part}.rs").read().splitlines()
    out = []
    for i, l in enumerate(src):
        if re.search(r"external_body|assume_specification|\badmit\(\)|\bassume\(|external_type_specification|external_trait_specification|verifier::external\b|axiom fn", l):
            sig = ""
            for k in range(i, min(i + 5, len(src))):
                m = re.search(r"(?:fn|struct|trait|enum)\s+\w+|assume_specification[^\[]*\[([^\]]*)\]|impl\b[^{]*", src[k])
                if m:
                    sig = m.group(0).strip()
                    break
            kind = re.search(r"external_body|assume_specification|admit\(\)|assume\(|external_type_specification|external_trait_specification|verifier::external|axiom", l).group(0)
            out.append(f"{kind}: {sig[:120]}")
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res

# --------------------------------------------------------------------------------------- the oracle
def oracle(part, prop, seconds, seed, out, only=""):
    d = f"{VERIF}/{CRATE[part]}"
    exe = f"{d}/target/debug/{CRATE[part]}"
    for f in (out, out + ".cur"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--property", prop, "--seconds", str(seconds), "--seed", str(seed), "--out", out] + (["--only", only] if only else [])
    c, o, e = sh(cmd, cwd=d, timeout=seconds * 2 + 120, mem=(10 << 30) if part == "codec" else None)
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = None
    cur = ""
    if os.path.exists(out + ".cur"):
        cur = open(out + ".cur", errors="replace").read().strip()
    if r is None:
        what = "the process ran out of time" if c is None else f"the process died with {c}"
        r = {"property": prop, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "families": {}, "exhausted": [], "other_failures": 0, "other_samples": [], "seconds": seconds,
             "failure": {"case": cur.split(" ")[0] if cur else "", "what": f"{what}: {e[-300:]}", "input": cur, "breaks": prop, "hang": c is None}}
        if not cur:
            r["failure"] = None
            r["error"] = what + ": " + e[-500:]
    r["cmd"] = " ".join(cmd)
    return r

def known(prop):
    res = []
    f = f"{VERIF}/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    part = PARTS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    lock = open(f"{BUILD}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_extractor()
    oerr = build_oracle(part)
    quick = tier == "quick"
    base = (15 if quick else 240) if part == "codec" else (25 if quick else 240)

    holder = {}
    def orun():
        holder["o"] = oracle(part, prop, base, seed, f"{BUILD}/{prop}.json")
    th = threading.Thread(target=orun) if oerr is None else None
    if th:
        th.start()

    mp, xerr = extract(part)
    failed, und, struct, v = [], [], [], None
    if xerr:
        struct.append(f"extraction: {xerr}")
    else:
        # the lemmas of the round trip rest on specifications only and decide C02
        without = ("roundtrip",) if quick and prop != "C02" else ()
        v = verus(part, 330 if quick else 700, without=without)
        failed, und, struct = classify(v, mp)
        if und and not struct:
            # more resources for what ran out of them
            s = open(f"{BUILD}/{part}.rs").read()
            s = re.sub(r"rlimit\((\d+)\)", lambda m: f"rlimit({int(m.group(1)) * 3})", s)
            os.makedirs(f"{BUILD}/retry", exist_ok=True)
            open(f"{BUILD}/retry/{part}.rs", "w").write(s)
            v2 = verus(part, 200 if quick else 900, src=f"{BUILD}/retry/{part}.rs", extra=("--rlimit", "30"), without=without)
            f2, u2, s2 = classify(v2, mp)
            if not s2:
                v, failed, und, struct = v2, f2, u2, s2
    if th:
        th.join()
    orc = holder.get("o")
    notes = mp.notes if mp else []
    mine = [f for f in failed if prop in f[2] or not f[2]]
    proved = v is not None and not failed and not und and not struct
    # the specification no longer lines up with the shape of the code: a failed obligation says nothing
    shifted = bool(notes) or bool(struct) or bool(und)

    # vacuity: with a false lemma in every module, exactly those lemmas fail
    vac = None
    if proved and not quick:
        vac = vacuity(part)

    violation, how = None, ""
    if orc and orc.get("failure"):
        violation, how = "input", ""
    elif not proved and orc is not None:
        longer = oracle(part, prop, (60 if quick else 300) if (mine or shifted) else 5, seed + 1000, f"{BUILD}/{prop}.json")
        for k in ("evaluations", "distinct_nontrivial"):
            longer[k] += orc.get(k, 0)
        if longer.get("failure"):
            violation = "input"
        orc = longer
    if violation is None and mine and not shifted:
        violation, how = "proof", " no-failing-input-found"
    if vac and vac.get("bad"):
        # a contradiction among the assumptions: what was accepted was accepted for nothing
        proved = False
        struct.append(f"the contracts are inconsistent: {vac['bad']}")

    # ------------------------------------------------------------------------------------ evidence
    ob = disc = 0
    if v and v["res"]:
        r = v["res"]["verification-results"]
        ob, disc = r.get("verified", 0) + r.get("errors", 0), r.get("verified", 0)
    tagged = [f for f in (mp.fns if mp else []) if prop in f[6]]
    mine_f = [f for f in (mp.fns if mp else []) if part == "codec" or f[3].startswith("server-lib")]
    under = [f[2] for f in mine_f if f[5] == "contract"]
    ext = [f[2] for f in mine_f if f[5] == "external"]
    smt = (v["res"] or {}).get("times-ms", {}).get("smt", {}) if v and v["res"] else {}
    per = []
    if smt:
        fb = [x for m in smt.get("smt-run-module-times", []) for x in m.get("function-breakdown", [])]
        per = sorted(fb, key=lambda x: -x.get("time-micros", 0))[:8]
    assumptions = []
    if os.path.exists(f"{VERIF}/assumptions.json"):
        a = json.load(open(f"{VERIF}/assumptions.json"))
        assumptions = a.get("all", []) + ([] if part in ("codec", "shared") else a.get("server", [])) + (a["dispatcher"] + a["client"] if part == "whole" else a.get(part, [])) + a.get(prop, [])
    cov = {
        "obligations": ob, "discharged": disc,
        "checker_cmd": v["cmd"] if v else "",
        "trusted_base": (["Verus 0.2026.09.13 with Z3 and vstd", "rustc front end", "/verif/extract: the rewrites listed in DESIGN.md"] + trusted(part)) if mp else [],
        "back_end": "Verus -> Z3 (SMT)",
        "functions_under_contract": len(under), "functions_of_this_property": [f[2] for f in tagged], "functions_external": ext, "contract_lines_of_this_property": sum(1 for t in (mp.ens.values() if mp else []) if prop in t),
        "solver_ms": smt.get("smt-run", 0), "slowest": [{"function": x["function"], "ms": x["time-micros"] // 1000} for x in per],
        "verifier_wall_s": round(v["wall"], 1) if v else 0,
        "failed_obligations": [f[1] for f in failed][:20], "undecided": und[:10], "structure": (notes + struct)[:20],
        "evaluations": (orc or {}).get("evaluations", 0), "distinct_nontrivial": (orc or {}).get("distinct_nontrivial", 0),
        "rule": "the second opinion: " + RULE["codec" if part == "codec" else "server"], "samples": (orc or {}).get("samples", []) or ["none"],
        "families": (orc or {}).get("families", {}), "enumerated_completely": (orc or {}).get("exhausted", []), "oracle_cmd": (orc or {}).get("cmd", ""),
    }
    if vac:
        cov["vacuity"] = vac
    if oerr:
        cov["oracle_error"] = oerr
    decided = proved or violation
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if (proved or (v and not struct and not und)) else "exploration", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    if not proved:
        ev["coverage"]["explanation"] = ("NOT PROVED on this tree: " + ("the source has a shape the contracts do not fit (see structure, undecided); " if shifted else "") +
                                         "what stands in is the bounded run of the real code against the executable specification" if not violation else "violated")
    json.dump(ev, open(f"{EVID}/{prop}.json", "w"), indent=1, ensure_ascii=False)

    for kid, text in known(prop):
        if kid in probe(part):
            print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"{prop} {tier}: {disc} of {ob} obligations discharged, {len(under)} functions under contract, {len(tagged)} carry this property; {cov['evaluations']} cases of the real code; {ev['wall_s']} s")
    for n in (notes + struct + und)[:8]:
        print("  structure: " + n[:300])
    for f in failed[:6]:
        print("  not discharged: " + f[1][:300])
    if oerr:
        print("  the oracle does not build: " + oerr[:300])
    if violation:
        path = f"{EVID}/{prop}.violation.txt"
        with open(path, "w") as w:
            w.write(f"property {prop}\n")
            if violation == "input":
                f = orc["failure"]
                w.write(f"the real code fails on case {f['case']} (breaks {f['breaks']})\n{f['what']}\ninput: {f['input']}\nreplay: {orc['cmd']} --only {f['case']}\n")
            for f in failed:
                w.write(f"\nfailed obligation: {f[1]}\nproperties: {', '.join(f[2])}\n{f[3]}\n")
        if violation == "input":
            print("  failing input: " + orc["failure"]["what"][:300].replace("\n", " ") + " on " + orc["failure"]["input"][:300])
        print(f"VIOLATION property={prop} replay={path}{how}")
        sys.exit(1)
    sys.exit(0)

RULE = {"codec": "packets, byte sequences and call histories enumerated and drawn at random (families), each run through the real code and the executable specification; non-trivial: a case that gets past the header or has more than one call",
        "server": "histories of clients, subscriptions, packets and stream cuts drawn at random, each run against the real server and the executable specification; non-trivial: a case with at least one delivery or answer"}
_probe = {}
def probe(part):
    if part not in _probe:
        exe = f"{VERIF}/{CRATE[part]}/target/debug/{CRATE[part]}"
        c, o, e = sh([exe, "--probe"], timeout=60)
        _probe[part] = o.split()
    return _probe[part]

def vacuity(part):
    """contradictory axioms, preconditions or invariants would prove anything: a false assertion at the start of
    every function under contract and of every loop body has to be refused, each of them"""
    d = f"{BUILD}/vac"
    os.makedirs(d, exist_ok=True)
    out, mpf = f"{d}/{part}.rs", f"{d}/{part}.map"
    c, o, e = sh([f"{VERIF}/extract/target/release/extract", "--repo", REPO, "--contracts", f"{VERIF}/contracts", "--part", part, "--out", out, "--map", mpf], timeout=120, extra_env={"VCANARY": "1"})
    if c != 0:
        return {"bad": "extraction"}
    mp = Map(mpf)
    want = {l for l, t in mp.ens.items() if t == ["VACUITY"]}
    if MODULES[part]:
        inside, cur = {}, ""
        for i, l in enumerate(open(out), 1):
            m = re.match(r"pub mod (\w+)", l)
            cur = m.group(1) if m else cur
            inside[i] = cur
        want = {l for l in want if inside.get(l) in MODULES[part]}
    v = verus(part, 1500, src=out, errors=40)
    if not (v["res"] or {}).get("verification-results") or v["res"]["verification-results"].get("encountered-vir-error"):
        return {"bad": "the verifier did not run: " + v["stderr"][-500:]}
    hit, gave_up = set(), set()
    for x in v["diags"]:
        ls = [s["line_start"] for s in x["spans"]]
        if "assertion failed" in x["message"]:
            hit |= {l for l in ls if l in want}
        elif "resource limit" in x["message"].lower() or "rlimit" in x["message"].lower():
            gave_up |= {mp.at(l)[2] for l in ls if mp.at(l)}
    acc = [l for l in want - hit if (mp.at(l) or ["", "", "?"])[2] not in gave_up]
    return {"false_assertions_planted": len(want), "refused": len(hit), "solver_gave_up": len(want) - len(hit) - len(acc), "accepted": [(mp.at(l) or ["", "", "?"])[2] for l in acc], "bad": bool(acc) or not want}

if __name__ == "__main__":
    if sys.argv[1] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        build_extractor()
        for p in ("codec", "topics"):
            e = build_oracle(p, fresh=False)
            if e:
                print(p, e)
        sys.exit(0)
    main()
