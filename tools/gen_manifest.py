#!/usr/bin/env python3
"""writes MANIFEST.json: one entry per claimed property"""
import json
P = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
CODEC = "Verus discharges every obligation generated from the current packet/src on each run (all inputs, all iterations, no bound). Assumes the stated contracts of bytes::Buf/BufMut/Bytes, HashMap, str and Arc primitives; the extractor's rewrites; Verus/Z3. A real-code oracle runs beside it and supplies the failing input."
SERVER = "Verus discharges every obligation generated from the current server-lib/src functions on each run, read sequentially: what the code shares with other tasks (locks, atomics, Arc) is assumed not to change while one call runs; async functions are read as running to completion. The codec contracts used here are discharged by the C01-C11 checks. Assumes the stated contracts of HashMap/HashSet/str/Arc; the extractor's rewrites; Verus/Z3. A real-code oracle runs beside it and supplies the failing input."
claimed = {f"C{i:02}": CODEC for i in range(1, 12)}
claimed.update({p: SERVER for p in ("C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21")})
claimed["C22"] = SERVER + " What is discharged per task: it gives the notice on as often as it takes it, every one of its waits is beside the notice (or, for the registry and for MqttServer::shutdown, begins after the notice was given and is for the end of tasks), and all tasks hold the notice that MqttServer::shutdown gives. That tasks then end is concluded from this, from what tokio documents about Notify and from fair scheduling; that last step is an argument in DESIGN.md and no machine-checked proof."
claimed["C20"] = "Verus discharges every obligation generated from the current server-lib/src/topics.rs on each run, in a reading in which locks stay: between two critical sections of a call any other task may act within the stated rely condition. What is discharged: every section keeps to that condition itself; a call has exactly the section it needs at the place of its filter and none elsewhere; tree and index are changed in the order that loses nothing; a lookup merges what it saw at every matching place. That this makes each call take effect at one moment is the rely-guarantee argument, on paper; deadlock and dropped futures are not covered. An oracle that schedules the real code lock by lock runs beside it and supplies the failing schedule."
NA = {
}
checks = []
for p, note in sorted(claimed.items()):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": "contract-based deductive verification of the extracted real code (Verus/Z3)", "level": "proof", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA.items() if p not in claimed]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
