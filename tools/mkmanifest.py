#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
fresh = "seeded deterministic simulation of request histories with fault injection; differential oracle: a fresh server per request"
model = "seeded deterministic simulation of request histories with fault injection; oracle: executable reference model of a request"
tech = {
 "C01": fresh, "C03": fresh.replace("request histories", "request and copy histories"), "C05": fresh.replace("fault injection", "panics injected at every kind of callback"),
 "C02": "seeded deterministic simulation of request histories at changing cache thresholds; differential oracle: a server that never caches",
 "C04": "seeded deterministic scheduling of simulated threads at statement granularity, plus happens-before race detection on the scheduled runs; oracle: the same requests served alone",
 "C06": "seeded deterministic simulation with damaged requests (truncation, corruption, duplication, reordering, bad transports) and a statement budget; oracle: well-formed answer and its error list",
 "C07": model, "C08": model.replace("fault injection", "cancellations and deadlines injected at callbacks and between statements"), "C09": model, "C11": model, "C12": model, "C13": model.replace("fault injection", "simulated time and wall clock jumps"), "C16": model,
 "C10": "seeded deterministic simulation of batches and transports with damaged items and failing form lookups; differential oracle: each item sent alone",
 "C14": "seeded deterministic simulation of introspection interleaved with other requests; oracle: consistency of all routes, times and a fresh server",
 "C15": "seeded deterministic simulation of replicas under different seeded map iteration orders; differential oracle between replicas",
 "C17": "seeded deterministic simulation of nesting at and beyond the limit over endless data with a statement budget; oracle: reference model and refusal",
 "C18": "seeded deterministic simulation of long request histories; oracle: plateau of the live heap",
}
trust = "Seeded search, no proof: the guarantee is that none of the drawn runs (counts in the evidence file) violates the property. Trusts the simulator (instrumented build, clock, map order), "
note = {
 "C04": "the single-threaded run as the reference, and Go's race detector. Interleavings are drawn at statement granularity; conflicts within statements are left to the happens-before analysis.",
 "C18": "and the heap size after two collections as the measure of what is remembered.",
}
ref = {"fresh": "and a fresh (or never caching) server's answer as the reference.", "model": "and the reference model in sim/model.go as the meaning of a request."}
checks, na = [], []
reasons = {
 "N01": "A pure function of one Go value: no schedule, time, fault or history to simulate (output values are still read back by every model-checked run of C07-C16).",
 "N02": "A pure function of the query text: no schedule, time, fault or history to simulate (generated texts in many styles are still judged by the model in C07-C16).",
 "N03": "A pure function of the Go types at build time: deciding it needs many schemas, not many executions; C14 decides what depends on history.",
 "N04": "A pure function of the Go types at build time without state, time, I/O or concurrency.",
 "N05": "Pure functions over a built schema, used in tests only; nothing nondeterministic to simulate.",
}
for p in props:
    i = p["id"]
    if i in reasons:
        na.append({"property": i, "reason": reasons[i]})
        continue
    n = note.get(i) or (ref["model"] if "model" in tech[i] else ref["fresh"] if "server" in tech[i] or "alone" in tech[i] else "and the oracle named under technique.")
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough VERIF_SECS=${VERIF_SECS:-600} ./check " + i,
      "evidence_file": f"evidence/{i}.json", "technique": tech[i], "level": "exploration", "level_note": trust + n})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
 "hooks": {"guard": "none in /repo: the instrumentation is an overlay of a build made by /verif/build (go build -overlay)", "enable": "/verif/build /repo OUT writes instrumented copies of /repo's current Go files and builds with them; the shipped sources are untouched", "source_commits": []},
 "notes": "Replay a violation with: ./replay FILE [-v]. known-findings.txt lists what was found and repaired."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
