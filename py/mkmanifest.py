#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "C01": "runtime monitoring: every byte reaching the writer, online against a reference encoder",
 "C02": "runtime monitoring: decoded value, stream position and read calls, online against a reference decoder",
 "C03": "runtime monitoring: hostile bytes through every decoding route, outcome and error kind against a reference decoder",
 "C04": "runtime monitoring: online call-trace monitor over fuzzed and exhaustively listed coder calls",
 "C05": "runtime monitoring: state snapshots around refused calls, twin continuation, written bytes",
 "C06": "runtime monitoring with injected writer/reader faults and malformed data; broken-state monitor",
 "C07": "runtime monitoring: reported coder state against the model after every call",
 "C08": "runtime monitoring: sessions through recursive schemas against their unfolding",
 "C09": "runtime monitoring: illegal recursion planted at every kind of place; error and blast radius",
 "C10": "runtime monitoring: counting allocator, hostile length claims, subprocess stack probes",
 "C11": "sanitizers: AddressSanitizer, Miri and a checking allocator under random pool operations",
 "C12": "runtime monitoring: round trips of std types and their declared schemas against an independent description",
 "C13": "runtime monitoring: generated derive programs, compiled and run, against their independent description",
 "C14": "runtime monitoring: serde events against schema, oracle decides must/may/must-not conform",
 "C15": "runtime monitoring: the schema of schemas, in bytes and in round trips, against a hand-written copy",
 "C16": "runtime monitoring: exhaustive and boundary encodings of every scalar against reference encodings",
 "C17": "fault injection: every I/O error at every byte position, error identity checked",
 "C18": "runtime monitoring: twin runs with and without the debug log; tag balance checker",
 "C19": "runtime monitoring: parser of the printed schema reads it back and compares",
 "C20": "runtime monitoring: the same bytes through every decoding route, extent and values compared",
 "C21": "runtime monitoring: buffer contents before and after each decode, failed ones included",
 "C22": "runtime monitoring: serde values that conform must be accepted; announced lengths wrong or missing",
 "C23": "runtime monitoring: Value's own judgement against the encoder's",
 "C25": "runtime monitoring: serde types with attributes, round trips against a reference encoding of their serde form",
 "C26": "runtime monitoring: generated programs of macro uses, compiled and run, against the same schemas built by hand",
 "C27": "fault injection: user code failing at every place, error kinds and causes monitored end to end",
 "C28": "runtime monitoring: counting allocator over long streams and reused allocations",
 "C29": "runtime monitoring: messages coded in pieces through many coder objects against one-object runs",
 "C30": "runtime monitoring: generated programs that declare schemas by hand, compiled and run; the stack of parents against a list",
 "C24": "Miri race detector and interleaved/threaded coders against solo runs",
}
NOTE = ("Held on every execution observed; the counts are in the evidence file. The workload is seeded and bounded, so what it did not "
        "execute is not decided. Trusts the reference model in harness/src (written from FORMAT.txt and the documented call rules).")
ready = set(open(os.path.join(V, "py", "ready.txt")).read().split())
checks = []
for p in props:
    i = p["id"]
    if i in ready:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": T[i], "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in ready],
     "notes": "No hooks in /repo: everything is observed through the public API, the writer, the reader, the log and the allocator."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
