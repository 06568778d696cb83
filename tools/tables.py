#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md: what the checks cost and saw
(from a directory of evidence files of clean runs), and which check catches
which planted bug (from tools/caught.json, written by plant.py --check)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- tables -->\n"


def cell(s):
    return s.replace("|", "\\|").replace("\n", " ")


def main():
    p = os.path.join(V, "DESIGN.md")
    text = open(p).read()
    head = text[:text.index(MARK) + len(MARK)]
    out = ["\n## Cost and events of a quick run\n", "| check | s | cases | distinct | events (largest counts) |", "|---|---|---|---|---|"]
    store = os.path.join(V, "tools", "costs.json")
    costs = json.load(open(store)) if os.path.exists(store) else {}
    for f in sorted(glob.glob(os.path.join(sys.argv[1], "*.json"))) if len(sys.argv) > 1 else []:
        d = json.load(open(f))
        if d["violations"] or d["tier"] != "quick":
            continue
        c = d["coverage"]
        ev = sorted(c["observed_events"].items(), key=lambda x: -x[1])[:5]
        costs[d["property"]] = [round(d["wall_s"]), c["evaluations"], c["distinct_nontrivial"], ", ".join("%s %s" % (k, v) for k, v in ev)]
    json.dump(costs, open(store, "w"), indent=1, sort_keys=True)
    for i in sorted(costs):
        out.append("| %s | %d | %d | %d | %s |" % tuple([i] + costs[i]))
    res = json.load(open(os.path.join(V, "tools", "caught.json")))
    out += ["\n## Planted bugs and the checks that catch them\n", "| bug | check | caught | what it breaks | needs |", "|---|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], {True: "yes", False: "no", None: "not run"}[res.get(i)], cell(m["what_it_breaks"]), cell(m["needs"])))
    open(p, "w").write(head + "\n".join(out) + "\n")


main()
