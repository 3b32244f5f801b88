#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.py, the last evidence, the seeded changes and the list of repairs."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from design_text import TEXT
from design_parts import HEAD, TAIL
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
costs_file = os.path.join(root, "tools", "costs.json")
costs = json.load(open(costs_file)) if os.path.exists(costs_file) else {}
for p in props:
    f = os.path.join(root, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        if e["violations"] == 0 and e["tier"] == "quick":
            c = e["coverage"]
            costs[p["id"]] = {
                "wall": round(e["wall_s"]),
                "rule": c["rule"],
                "assumptions": e["assumptions"],
                "suites": {s: [v["evaluations"], v["distinct_nontrivial"], v["oracle_comparisons"]] for s, v in c["suites"].items()},
            }
json.dump(costs, open(costs_file, "w"), indent=1, sort_keys=True)
out = [HEAD.strip(), "\n## Properties\n"]
for p in props:
    i = p["id"]
    gen, oracle, beyond = TEXT[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* Generated: {gen}\n* Oracle: {oracle}\n* Beyond the tests: {beyond}")
    if i in costs:
        c = costs[i]
        s = "; ".join(f"`{n}` {a} cases, {b} distinct non-trivial, {k} comparisons" for n, (a, b, k) in c["suites"].items())
        out.append(f"* Quick tier: {s}; about {c['wall']} s with 8 threads.")
        out.append(f"* Non-trivial: {c['rule']}.".replace("..", "."))
        if c["assumptions"]:
            out.append("* Bounds and tolerances: " + "; ".join(c["assumptions"]) + ".")
    out.append("")
out.append("## Seeded changes\n")
out.append("Each is kept in `seeded/<id>/` and passes the stable tests. \"Caught by\" lists checks that were run against it and reported it (exit 1).\n")
res = json.load(open(os.path.join(root, "tools", "seeded_results.json")))
out.append("| change | property | what it breaks | needs | caught by | not caught by |\n|---|---|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    r = res.get(d, {})
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(r.get('caught', [])) or '-'} | {', '.join(r.get('missed', [])) or '-'} |")
k = json.load(open(os.path.join(root, "known_findings.json")))
out.append("\n## Findings\n")
out.append(f"The checks found {len(k['fixed'])} defects that have been repaired in /repo (`fix:` commits):\n")
for f in k["fixed"]:
    out.append("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1, `\2`: ", f))
if k["findings"]:
    out.append("\nRecorded, not repaired:\n")
    for f in k["findings"]:
        out.append(f"* {f['property']}: {f['what']}")
else:
    out.append("\nThere are no recorded findings that were not repaired.")
out.append("\n" + TAIL.strip() + "\n")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
