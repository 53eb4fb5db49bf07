#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md: tools/design_head.md + one section per property (prose below,
scene table from tools/counts.json) + tools/design_tail.md.   `design.py collect DIR` fills counts.json from
evidence files named <id>.<tier>.json in DIR."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
CJ = os.path.join(T, "counts.json")
counts = json.load(open(CJ)) if os.path.exists(CJ) else {}
if len(sys.argv) > 2 and sys.argv[1] == "collect":
    for f in os.listdir(sys.argv[2]):
        m = re.fullmatch(r"(C\d\d)\.(quick|thorough)\.json", f)
        if not m: continue
        e = json.load(open(os.path.join(sys.argv[2], f)))
        counts.setdefault(m[1], {})[m[2]] = [[s["name"], s["executions"], s["transitions"], s["states"], s["max_choice_depth"],
                                             bool(s["exhausted"]), round(s["wall_s"], 1)] for s in e["coverage"]["scenes"]]
    json.dump(counts, open(CJ, "w"), indent=0, sort_keys=True)

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
scene_doc = {}
for f in sorted(os.listdir(os.path.join(ROOT, "mc/src/props"))):
    s = open(os.path.join(ROOT, "mc/src/props", f)).read()
    docs = {}
    for m in re.finditer(r"((?:^///[^\n]*\n)+)(?:pub )?fn (c\d\d\w*)", s, re.M):
        docs[m[2]] = " ".join(x.strip("/ ") for x in m[1].strip().split("\n"))
    for m in re.finditer(r'id: "(C\d\d)",\s*scenes: &\[(.*?)\n?\s*\],', s, re.S):
        for n in re.finditer(r'name: "([^"]+)", body: (\w+)', m[2]):
            scene_doc[(m[1], n[1])] = docs.get(n[2], "")

ORACLE = {}
exec(open(os.path.join(T, "design_text.py")).read())

out = [open(os.path.join(T, "design_head.md")).read().rstrip() + "\n"]
out.append("## The properties\n")
for p in props:
    i = p["id"]
    o = ORACLE[i]
    out.append(f"### {i} – {p['title']}\n")
    out.append(f"*Enumerated.* {o['enum']}\n")
    out.append(f"*Oracle.* {o['oracle']}\n")
    out.append(f"*Bounds, and what is left open.* {o['bounds']}\n")
    out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}\n")
    c = counts.get(i)
    if c:
        q = {x[0]: x for x in c.get("quick", [])}
        t = {x[0]: x for x in c.get("thorough", [])}
        out.append("| scene | executions quick | transitions quick | executions thorough | transitions thorough | depth | |\n|---|--:|--:|--:|--:|--:|---|")
        g = lambda d, n, k: f"{d[n][k]:,}" if n in d else "–"
        for n in list(q) + [x for x in t if x not in q]:
            dep = t.get(n, q.get(n))[4]
            note = scene_doc.get((i, n), "")
            if n in t and not t[n][5]: note += " (thorough: stopped by its time cap, not exhausted)"
            out.append(f"| {n} | {g(q,n,1)} | {g(q,n,2)} | {g(t,n,1)} | {g(t,n,2)} | {dep} | {note} |")
        qs, ts = sum(x[6] for x in q.values()), sum(x[6] for x in t.values())
        out.append(f"\nCost: about {max(1, round(qs))} s quick, {max(1, round(ts))} s thorough (8 cores, harness built).\n")
tail = open(os.path.join(T, "design_tail.md")).read()
rows = ["| planted bug | property | needs | what it breaks |", "|---|---|---|---|"]
missed = set(open(os.path.join(T, "first_missed.txt")).read().split())
for n in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", n, "meta.json")))
    rows.append(f"| {n}{' †' if n in missed else ''} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
tail = tail.replace("@SEEDS@", "\n".join(rows))
for k, f in (("@MUT@", "design_mut.md"), ("@REFAC@", "design_refac.md")):
    f = os.path.join(T, f)
    tail = tail.replace(k, open(f).read().strip() if os.path.exists(f) else "")
out.append(tail)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
