#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, the registered monitors, KNOWN_FINDINGS.txt and tools/seed_results.json."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "harness"), "/repo"]
os.environ.setdefault("MPLBACKEND", "Agg")
import importlib, core
for m in ("linear", "integer", "formulations", "undirected", "directed", "utilities", "parsers", "unconstrained", "linear_more"):
    importlib.import_module("props." + m)
titles = {}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]
out = []
for pid, t in titles.items():
    P = core.PROPS[pid]
    fl = "; ".join(f"{n} ≥ {k}" for n, k in P.floors)
    out.append(f"**{pid} – {t}.**  {re.sub(r'\s+', ' ', P.rule)}  *Quick: {P.quick} cases"
               + (f" + {len(P.directed)} directed" if P.directed else "") + f", thorough: {P.thorough}; floors: {fl}.*\n")
fixes = [l for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) if l.startswith("fixed:")]
fx = "\n".join("* {} `{}` – {}".format(*re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups()) for l in fixes)
res = json.load(open(os.path.join(ROOT, "tools", "seed_results.json")))
rows = ["| seed | property | needs | caught | first line of the report |", "|---|---|---|---|---|"]
for s in sorted(res):
    meta = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    esc = lambda v: str(v).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {s} | {res[s]['property']} | {esc(meta['needs'])[:110]} | {'yes' if res[s]['caught'] else '**no**'} | {esc(res[s]['first'])[:90]} |")
t = open(os.path.join(ROOT, "tools", "design.md.in")).read()
for k, v in {"PROPERTIES": "\n".join(out), "FIXES": fx, "NFIX": str(len(fixes)), "SEEDS": "\n".join(rows), "NSEED": str(len(res)),
             "NUMERIC": ", ".join(p for p in titles if core.PROPS[p].numeric)}.items():
    t = t.replace("{{" + k + "}}", v)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
