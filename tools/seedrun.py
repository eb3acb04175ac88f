#!/usr/bin/env python3
"""Development tool, not a check: runs each seeded bug's own property check (and, with --all, every check) against a
scratch worktree with the bug applied; records the outcome in tools/seed_results.json.
usage: seedrun.py [SEED...]"""
import json, os, re, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "tools", "seed_results.json")
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for s in ids:
    d = os.path.join(ROOT, "seeded", s)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    with tempfile.TemporaryDirectory(prefix="pytimize-seed-") as tmp:
        wt = os.path.join(tmp, "wt")
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
        try:
            subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], check=True)
            ev = os.path.join(ROOT, "evidence", pid + ".json")
            keep = open(ev).read() if os.path.exists(ev) else None
            r = subprocess.run([os.path.join(ROOT, "check.sh"), pid], env=dict(os.environ, PYTIMIZE_REPO=wt, VERIF_SEED="1"),
                               capture_output=True, text=True)
            if keep is not None:
                open(ev, "w").write(keep)
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    hit = r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout
    first = next((l.strip() for l in r.stdout.splitlines() if l.strip()), "")
    res[s] = {"property": pid, "caught": hit, "rc": r.returncode, "first": re.sub(r"\s+", " ", first)[:150] if hit else first[:150]}
    print(s, pid, "caught" if hit else f"MISSED rc={r.returncode}", flush=True)
    res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(ROOT, "seeded", k))}
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
