#!/usr/bin/env python3
"""check.sh PID [--replay FILE] [--tier T] [--seed N] [--workers N] [--cases N]
Parent: spawns workers (each with its own hash seed), aggregates, writes evidence, decides.
Worker: runs the cases index = k, k+W, k+2W, ... of the property."""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MODULES = {"L": "props.linear props.linear_more", "I": "props.integer", "F": "props.formulations", "G": "props.undirected",
           "D": "props.directed", "U": "props.utilities", "T": "props.parsers", "N": "props.unconstrained"}
NW = 8


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                parts = dict(t.split("=", 1) for t in line.split()[1:3])
                if parts.get("property") == pid:
                    out[parts["key"]] = line.split(None, 3)[3].strip()
    return out


# ---------------------------------------------------------------- worker
def run_case(core, P, seed, index, shared):
    directed = P.directed or []
    ctx = core.Ctx(core.case_rng(seed, P.pid, index), index, shared)
    if P.step_limit:
        ctx.STEP_LIMIT = P.step_limit
    ctx.directed = directed[index] if index < len(directed) else None
    try:
        P.fn(ctx)
    except core.Skip as e:
        shared["skipped"] += 1
        shared["skip:" + str(e)] += 1
        return ctx, None
    except core.Violation as e:
        if P.numeric and e.key != "alias":
            import conditioning
            if any(conditioning.ill(lp) for lp in ctx.lps):
                shared["not judged: ill-conditioned program"] += 1
                return ctx, None
        return ctx, e
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.realpath(tb[-1].filename).startswith(core.PKG):
            return ctx, core.Violation(f"unexpected {type(e).__name__}: {e} in the code under test")
        if isinstance(e, (MemoryError, OSError, ImportError)):
            raise
        # the monitor could not read what the code under test returned: not a value of the stated shape
        return ctx, core.Violation(f"result of the wrong shape: {type(e).__name__}: {e}\n"
                                   + "".join(traceback.format_tb(e.__traceback__)[-2:]), "shape")
    shared["evaluations"] += 1
    return ctx, None


def worker(a):
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(3000)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import core
    import pytimize
    got = os.path.realpath(os.path.dirname(pytimize.__file__)) + os.sep
    if got != core.PKG:
        raise SystemExit(f"imported {got}, expected {core.PKG}")
    for mod in MODULES[a.pid[0]].split():
        importlib.import_module(mod)
    core.MON.install()
    P = core.PROPS[a.pid]
    shared = core.counters()
    sigs, samples, viols = set(), [], []
    t0 = time.time()
    n = a.cases or (P.thorough if a.tier == "thorough" else P.quick)
    n += len(P.directed or [])
    idx = [a.index] if a.index is not None else range(a.worker, n, a.workers)
    truncated = False
    outcome_keys = collections.Counter()
    for i in idx:
        if a.index is None and time.time() - t0 > a.cap:
            truncated = True
            break
        ctx, v = run_case(core, P, a.seed, i, shared)
        if ctx.nontrivial:
            sigs.add(ctx.signature())
        if v is not None:
            viols.append({"index": i, "message": str(v), "key": v.key, "inputs": ctx.inputs,
                          "calls": ctx.log[-40:]})
            if len({x["key"] for x in viols}) > 6 or len(viols) > 20:
                truncated = True
                break
        elif ctx.nontrivial and len(samples) < 2 and ctx.inputs:
            samples.append({"index": i, "inputs": ctx.inputs})
    json.dump({"shared": dict(shared), "sigs": sorted(sigs), "samples": samples, "violations": viols,
               "truncated": truncated, "planned": len(idx), "lines": sorted(map(list, core.MON.lines)),
               "max_steps": core.MON.max_steps, "total_steps": core.MON.total,
               "rule": P.rule, "floors": list(P.floors), "step_limit": P.step_limit or core.Ctx.STEP_LIMIT,
               "wall": time.time() - t0}, open(a.out, "w"))


# ---------------------------------------------------------------- parent
def spawn(a, w, out, tmp, index=None, hashseed=None):
    env = dict(os.environ)
    env.update(PYTHONPATH=os.environ.get("PYTIMIZE_REPO", "/repo"), MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(tmp, "mpl"), PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONHASHSEED=str(hashseed if hashseed is not None else (a.seed * 1009 + w * 131 + 7) % 4294967295))
    cmd = [sys.executable, os.path.join(HERE, "run.py"), a.pid, "--worker", str(w), "--workers", str(a.workers),
           "--seed", str(a.seed), "--tier", a.tier, "--out", out, "--cap", str(a.cap)]
    if a.cases:
        cmd += ["--cases", str(a.cases)]
    if index is not None:
        cmd += ["--index", str(index)]
    return subprocess.Popen(cmd, env=env, cwd=tmp, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT), env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=NW)
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--index", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.cap is None:
        a.cap = 500 if a.tier == "thorough" else 240
    if a.worker is not None:
        return worker(a)
    t0 = time.time()
    hashseed = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, a.index, a.tier, hashseed = rep["seed"], rep["index"], rep["tier"], rep["hashseed"]
        a.workers = rep.get("workers", a.workers)
    with tempfile.TemporaryDirectory(prefix="pytimize-check-") as tmp:
        os.makedirs(os.path.join(tmp, "mpl"))
        # let matplotlib build its font cache once, not in every worker
        if a.index is not None:
            out = os.path.join(tmp, "w.json")
            procs = [(0, out) + spawn(a, 0, out, tmp, a.index, hashseed)]
        else:
            procs = []
            for w in range(a.workers):
                out = os.path.join(tmp, f"w{w}.json")
                procs.append((w, out) + spawn(a, w, out, tmp))
        deadline = t0 + a.cap * 1.5 + 60
        res, err = [], []
        for w, out, p, env in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "watchdog"
            if rc != 0 or not os.path.exists(out):
                err.append(f"worker {w}: {rc}\n" + open(out + ".log").read()[-3000:])
            else:
                r = json.load(open(out))
                r["hashseed"] = env["PYTHONHASHSEED"]
                r["w"] = w
                res.append(r)
    known = known_findings(a.pid)
    shared = collections.Counter()
    sigs, samples, viols, lines = set(), [], [], set()
    for r in res:
        shared.update(r["shared"])
        sigs.update(r["sigs"])
        samples += r["samples"][:1]
        lines.update(map(tuple, r["lines"]))
        for v in r["violations"]:
            viols.append(dict(v, hashseed=r["hashseed"]))
    viols.sort(key=lambda v: v["index"])
    fresh = [v for v in viols if v["key"] not in known]
    seen = collections.Counter(v["key"] for v in viols if v["key"] in known)
    files = collections.Counter(f for f, _ in lines)
    cov = {"evaluations": shared.pop("evaluations", 0), "distinct_nontrivial": len(sigs),
           "rule": res[0]["rule"] if res else "", "samples": samples[:4] or ["none"],
           "monitor_checks": shared.pop("monitor_checks", 0),
           "calls_observed": shared.pop("calls_observed", 0),
           "observed": {k: shared[k] for k in sorted(shared)},
           "package_lines_reached": {k: files[k] for k in sorted(files)},
           "package_steps_observed": sum(r["total_steps"] for r in res),
           "max_steps_in_one_call": max([r["max_steps"] for r in res], default=0),
           "step_limit_per_call": res[0]["step_limit"] if res else 0,
           "workers": len(res), "hash_seeds": sorted({r["hashseed"] for r in res}),
           "cut_short_by_time_cap": sum(1 for r in res if r["truncated"])}
    ev = {"property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": "exploration", "coverage": cov,
          "assumptions": ["the oracle (exact rational arithmetic or a reference model in /verif/harness) is right",
                          "inputs within the sizes and magnitudes named in the rule"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if a.index is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w"), indent=1)
    for k in sorted(known):
        if seen[k]:
            print(f"KNOWN-FINDING: property={a.pid} {known[k]}")
    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for v in fresh[:3]:
            path = os.path.join(d, f"{a.pid}-{a.seed}-{v['index']}.json")
            if not a.replay:
                json.dump({"property": a.pid, "seed": a.seed, "tier": a.tier, "index": v["index"],
                           "workers": a.workers, "hashseed": v["hashseed"], "message": v["message"], "key": v["key"],
                           "inputs": v["inputs"], "calls": v["calls"],
                           "rerun": f"cd /verif && ./check.sh {a.pid} --replay {path}"},
                          open(path, "w"), indent=1)
            else:
                path = a.replay
            print(f"  {v['message'][:1500]}")
            print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    if err:
        print("INCONCLUSIVE: " + "\n".join(err[:2]))
        return 2
    if a.index is None and not a.cases:
        planned = sum(r["planned"] for r in res)
        # a slow machine stops at the time cap: ask of the part that ran what that part must show
        part = 1 if not cov["cut_short_by_time_cap"] else 0.7 * cov["evaluations"] / max(planned, 1)
        for name, low in (res[0]["floors"] if res else []):
            low = low if part == 1 else int(low * part)
            if cov["observed"].get(name, cov.get(name, 0)) < low:
                print(f"INCONCLUSIVE: {name} observed {cov['observed'].get(name, 0)} < {low}")
                return 2
    print(f"OK {a.pid}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{cov['monitor_checks']} monitor checks, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
