"""L19..L21: auxiliary programs, random programs, recorded steps."""
import re
from fractions import Fraction as F

import numpy as np

import gen
from core import Skip, prop, short
from exact import all_bases, basic_solution, canonical, cols, dot, inverse, matvec
from lpio import IntegerProgram, LinearProgram, build, close, num, observe, same_obs, truth, vec
from props.linear import note_lp

NUMBER = r"-?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?"


# -------------------------------------------------------------------- L19
@prop("L19", quick=12000, numeric=True, rule="Programs in standard equality form of every outcome (right-hand sides of every sign, "
      "zero included, dependent rows included): the auxiliary program is compared entry by entry with its definition, "
      "solved by the package and its optimum compared with zero and with the exact feasibility of the program; "
      "programs in other forms have to be refused.  Distinct by the full data.",
      floors=[("auxiliary programs compared", 4950), ("negative right-hand sides", 2500), ("solved: feasible", 2080),
              ("solved: infeasible", 370), ("non-SEF refused", 400)])
def l19(ctx):
    rng = ctx.rng
    if rng.random() < 0.08:
        lp = gen.lp(rng, mmax=4, nmax=5)
        if lp.is_sef:
            raise Skip("already SEF")
        note_lp(ctx, lp)
        ctx.nontrivial = True
        p = build(ctx, lp)
        before = observe(ctx, p)
        ctx.refuse("auxiliary of a non-SEF program", p.auxiliary, kinds=(ArithmeticError,))
        ctx.check(same_obs(before, observe(ctx, p)) is None, "a refused auxiliary() changed the program")
        ctx.count("non-SEF refused")
        return
    lp = gen.sef(rng, mmax=4, nmax=6, independent=rng.random() < 0.7)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    p = build(ctx, lp)
    before = observe(ctx, p)
    args = rng.choice([(), (True,), (False,)])
    q = ctx.must(f"auxiliary{args}", p.auxiliary, *args)
    d = same_obs(before, observe(ctx, p))
    ctx.check(d is None, lambda: f"auxiliary() changed the program: {d}")
    ctx.check(isinstance(q, LinearProgram), lambda: f"auxiliary() gave {short(q)}")
    o = observe(ctx, q)
    m, n = lp.m, lp.n
    ctx.check(o["A"].shape == (m, n + m), lambda: f"auxiliary matrix has shape {o['A'].shape}, expected {(m, n + m)}")
    ctx.check(o["objective"] == "min" and all(t == "=" for t in o["inequalities"]) and not o["free"] and not o["neg"],
              lambda: f"auxiliary program: {o['objective']} {o['inequalities']} free {o['free']} negative {o['neg']}")
    ctx.check(o["z"] == 0, lambda: f"auxiliary program has the constant {o['z']}")
    ctx.check(o["c"].tolist() == [0.0] * n + [1.0] * m, lambda: f"auxiliary costs {o['c'].tolist()}")
    used = []
    for i in range(m):
        row, b = o["A"][i, :n].tolist(), float(lp.b[i])
        want = [float(v) for v in lp.A[i]]
        ok = [s for s in (1, -1) if row == [s * v for v in want] and o["b"][i] == s * b]
        ctx.check(ok and o["b"][i] >= 0, lambda: f"auxiliary row {i + 1} is {row} = {o['b'][i]}, the program has {want} = {b}")
        extra = o["A"][i, n:].tolist()
        ctx.check(sorted(extra) == [0.0] * (m - 1) + [1.0], lambda: f"auxiliary row {i + 1} has extra entries {extra}")
        used.append(extra.index(1.0))
    ctx.check(sorted(used) == list(range(m)), lambda: f"extra variables used in the rows: {used}")
    ctx.count("auxiliary programs compared")
    if any(v < 0 for v in lp.b):
        ctx.count("negative right-hand sides")
    if rng.random() < 0.5:
        t = lp.solve()
        v = ctx.must("auxiliary().optimal_value", q.optimal_value)
        ctx.check(v is not None, "the auxiliary program always has an optimum, none found")
        feasible = t[0] != "infeasible"
        v = num(v, "auxiliary optimum")
        ctx.check((abs(v) <= 1e-7) if feasible else v > 1e-9,
                  lambda: f"the program is {'' if feasible else 'in'}feasible but the auxiliary optimum is {v}")
        ctx.count("solved: " + ("feasible" if feasible else "infeasible"))
    if rng.random() < 0.3:
        q.A[:] = 7.5
        q.b[:] = 7.5
        q.c[:] = 7.5
        d = same_obs(before, observe(ctx, p))
        ctx.check(d is None, lambda: f"writing into the auxiliary program's arrays changed the program: {d}")


# -------------------------------------------------------------------- L20
DRAWS = 60       # a variable that takes each class a third of the time misses one with probability below 1e-10


@prop("L20", quick=1400, rule="Batches of programs drawn by LinearProgram.random with the default and with varied numbers of rows "
      "and columns and magnitudes, positional and by name: shape, range, consistency of the attributes, independence, "
      "and that over a batch every direction, row type, sign class and sign of entry occurs.  Distinct by arguments "
      "and drawn programs.",
      floors=[("programs drawn", 37800), ("classes seen in every batch", 440)])
def l20(ctx):
    rng = ctx.rng
    rows, columns = rng.randint(1, 9), rng.randint(1, 9)
    mag = rng.choice([100, 1, 5, 0.5, 1000, 37.5, 10 ** 6])
    w = rng.choice(["default", "rows", "positional", "names", "magnitude"])
    if w == "default":
        a, kw, rows, columns, mag = (), {}, 4, 6, 100
    elif w == "rows":
        a, kw, columns, mag = (rows,), {}, 6, 100
    elif w == "positional":
        a, kw = (rows, columns, mag), {}
    elif w == "names":
        a, kw = (), {"columns": columns, "rows": rows, "magnitude": mag}
    else:
        a, kw, rows, columns = (), {"magnitude": mag}, 4, 6
    np.random.seed(rng.randrange(2 ** 32))
    import random
    random.seed(rng.randrange(2 ** 32))
    ctx.note(rows=rows, columns=columns, magnitude=mag)
    ctx.nontrivial = True
    batch = []
    for _ in range(DRAWS):
        p = ctx.must(f"LinearProgram.random{a}{kw}", LinearProgram.random, *a, **kw)
        ctx.check(isinstance(p, LinearProgram), lambda: f"random() gave {short(p)}")
        o = observe(ctx, p)
        ctx.check(o["A"].shape == (rows, columns) and o["b"].shape == (rows,) and o["c"].shape == (columns,),
                  lambda: f"asked for {rows} rows and {columns} columns, got shapes {o['A'].shape} {o['b'].shape} {o['c'].shape}")
        top = max(np.abs(o["A"]).max(), np.abs(o["b"]).max(), np.abs(o["c"]).max(), abs(o["z"]))
        ctx.check(top <= mag + 0.0051, lambda: f"magnitude {mag} but an entry of size {top}")
        ctx.check(len(o["inequalities"]) == rows and set(o["inequalities"]) <= {"=", "<=", ">="}, lambda: f"rows {o['inequalities']}")
        ctx.check(o["objective"] in ("max", "min"), lambda: f"objective {o['objective']}")
        ctx.check(sorted(o["free"] + o["neg"] + o["pos"]) == list(range(1, columns + 1)),
                  lambda: f"sign classes {o['free']} {o['neg']} {o['pos']} of {columns} variables")
        ctx.check(o["sef"] == (o["objective"] == "max" and set(o["inequalities"]) == {"="} and not o["free"] and not o["neg"]),
                  lambda: f"is_sef is {o['sef']} for {o['objective']} {o['inequalities']} {o['free']} {o['neg']}")
        batch.append(o)
        ctx.count("programs drawn")
    ctx.sig(rows, columns, mag, batch[0]["A"].tolist())
    for k in ("A", "b", "c"):
        ctx.check(len({o[k].tobytes() for o in batch}) > DRAWS // 2, lambda: f"programs drawn one after another share their {k}")
        v = np.concatenate([o[k].ravel() for o in batch])
        if v.size >= 90:
            ctx.check((v > 0).any() and (v < 0).any(), lambda: f"all entries of {k} have one sign")
            ctx.check(np.abs(v).max() > 0.3 * mag, lambda: f"magnitude {mag} but the largest entry of {k} is {np.abs(v).max()}")
    for j in range(1, columns + 1):
        got = {k for o in batch for k in ("free", "neg", "pos") if j in o[k]}
        ctx.check(len(got) == 3, lambda: f"variable {j} of {columns} was only ever {sorted(got)} in {len(batch)} programs")
    for i in range(rows):
        got = {o["inequalities"][i] for o in batch}
        ctx.check(len(got) == 3, lambda: f"row {i + 1} of {rows} was only ever {sorted(got)} in {len(batch)} programs")
    if rows >= 4 and columns >= 4:
        seen = {"directions": {o["objective"] for o in batch}, "row types": {t for o in batch for t in o["inequalities"]},
                "sign classes": {k for o in batch for k in ("free", "neg", "pos") if o[k]}}
        for k, want in (("directions", 2), ("row types", 3), ("sign classes", 3)):
            ctx.check(len(seen[k]) == want, lambda: f"only the {k} {sorted(seen[k])} occur in {len(batch)} programs")
        for k, mixed in (("row types", any(len(set(o["inequalities"])) > 1 for o in batch)),
                         ("sign classes", any(sum(bool(o[s]) for s in ("free", "neg", "pos")) > 1 for o in batch))):
            ctx.check(mixed, lambda: f"no program among {len(batch)} mixes {k}")
        ctx.count("classes seen in every batch")


# -------------------------------------------------------------------- L21
def numbers(text):
    return [float(t) for t in re.findall(NUMBER, text)]


def shows(ctx, text, want, what, given=False):
    """The numbers in the text are these (8 digits are displayed); given: they were not computed."""
    got = numbers(text)
    want = [float(v) for v in want]
    top = max([abs(v) for v in want], default=0)
    rel, low = (1e-7, 1e-8) if given else (1e-6, 1e-6)
    ctx.check(len(got) == len(want) and all(abs(g - v) <= rel * abs(v) + low + 1e-8 * top for g, v in zip(got, want)),
              lambda: f"{what}: the step reads {text!r}, expected the numbers {want}")
    ctx.count("step texts read")


def displayed(got, v):
    """A number as printed in a program: three decimals, or as many digits when small."""
    return abs(got - v) <= (0.00051 if abs(v) >= 1 else 0.0051 * abs(v)) + 1e-6 + 2e-3 * abs(v) * (abs(v) > 1e10)


def program_matches(text, A, b, c, z):
    """The printed program has these numbers, up to the order of its rows."""
    lines = text.split("\n")
    h = re.fullmatch(r"Max \[(.*)\]x(?: ([+-]) (\S+))?", lines[0])
    if h is None:
        return f"first line {lines[0]!r}"
    cs = [float(t) for t in h.group(1).split()]
    if len(cs) != len(c) or not all(displayed(g, float(v)) for g, v in zip(cs, c)):
        return f"objective {cs}, expected {[float(v) for v in c]}"
    gz = float(h.group(2) + h.group(3)) if h.group(2) else 0.0
    if not displayed(gz, float(z)):
        return f"constant {gz}, expected {float(z)}"
    rows = []
    for l in lines[1:]:
        if l.startswith("["):
            g = re.fullmatch(r"\[(.*)\]x?\s+=\s+\[(.*)\]", l)
            if g is None:
                return f"row {l!r}"
            rows.append([float(t) for t in g.group(1).split()] + [float(g.group(2))])
    if len(rows) != len(A):
        return f"{len(rows)} rows"
    left = [[float(v) for v in r] + [float(t)] for r, t in zip(A, b)]
    for r in rows:
        k = next((i for i, w in enumerate(left) if len(w) == len(r) and all(displayed(g, v) for g, v in zip(r, w))), None)
        if k is None:
            return f"row {r}, expected one of {left}"
        left.pop(k)
    return None


def steps_of(ctx, p, what):
    steps = ctx.must("steps", lambda: list(p.steps))
    for s in steps:
        ctx.check(isinstance(s, dict) and isinstance(s.get("text"), str) and isinstance(s.get("key"), str),
                  lambda: f"{what}: step {short(s)}")
        ctx.check("{}" not in s["text"] and " object at 0x" not in s["text"], lambda: f"{what}: unfinished text {s['text']!r}")
    return steps


def texts(steps, key):
    return [s["text"] for s in steps if s["key"] == key]


@prop("L21", quick=12000, numeric=True, rule="Programs with one recorded operation each: canonical forms (bases in shuffled order), "
      "conversions of minimizations, feasibility and basic-solution questions with every verdict, and simplex runs with "
      "every end.  The recorded texts are parsed and their numbers and verdicts compared with exact linear algebra, "
      "with the exact program for the basis of every iteration, and with what the call returned.  Distinct by data, operation and arguments.",
      floors=[("canonical forms", 640), ("conversions", 640), ("feasible", 340), ("infeasible", 980), ("basic solution", 540),
              ("not a basic solution", 780), ("simplex:optimal", 830), ("simplex:unbounded", 380), ("iterations read", 3210)])
def l21(ctx):
    rng = ctx.rng
    what = rng.choice(["canonical", "sef", "feasible", "feasible", "basic", "basic", "simplex", "simplex"])
    ctx.nontrivial = True
    if what == "sef":
        lp = gen.lp(rng, obj=rng.choice(["min", "min", "max"]), mmax=4, nmax=6)
        note_lp(ctx, lp, what=what)
        if lp.is_sef:
            raise Skip("already SEF")
        p = build(ctx, lp)
        q = ctx.must("to_sef", p.to_sef, in_place=rng.random() < 0.5)
        steps = steps_of(ctx, q, "to_sef")
        ctx.check(steps and "SEF" in steps[0]["text"], lambda: f"to_sef: first step {short(steps[:1])}")
        neg = [s for s in steps if "=>" in s["text"]]
        if lp.obj == "min":
            ctx.check(len(neg) == 1, lambda: f"to_sef of a minimization shows {len(neg)} negations")
            shows(ctx, neg[0]["text"].replace("=>", " "), list(lp.c) + [-v for v in lp.c], "costs before and after", True)
        else:
            ctx.check(not neg, lambda: f"to_sef of a maximization shows {short(neg)}")
        ctx.count("conversions")
        return
    if what == "feasible":
        sef = rng.random() < 0.6
        lp = gen.sef(rng, mmax=3, nmax=5) if sef else gen.lp(rng, mmax=3, nmax=5)
        t = lp.solve()
        x = list(t[2]) if t[0] == "optimal" else list(t[1]) if t[0] == "unbounded" else [F(rng.randint(0, 3)) for _ in range(lp.n)]
        w = rng.choice(["as is", "one", "sign", "random"])
        if w == "one":
            x[rng.randrange(lp.n)] += rng.choice([1, -1, F(1, 2), 5])
        elif w == "sign":
            x[rng.randrange(lp.n)] -= 20
        elif w == "random":
            x = [F(rng.randint(-2, 6)) for _ in range(lp.n)]
        if rng.random() < 0.15:
            x[rng.randrange(lp.n)] += F(rng.randint(1, 40), 2 ** rng.choice([20, 24]))
        x = [F(float(v)) for v in x]
        note_lp(ctx, lp, what=what, x=[str(v) for v in x])
        p = build(ctx, lp)
        got = truth(ctx.must("is_feasible", p.is_feasible, [float(v) for v in x]), "is_feasible")
        steps = steps_of(ctx, p, "is_feasible")
        asked, yes, no = texts(steps, "2.01"), texts(steps, "2.02"), texts(steps, "2.06")
        ctx.check(len(asked) == 1, lambda: f"is_feasible asks {short(asked)}")
        shows(ctx, asked[0], x, "the vector asked about", True)
        said = [s["text"] for s in steps if "is Feasible" in s["text"]], [s["text"] for s in steps if "is Not Feasible" in s["text"]]
        ctx.check(len(said[0]) == int(got), lambda: f"is_feasible answered {got}, the steps say {said}")
        ctx.check(len(said[1]) == int(not got) or not p.is_sef and not said[1], lambda: f"is_feasible answered {got}, the steps say {said}")
        for t in said[0] + said[1]:
            shows(ctx, t, x, "the vector judged", True)
        if lp.is_sef:
            r = [a - v for a, v in zip(matvec(lp.A, x), lp.b)]
            sc = 1 + max(abs(float(v)) for v in list(lp.b) + x)
            for bad, name, mark in ((min([float(v) for v in x]) < -1e-6, "negative entries", "are Negative"),
                                    (max(abs(float(v)) for v in r) > 1e-3 * sc, "rows that fail", "Not Satisfied")):
                clear = bad or (min(x) >= 0 if mark == "are Negative" else max(abs(float(v)) for v in r) < 1e-9)
                if clear:
                    seen = any(mark in s["text"] for s in steps)
                    ctx.check(seen == bad, lambda: f"{name}: {bad}, but the steps are {[s['text'] for s in steps]}")
        ctx.count("feasible" if got else "infeasible")
        return
    lp = gen.sef(rng, mmax=4, nmax=6, kind=rng.choice([None, None, "slack", "degenerate", "unbounded", "bounded"]))
    bases = all_bases(lp.A)
    if what == "canonical":
        B = list(rng.choice(bases))
        rng.shuffle(B)
        note_lp(ctx, lp, what=what, basis=[j + 1 for j in B])
        p = build(ctx, lp)
        q = ctx.must("to_canonical_form", p.to_canonical_form, [j + 1 for j in B], in_place=rng.random() < 0.5)
        steps = steps_of(ctx, q, "to_canonical_form")
        for order in (B, sorted(B)):
            Ab = cols(lp.A, order)
            inv = inverse(Ab)
            cb = [lp.c[j] for j in order]
            y = [dot(cb, [inv[k][i] for k in range(lp.m)]) for i in range(lp.m)]
            want = {"1.02": [v for r in Ab for v in r], "1.03": cb, "1.04": [v for r in inv for v in r], "1.05": y}
            try:
                shows(ctx, (texts(steps, "1.02") + [""])[0], want["1.02"], "columns of the basis", True)
                break
            except Exception:
                if order == sorted(B) or B == sorted(B):
                    raise
        ones = texts(steps, "1.01")
        ctx.check(len(ones) == 1 and sorted(numbers(ones[0])) == sorted(j + 1.0 for j in B), lambda: f"steps name the basis in {ones}, it is {[j + 1 for j in B]}")
        for k, name in (("1.02", "columns"), ("1.03", "costs"), ("1.04", "inverse"), ("1.05", "multipliers")):
            t = texts(steps, k)
            ctx.check(len(t) == 1, lambda: f"{name} of the basis are shown {len(t)} times")
            shows(ctx, t[0], want[k], name + " of the basis", k < "1.04")
        ctx.count("canonical forms")
        return
    if what == "basic":
        B = list(rng.choice(bases))
        rng.shuffle(B)
        x = basic_solution(lp.A, lp.b, B)
        w = rng.choice(["as is", "as is", "outside", "inside", "random"])
        out = [j for j in range(lp.n) if j not in B]
        if w == "outside" and out:
            for j in rng.sample(out, rng.randint(1, len(out))):
                x[j] += rng.choice([1, -1, F(1, 2)])
        elif w == "inside":
            x[rng.choice(B)] += rng.choice([2, -1])
        elif w == "random":
            x = [F(rng.randint(-1, 3)) for _ in range(lp.n)]
        x = [F(float(v)) for v in x]
        note_lp(ctx, lp, what=what, basis=[j + 1 for j in B], x=[str(v) for v in x])
        p = build(ctx, lp)
        got = truth(ctx.must("is_basic_solution", p.is_basic_solution, [float(v) for v in x], [j + 1 for j in B]), "is_basic_solution")
        steps = steps_of(ctx, p, "is_basic_solution")
        asked = texts(steps, "4.01")
        ctx.check(len(asked) == 1, lambda: f"is_basic_solution asks {short(asked)}")
        shows(ctx, asked[0], x, "the vector asked about", True)
        wrong = [int(numbers(t)[0]) for t in texts(steps, "4.02")]
        want = [j + 1 for j in out if x[j] != 0]
        if all(x[j] == 0 or abs(x[j]) > 1e-6 for j in out):
            ctx.check(sorted(wrong) == want, lambda: f"steps name the columns {wrong} as nonzero outside the basis, expected {want}")
        r = [abs(float(a - v)) for a, v in zip(matvec(lp.A, x), lp.b)]
        sc = 1 + max(abs(float(v)) for v in list(lp.b) + x)
        if max(r) < 1e-9 or max(r) > 1e-3 * sc:
            ctx.check(bool(texts(steps, "4.03")) == (max(r) >= 1e-9), lambda: f"steps {[s['text'] for s in steps]} for rows off by {r}")
        yes = [s["text"] for s in steps if "is A Basic Solution" in s["text"]]
        no = [s["text"] for s in steps if "is Not A Basic Solution" in s["text"]]
        ctx.check((len(yes), len(no)) == ((1, 0) if got else (0, 1)), lambda: f"is_basic_solution answered {got}, the steps say {yes + no}")
        t = (yes + no)[0]
        k = t.index("Basic Solution")
        shows(ctx, t[:k], x, "the vector judged", True)
        ctx.check(sorted(numbers(t[k:])) == sorted(j + 1.0 for j in B), lambda: f"step {t!r} for the basis {[j + 1 for j in B]}")
        ctx.count("basic solution" if got else "not a basic solution")
        return
    feas = [B for B in bases if all(v >= 0 for v in basic_solution(lp.A, lp.b, B))]
    if not feas:
        raise Skip("no feasible basis")
    B = list(rng.choice(feas))
    rng.shuffle(B)
    note_lp(ctx, lp, what=what, basis=[j + 1 for j in B])
    p = build(ctx, lp)
    x, basis, cert = ctx.must("simplex", p.simplex, [j + 1 for j in B])
    steps = [s for s in steps_of(ctx, p, "simplex") if s["key"].startswith("5.")]
    # the pivots themselves are read from the single iterations of a twin: which rule chose them is not judged here
    pages, cur, end = [(lp.A, lp.b, lp.c, lp.z)], [j + 1 for j in B], None
    twin = build(ctx, lp)
    for _ in range(300):
        pages.append(canonical(lp.A, lp.b, lp.c, lp.z, sorted(int(j) - 1 for j in cur)))
        sol, cur, _ = ctx.must("simplex_iteration", twin.simplex_iteration, list(cur))
        if sol is not None or cur is None:
            end = "unbounded" if sol is None else "optimal"
            break
    heads = [i for i, s in enumerate(steps) if s["key"] == "5.02"]
    ctx.check([int(numbers(steps[i]["text"])[0]) for i in heads] == list(range(len(heads))),
              lambda: f"iterations are numbered {[steps[i]['text'] for i in heads]}")
    ctx.check(len(heads) == len(pages), lambda: f"{len(heads)} programs are listed, {len(pages) - 1} iterations were needed")
    for k, i in enumerate(heads):
        ctx.check(i + 1 < len(steps) and steps[i + 1]["key"] == "5.01", lambda: f"no program after {steps[i]['text']!r}")
        bad = program_matches(steps[i + 1]["text"], *pages[k])
        ctx.check(bad is None, lambda: f"program of iteration {k}: {bad}\n{steps[i + 1]['text']}")
        ctx.count("iterations read")
    tail = {k: texts(steps, k) for k in ("5.03", "5.04", "5.05", "5.06")}
    if end == "optimal":
        ctx.check([len(tail[k]) for k in ("5.03", "5.04", "5.05", "5.06")] == [1, 1, 0, 1] and x is not None,
                  lambda: f"the run ends with an optimum, the last steps are {tail}")
        shows(ctx, tail["5.03"][0], vec(x, lp.n, "solution"), "solution")
        ctx.check(numbers(tail["5.04"][0]) == [float(v) for v in basis], lambda: f"step {tail['5.04'][0]!r}, returned {basis}")
        shows(ctx, tail["5.06"][0], vec(cert, lp.m, "certificate"), "certificate")
    else:
        ctx.check([len(tail[k]) for k in ("5.03", "5.04", "5.05", "5.06")] == [0, 0, 1, 0] and basis is None,
                  lambda: f"the run ends unbounded, the last steps are {tail}")
    ctx.count("simplex:" + str(end))
