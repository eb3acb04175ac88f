"""L01..L18: linear programs."""
import copy as _copy
import math
import re
from fractions import Fraction as F

import numpy as np

import gen
from core import Skip, Violation, prop, short
from exact import (LP, all_bases, basic_solution, bland_step, canonical, cols, dot, feasible_tol, fr, inverse,
                   is_basis, matvec, rank, rref, vecmat)
from lpio import (LinearProgram, IntegerProgram, args_of, build, close, expected_obs, lp_of_obs, num, observe,
                  rounded_lp_of_obs, same_obs, snap, truth, vec)

TOL = 1e-6


def show(lp):
    return lp.show()


def steps_kw(ctx):
    """Random use of the show_steps argument."""
    return ctx.rng.choice([{}, {"show_steps": True}, {"show_steps": False}, {"show_steps": False}])


def scale_of(lp, x):
    return sum(abs(float(a) * float(t)) for a, t in zip(lp.c, x)) + abs(float(lp.z))


def note_lp(ctx, lp, **kw):
    ctx.lps = [lp]
    ctx.note(program=str(lp.show()), **kw)
    ctx.sig(lp.key(), tuple(sorted((k, repr(v)) for k, v in kw.items())))


# -------------------------------------------------------------------- L01
def _d(A, b, c, z=0, obj="max", ineq=None, free=(), neg=()):
    return LP(A, b, c, z, obj, ineq, set(i - 1 for i in free), set(i - 1 for i in neg))


H = F(1, 2)
DIRECTED_LP = [
    _d([[1, 0], [1, 0]], [100000, F(999999, 10)], [1, 0], 0, "max", ["<=", "<="]),
    _d([[1, 1], [2, 2]], [2, 4], [1, 0]),
    _d([[1, 1], [2, 2]], [2, 5], [1, 0]),
    _d([[0, 0], [1, 1]], [0, 3], [1, 2]),
    _d([[1, -1, 0], [0, 1, -1], [1, 0, -1]], [1, 1, 2], [-1, -1, -2]),
    _d([[1]], [5], [1], 0, "max", ["<="], [1]),
    _d([[0, 0]], [0], [1, -1]), _d([[0, 0]], [0], [-1, -1], 3), _d([[0]], [0], [0], 2, "min", None, [1]),
    _d([[0, 0], [0, 0]], [0, 0], [1, 1], 4, "min"), _d([[0, 0]], [1], [-1, -1]), _d([[0]], [0], [2], 1, "max", None, [], [1]),
    _d([[0, 0]], [0], [0, 1], 0, "min", ["<="], [2]), _d([[0, 0], [1, 0]], [0, 2], [1, -1], 0, "max", ["=", "="]),
    _d([[1]], [5], [1], 3, "min", [">="], [1]),
    _d([[1]], [-5], [1], 0, "max", ["<="], [], [1]),
    _d([[1]], [-5], [1], 0, "min", [">="], [], [1]),
    _d([[1]], [5], [1], 0, "max", [">="]),
    _d([[1]], [-1], [1], 0, "max", ["<="]),
    _d([[1, 1], [1, -1]], [4, 2], [3, 2], 7, "max", ["<=", "="], [1, 2]),
    _d([[1, 1, 1], [1, -1, 0]], [-4, -2], [3, 2, 5], 7, "min", [">=", "="], [1], [2, 3]),
    _d([[2, 1, -1, 3]], [0], [1, -1, 2, 0], 0, "min", ["="], [1, 3], [2]),
    _d([[1, 0, 2, 0, 0], [0, 1, 0, 1, -1]], [3, -2], [1, 2, 3, 4, 5], 1, "min", ["<=", ">="], [1, 3, 5], [2, 4]),
    _d([[F(1, 4), -60, F(-1, 25), 9], [H, -90, F(-1, 50), 3], [0, 0, 1, 0]], [0, 0, 1],
       [F(3, 4), -150, F(1, 50), -6], 0, "max", ["<=", "<=", "<="]),
]


@prop("L01", quick=2400, numeric=True, rule="Random and structured programs (feasible, bounded by construction, degenerate, "
      "redundant, infeasible, unbounded, boxes) with every mix of objective, row types and sign restrictions; solved "
      "by the package and by an exact rational simplex whose verdict is certified.  Non-trivial: at least one row and "
      "the oracle certified an outcome; distinct by the full data of the program.",
      floors=[("oracle:optimal", 580), ("oracle:infeasible", 150), ("oracle:unbounded", 330), ("with ten or more free variables", 20)], directed=DIRECTED_LP)
def l01(ctx):
    rng = ctx.rng
    lp = ctx.directed.clone() if ctx.directed is not None else gen.wide(rng) if rng.random() < 0.1 else gen.lp(rng)
    if ctx.directed is None and rng.random() < 0.02:
        lp = LP([], [], lp.c, lp.z, lp.obj, [], lp.free, lp.neg)
        ctx.count("programs without rows")
    note_lp(ctx, lp)
    ctx.nontrivial = True
    truth_ = lp.solve()
    ctx.count("oracle:" + truth_[0])
    if lp.free and lp.neg:
        ctx.count("with free and non-positive variables")
    if len(lp.free) > 9:
        ctx.count("with ten or more free variables")
    p = build(ctx, lp)
    kw = steps_kw(ctx)
    x = ctx.must("solve", p.solve, **kw)
    if truth_[0] != "optimal":
        ctx.check(x is None, lambda: f"the program is {truth_[0]} but solve() returned {short(x)}")
        v = ctx.must("optimal_value", p.optimal_value)
        ctx.check(v is None, lambda: f"the program is {truth_[0]} but optimal_value() returned {short(v)}")
        return
    ctx.check(x is not None, lambda: f"the program has optimum {truth_[1]} but solve() returned nothing")
    x = vec(x, lp.n, "solution")
    bad = feasible_tol(lp, x)
    ctx.check(bad is None, lambda: f"solution {x.tolist()} infeasible: {bad}")
    got = sum(float(a) * t for a, t in zip(lp.c, x)) + float(lp.z)
    ctx.check(close(got, truth_[1], TOL, scale_of(lp, x)),
              lambda: f"solution {x.tolist()} has value {got}, optimum is {float(truth_[1])}")
    v = ctx.must("optimal_value", p.optimal_value)
    ctx.check(v is not None, "optimal_value() returned nothing for a program with an optimum")
    v = num(v, "optimal_value")
    ctx.check(close(v, truth_[1], TOL, scale_of(lp, x)), lambda: f"optimal_value() {v}, optimum is {float(truth_[1])}")


# -------------------------------------------------------------------- L02
DIRECTED_SEF = [
    _d([[1, 1]], [-2], [1, 0]), _d([[1, -1]], [-2], [1, -1]), _d([[-1, -1]], [-2], [1, 2]),
    _d([[1, 0], [0, 1]], [0, 0], [1, 1]), _d([[1, 0], [0, 1]], [2, 3], [1, 1]),
    _d([[1, 2], [3, 4]], [-1, 2], [1, 1]),
    _d([[1, 1, 1, 0], [1, -1, 0, 1]], [0, 0], [1, 1, 0, 0]),
    _d([[1, 2, 3], [0, 1, 1]], [0, 0], [-1, -1, -1], 5),
    _d([[1, -1, 0], [0, 0, 1]], [0, 1], [1, 0, 0]),
]


def check_opt_cert(ctx, lp, x, basis, y, opt):
    n = lp.n
    x = vec(x, n, "optimal solution")
    bad = feasible_tol(lp, x)
    ctx.check(bad is None, lambda: f"optimal solution infeasible: {bad}")
    got = sum(float(a) * t for a, t in zip(lp.c, x)) + float(lp.z)
    ctx.check(close(got, opt[1], TOL, scale_of(lp, x)), lambda: f"value {got}, optimum {float(opt[1])}")
    B = [int(i) - 1 for i in basis]
    ctx.check(is_basis(lp.A, B), lambda: f"returned basis {short(basis)} is not a basis")
    xb = basic_solution(lp.A, lp.b, B)
    ctx.check(all(v >= 0 for v in xb), lambda: f"returned basis {short(basis)} is not feasible")
    ctx.check(all(close(a, b, TOL) for a, b in zip(x, xb)), lambda: f"solution {x.tolist()} is not the basic "
              f"solution {[float(v) for v in xb]} of basis {short(basis)}")
    y = vec(y, lp.m, "dual certificate")
    yA = [sum(float(lp.A[i][j]) * y[i] for i in range(lp.m)) for j in range(n)]
    for j in range(n):
        sc = abs(float(lp.c[j])) + sum(abs(float(lp.A[i][j]) * y[i]) for i in range(lp.m))
        ctx.check(float(lp.c[j]) - yA[j] <= TOL * (1 + sc), lambda: f"certificate {y.tolist()} not dual feasible at {j + 1}")
    yb = float(sum(float(lp.b[i]) * y[i] for i in range(lp.m))) + float(lp.z)
    ctx.check(close(yb, opt[1], TOL, sum(abs(float(lp.b[i]) * y[i]) for i in range(lp.m))),
              lambda: f"certificate value {yb}, optimum {float(opt[1])}")


def check_unbounded_cert(ctx, lp, cert):
    try:
        x, d = cert
    except Exception:
        raise Violation(f"unboundedness certificate is not a pair: {short(cert)}")
    x, d = vec(x, lp.n, "feasible point"), vec(d, lp.n, "direction")
    bad = feasible_tol(lp, x)
    ctx.check(bad is None, lambda: f"point of the unboundedness certificate infeasible: {bad}")
    for i in range(lp.m):
        s = sum(float(lp.A[i][j]) * d[j] for j in range(lp.n))
        sc = sum(abs(float(lp.A[i][j]) * d[j]) for j in range(lp.n))
        ctx.check(abs(s) <= TOL * (1 + sc), lambda: f"direction {d.tolist()} violates Ad = 0 in row {i + 1}")
    ctx.check(all(v >= -TOL for v in d), lambda: f"direction {d.tolist()} has a negative entry")
    cd = sum(float(a) * t for a, t in zip(lp.c, d))
    ctx.check(cd > 1e-9, lambda: f"direction {d.tolist()} does not improve: {cd}")
    return x, d


def check_farkas(ctx, lp, y):
    y = vec(y, lp.m, "infeasibility certificate")
    for j in range(lp.n):
        s = sum(float(lp.A[i][j]) * y[i] for i in range(lp.m))
        sc = sum(abs(float(lp.A[i][j]) * y[i]) for i in range(lp.m))
        ctx.check(s >= -TOL * (1 + sc) * 0.01, lambda: f"certificate {y.tolist()} violates yA >= 0 at column {j + 1}")
    yb = sum(float(b) * t for b, t in zip(lp.b, y))
    ctx.check(yb < -1e-9, lambda: f"certificate {y.tolist()} has yb = {yb}")
    return y


def moderate(lp, *vectors):
    """The rounding error of products with these vectors stays well under the package's absolute tolerance."""
    big = max([abs(float(t)) for v in vectors for t in v], default=0)
    return big * max([abs(float(t)) for r in lp.A for t in r] + [abs(float(t)) for t in lp.b], default=0) < 1e4


@prop("L02", quick=6800, numeric=True, rule="Programs in standard equality form with independent rows (square, degenerate, slack "
      "form, negative right-hand sides, planted infeasibility and rays); the outcome is decided by an exact certified "
      "simplex and every returned basis, point and certificate is checked against the exact data and by the program's "
      "own verifiers.  Distinct by the full data.",
      floors=[("oracle:optimal", 1880), ("oracle:infeasible", 470), ("oracle:unbounded", 630)], directed=DIRECTED_SEF)
def l02(ctx):
    lp = ctx.directed.clone() if ctx.directed is not None else gen.sef(ctx.rng)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    t = lp.solve()
    ctx.count("oracle:" + t[0])
    if any(v < 0 for v in lp.b):
        ctx.count("negative right-hand side")
    p = build(ctx, lp)
    r = ctx.must("two_phase_simplex", p.two_phase_simplex, **steps_kw(ctx))
    ctx.check(isinstance(r, tuple) and len(r) == 3, lambda: f"unexpected result {short(r)}")
    x, basis, cert = r
    kw = steps_kw(ctx)
    if t[0] == "optimal":
        ctx.check(x is not None and basis is not None, lambda: f"optimum {t[1]} exists, reported {short(r)}")
        check_opt_cert(ctx, lp, x, basis, cert, t)
        ok = truth(ctx.must("verify_optimality", p.verify_optimality, cert, **kw), "verify_optimality")
        ctx.check(ok or not moderate(lp, cert), "verify_optimality rejects the returned certificate")
    elif t[0] == "unbounded":
        ctx.check(x is None and basis is None, lambda: f"the program is unbounded, reported {short(r)}")
        x, d = check_unbounded_cert(ctx, lp, cert)
        ok = truth(ctx.must("verify_unboundedness", p.verify_unboundedness, x, d, **kw), "verify_unboundedness")
        ctx.check(ok or not moderate(lp, x, d), "verify_unboundedness rejects the returned certificate")
    else:
        ctx.check(x is None and basis is None, lambda: f"the program is infeasible, reported {short(r)}")
        ctx.check(not isinstance(cert, tuple), lambda: f"the program is infeasible, certificate {short(cert)}")
        check_farkas(ctx, lp, cert)
        ok = truth(ctx.must("verify_infeasibility", p.verify_infeasibility, cert, **kw), "verify_infeasibility")
        ctx.check(ok or not moderate(lp, cert), "verify_infeasibility rejects the returned certificate")


# -------------------------------------------------------------------- L03
def _slacked(A, b, c):
    m = len(A)
    return LP([list(map(fr, A[i])) + [F(int(i == j)) for j in range(m)] for i in range(m)], b,
              list(map(fr, c)) + [F(0)] * m)


def klee_minty(n):
    A = [[F(2) * F(2) ** (i - j) if j < i else F(1) if j == i else F(0) for j in range(n)] for i in range(n)]
    return _slacked(A, [F(5) ** (i + 1) for i in range(n)], [F(2) ** (n - 1 - j) for j in range(n)])


CYCLES = [
    _slacked([[F(1, 4), -60, F(-1, 25), 9], [F(1, 2), -90, F(-1, 50), 3], [0, 0, 1, 0]], [0, 0, 1],
             [F(3, 4), -150, F(1, 50), -6]),
    _slacked([[F(1, 4), -8, -1, 9], [F(1, 2), -12, F(-1, 2), 3], [0, 0, 1, 0]], [0, 0, 1],
             [F(3, 4), -20, F(1, 2), -6]),
    _slacked([[F(1, 2), F(-11, 2), F(-5, 2), 9], [F(1, 2), F(-3, 2), F(-1, 2), 1], [1, 0, 0, 0]], [0, 0, 1],
             [10, -57, -9, -24]),
    _slacked([[-2, -9, 1, 9], [F(1, 3), 1, F(-1, 3), -2], [2, 3, -1, -12]], [0, 0, 2], [2, 3, -1, -12]),
    _slacked([[1, -2, -3, 4], [4, -3, -2, 1]], [0, 0], [1, -1, 1, -1]),
    _slacked([[1, 1, 0], [1, 0, 1], [0, 1, 1]], [0, 0, 0], [1, 1, 1]),
    klee_minty(2), klee_minty(3), klee_minty(4), klee_minty(5),
]


def residue(lp, B):
    """What rounding can leave, at most, in the zeros of the canonical form for basis B (0-based)."""
    Ab = cols(lp.A, B)
    inv = inverse(Ab)
    top = float(max(abs(v) for r in inv for v in r)) * float(max(abs(v) for r in Ab for v in r))
    return 4 * lp.m * 2.3e-16 * top * float(1 + sum(abs(lp.c[j]) for j in B))


def compare_canonical(ctx, o, lp, B, what, tol=1e-6):
    """o: observed attributes; must be the canonical form of lp for basis B (0-based), up to the order of rows."""
    A2, b2, c2, z2 = canonical(lp.A, lp.b, lp.c, lp.z, B)
    m, n = lp.m, lp.n
    ctx.check(o["A"].shape == (m, n), f"{what}: shape {o['A'].shape}")
    Ab = cols(lp.A, B)
    inv = inverse(Ab)
    kappa = m * float(max(abs(v) for r in Ab for v in r) * max(abs(v) for r in inv for v in r))
    if kappa <= 3000:      # well conditioned: the constant, the costs and the right-hand sides to nine digits
        ctx.count("well conditioned")
        top = float(max(abs(v) for r in inv for v in r))
        sb = top * float(sum(map(abs, lp.b)))
        cb = float(sum(abs(lp.c[j]) for j in B))
        for i, j in enumerate(B):
            r = [k for k in range(m) if abs(o["A"][k, j] - 1) < 1e-6]
            ctx.check(len(r) != 1 or abs(o["b"][r[0]] - float(b2[i])) <= 1e-9 * (1e-3 + sb),
                      lambda: f"{what}: rhs {o['b'].tolist()}, expected {[float(v) for v in b2]}")
        ctx.check(abs(o["z"] - float(z2)) <= 1e-9 * (1e-3 + abs(float(lp.z)) + cb * sb),
                  lambda: f"{what}: constant {o['z']!r}, expected {float(z2)!r}")
        for k in range(n):
            sc = abs(float(lp.c[k])) + cb * top * float(sum(abs(lp.A[t][k]) for t in range(m)))
            ctx.check(abs(o["c"][k] - float(c2[k])) <= 1e-9 * (1e-3 + sc),
                      lambda: f"{what}: objective {o['c'].tolist()}, expected {[float(v) for v in c2]}")
    rows = []
    for i, j in enumerate(B):
        r = [k for k in range(m) if abs(o["A"][k, j] - 1) < 1e-6]
        ctx.check(len(r) == 1, lambda: f"{what}: column {j + 1} is not a unit column: {o['A'][:, j].tolist()}")
        rows.append(r[0])
    ctx.check(sorted(rows) == list(range(m)), lambda: f"{what}: basis columns are not an identity")
    for i, r in enumerate(rows):
        for j in range(n):
            sc = float(abs(A2[i][j]))
            ctx.check(abs(o["A"][r, j] - float(A2[i][j])) <= tol * (1 + sc),
                      lambda: f"{what}: entry ({r + 1},{j + 1}) is {o['A'][r, j]}, expected {float(A2[i][j])}")
        ctx.check(close(o["b"][r], b2[i], tol), lambda: f"{what}: rhs {o['b'].tolist()}, expected {[float(v) for v in b2]}")
    for j in range(n):
        ctx.check(close(o["c"][j], c2[j], tol), lambda: f"{what}: objective {o['c'].tolist()}, expected {[float(v) for v in c2]}")
    ctx.check(close(o["z"], z2, tol), lambda: f"{what}: constant {o['z']}, expected {float(z2)}")
    for j in B:
        ctx.check(abs(o["c"][j]) <= 1e-7 + residue(lp, B), lambda: f"{what}: objective not zero on the basis: {o['c'].tolist()}")
    ctx.check(o["objective"] == "max" and all(q == "=" for q in o["inequalities"]) and not o["free"] and not o["neg"],
              lambda: f"{what}: no longer in standard equality form")


@prop("L03", quick=7800, numeric=True, rule="SEF programs with independent rows, classical cycling examples and Klee-Minty cubes; "
      "from several feasible bases in shuffled order the online monitor follows every simplex iteration and compares "
      "it with an exact Bland step (outcome, next basis, value, returned program), checks that no basis repeats and "
      "that the complete run agrees.  Non-trivial: at least one feasible basis exists; distinct by data and start.",
      floors=[("pivots", 4320), ("degenerate pivots", 1620), ("end:optimal", 3850), ("end:unbounded", 2030), ("well conditioned", 9980)],
      directed=CYCLES)
def l03(ctx):
    rng = ctx.rng
    if ctx.directed is not None:
        lp = ctx.directed.clone()
        starts = [list(range(lp.n - lp.m, lp.n))]
    else:
        lp = gen.sef(rng, kind=rng.choice([None, None, "slack", "slack", "degenerate", "unbounded", "bounded"]),
                     mmax=4, nmax=7)
        feas = [B for B in all_bases(lp.A) if all(v >= 0 for v in basic_solution(lp.A, lp.b, B))]
        if not feas:
            raise Skip("no feasible basis")
        starts = rng.sample(feas, min(len(feas), 2))
    note_lp(ctx, lp, starts=str(starts))
    ctx.nontrivial = True
    for start in starts:
        B = list(start)
        seen = set()
        p = build(ctx, lp)
        for _ in range(200):
            cur = sorted(B)
            ctx.check(tuple(cur) not in seen, lambda: f"basis {[i + 1 for i in cur]} repeats")
            seen.add(tuple(cur))
            want = bland_step(lp.A, lp.b, lp.c, cur)
            given = [i + 1 for i in cur]
            if rng.random() < 0.5:
                rng.shuffle(given)
            inp = rng.random() < 0.2
            q = ctx.must("copy", p.copy) if inp else p
            kw = steps_kw(ctx)
            r = ctx.must(f"simplex_iteration({given})", q.simplex_iteration, list(given), in_place=inp, **kw)
            ctx.check(isinstance(r, tuple) and len(r) == 3, lambda: f"unexpected result {short(r)}")
            x, nb, prog = r
            if inp:
                ctx.check(prog is q, "in-place iteration did not return the program itself")
            compare_canonical(ctx, observe(ctx, prog), lp, cur, f"program returned for basis {given}")
            if want[0] == "optimal":
                ctx.check(x is not None and nb is not None,
                          lambda: f"basis {given} is optimal but the iteration returned {short((x, nb))}")
                xv = vec(x, lp.n, "solution")
                ctx.check(all(close(a, b, TOL) for a, b in zip(xv, want[1])),
                          lambda: f"optimal point {xv.tolist()}, expected {[float(v) for v in want[1]]}")
                ctx.check(sorted(int(i) - 1 for i in nb) == cur, lambda: f"optimal basis reported {short(nb)}, is {given}")
                end = "optimal"
                break
            if want[0] == "unbounded":
                ctx.check(x is None and nb is None,
                          lambda: f"basis {given} shows unboundedness but the iteration returned {short((x, nb))}")
                end = "unbounded"
                break
            ctx.check(x is None and nb is not None, lambda: f"basis {given} needs a pivot, iteration returned {short((x, nb))}")
            got = sorted(int(i) - 1 for i in nb)
            ctx.check(is_basis(lp.A, got), lambda: f"next basis {short(nb)} is not a basis")
            xb = basic_solution(lp.A, lp.b, got)
            ctx.check(all(v >= 0 for v in xb), lambda: f"next basis {short(nb)} is infeasible")
            before = lp.value(basic_solution(lp.A, lp.b, cur))
            ctx.check(lp.value(xb) >= before, lambda: f"value dropped from {before} to {lp.value(xb)}")
            ctx.check(len(set(got) & set(cur)) == lp.m - 1, lambda: f"{short(nb)} is not one exchange away from {given}")
            ctx.check(got == want[1], lambda: f"from basis {given} moved to {short(nb)}, Bland's rule gives {[i + 1 for i in want[1]]}")
            ctx.count("pivots")
            if lp.value(xb) == before:
                ctx.count("degenerate pivots")
            B = got
        else:
            raise Violation("no termination within 200 pivots")
        ctx.count("end:" + end)
        s = [i + 1 for i in start]
        rng.shuffle(s)
        r = ctx.must(f"simplex({s})", p.simplex, list(s), **steps_kw(ctx))
        ctx.check(isinstance(r, tuple) and len(r) == 3, lambda: f"unexpected result {short(r)}")
        x, nb, cert = r
        if end == "optimal":
            ctx.check(x is not None and nb is not None and sorted(int(i) - 1 for i in nb) == sorted(B),
                      lambda: f"simplex({s}) ended with {short((x, nb))}, the iterations with basis {[i + 1 for i in B]}")
            check_opt_cert(ctx, lp, x, nb, cert, ("optimal", lp.value(basic_solution(lp.A, lp.b, B))))
        else:
            ctx.check(x is None and nb is None, lambda: f"simplex({s}) returned {short(r)} on an unbounded program")
            check_unbounded_cert(ctx, lp, cert)


# -------------------------------------------------------------------- L04
def margin_ge(vals, eps):
    """True if all vals >= 0 exactly, False if some val <= -eps, None in between."""
    lo = min(vals, default=F(0))
    return True if lo >= 0 else False if lo <= -eps else None


def tri_and(*ts):
    if any(t is False for t in ts):
        return False
    return None if any(t is None for t in ts) else True


EPS = F(1, 10 ** 6)


def judge_infeasible(lp, y):
    yA = vecmat(y, lp.A, lp.n)
    yb = dot(y, lp.b)
    return tri_and(margin_ge(yA, EPS), True if yb <= -EPS else False if yb >= 0 else None)


def judge_unbounded(lp, x, d):
    res = []
    for i in range(lp.m):
        v = abs(dot(lp.A[i], x) - lp.b[i])
        res.append(True if v == 0 else False if v >= EPS + abs(lp.b[i]) * F(1, 10 ** 4) else None)
        v = abs(dot(lp.A[i], d))
        res.append(True if v == 0 else False if v >= EPS else None)
    res.append(margin_ge(x, EPS))
    res.append(margin_ge(d, EPS))
    cd = dot(lp.c, d)
    res.append(True if cd >= EPS else False if cd <= 0 else None)
    return tri_and(*res)


def judge_optimal(lp, y):
    yA = vecmat(y, lp.A, lp.n)
    return margin_ge([a - c for a, c in zip(yA, lp.c)], EPS)


def as_arg(rng, v):
    f = [float(t) for t in v]
    if all(t.denominator == 1 for t in v) and rng.random() < 0.3:
        f = [int(t) for t in v]
        return f if rng.random() < 0.5 else np.array(f)
    return f if rng.random() < 0.5 else np.array(f)


def dyadic(v):
    """The nearest vector whose floats are exact (so exact judgement is about what is passed)."""
    return [F(float(t)) for t in v]


@prop("L04", quick=24000, rule="SEF programs with candidate certificates: exact ones from the oracle, scaled and "
      "combined ones, and ones pushed out of exactly one condition by amounts from 1e-6 to 10, plus random vectors; "
      "the definition is evaluated exactly on the numbers passed and near-boundary cases are skipped.  Distinct by "
      "program, kind and candidate.",
      floors=[("infeasibility:accept", 4440), ("infeasibility:reject", 17380), ("unboundedness:accept", 2030),
              ("unboundedness:reject", 18580), ("optimality:accept", 6980), ("optimality:reject", 20280), ("non-SEF refused", 610)])
def l04(ctx):
    rng = ctx.rng
    if rng.random() < 0.06:
        lp = gen.lp(rng)
        if lp.is_sef:
            raise Skip("already SEF")
        note_lp(ctx, lp)
        ctx.nontrivial = True
        p = build(ctx, lp)
        y = [float(rng.randint(-2, 2)) for _ in range(lp.m)]
        x = [float(rng.randint(0, 2)) for _ in range(lp.n)]
        ctx.refuse("verify_infeasibility on a non-SEF program", p.verify_infeasibility, y, kinds=(ArithmeticError,))
        ctx.refuse("verify_unboundedness on a non-SEF program", p.verify_unboundedness, x, x, kinds=(ArithmeticError,))
        ctx.refuse("verify_optimality on a non-SEF program", p.verify_optimality, y, kinds=(ArithmeticError,))
        ctx.count("non-SEF refused")
        return
    lp = gen.sef(rng, kind=rng.choice(["infeasible", "unbounded", "bounded", "degenerate", "random", "slack", "square"]),
                 independent=rng.random() < 0.8)
    if max([abs(v) for r in lp.A for v in r] + [abs(v) for v in lp.b + lp.c]) > 60:
        raise Skip("large data")
    lp = LP([dyadic(r) for r in lp.A], dyadic(lp.b), dyadic(lp.c), lp.z)
    p = build(ctx, lp)
    A, b, c, _ = lp.std()
    from exact import solve_std
    r = solve_std(A, b, c)

    def perturb(v, width=None):
        v = list(v)
        j = rng.randrange(len(v))
        v[j] += F(rng.choice([1, -1])) * rng.choice([EPS * 2, F(1, 1000), F(1, 8), F(1), F(10)])
        return v

    kinds = rng.sample(["inf", "unb", "opt"], 2)
    if r[0] == "infeasible":
        kinds = ["inf"] + kinds
    elif r[0] == "unbounded":
        kinds = ["unb"] + kinds
    else:
        kinds = ["opt"] + kinds
    for k in kinds:
        for rep in range(3):
            mode = rng.choice(["exact", "scaled", "perturbed", "random", "perturbed"])
            rnd = lambda n, lo: [F(rng.randint(lo, 4), rng.choice([1, 2])) for _ in range(n)]
            if k == "inf":
                y = r[1] if r[0] == "infeasible" else rnd(lp.m, -4)
                if mode == "random":
                    y = rnd(lp.m, -4)
                elif mode == "scaled":
                    y = [v * rng.choice([F(1, 8), 2, 16]) for v in y]
                elif mode == "perturbed":
                    y = perturb(y)
                if rng.random() < 0.1:
                    y = [-v for v in y]
                y = dyadic(y)
                want = judge_infeasible(lp, y)
                name, call = "infeasibility", lambda: ctx.must("verify_infeasibility", p.verify_infeasibility,
                                                               as_arg(rng, y), **steps_kw(ctx))
                shown = [y]
            elif k == "opt":
                y = r[3] if r[0] == "optimal" else rnd(lp.m, -4)
                if mode == "random":
                    y = rnd(lp.m, -4)
                elif mode == "scaled":
                    y = [v * rng.choice([F(1, 8), 2, 16]) for v in y]
                elif mode == "perturbed":
                    y = perturb(y)
                if rng.random() < 0.1:
                    y = [-v for v in y]
                y = dyadic(y)
                want = judge_optimal(lp, y)
                name, call = "optimality", lambda: ctx.must("verify_optimality", p.verify_optimality,
                                                            as_arg(rng, y), **steps_kw(ctx))
                shown = [y]
            else:
                if r[0] == "unbounded":
                    x, d = list(r[1]), list(r[2])
                    if rng.random() < 0.3:
                        x = [u + v for u, v in zip(x, d)]
                else:
                    x = list(r[2]) if r[0] == "optimal" else rnd(lp.n, 0)
                    d = rnd(lp.n, 0)
                w = rng.choice(["x", "d", "none", "dneg", "dzero", "xray", "null"])
                if mode == "random":
                    d = rnd(lp.n, -1)
                elif mode == "scaled":
                    d = [v * rng.choice([F(1, 8), 2, 16]) for v in d]
                elif mode == "perturbed":
                    if w == "x":
                        x = perturb(x)
                    elif w == "d":
                        d = perturb(d)
                    elif w == "dneg":
                        d = [-v for v in d]
                    elif w == "dzero":
                        d = [F(0)] * lp.n
                    elif w == "xray":
                        x = [u - 20 * v for u, v in zip(x, d)]
                    elif w == "null":
                        # a null vector of A that need not be improving or non-negative
                        M, piv = rref(lp.A)
                        fre = [j for j in range(lp.n) if j not in piv]
                        if fre:
                            j = rng.choice(fre)
                            d = [F(0)] * lp.n
                            d[j] = F(1)
                            for i, q in enumerate(piv):
                                d[q] = -M[i][j]
                            if rng.random() < 0.5:
                                d = [-v for v in d]
                x, d = dyadic(x), dyadic(d)
                want = judge_unbounded(lp, x, d)
                name, call = "unboundedness", lambda: ctx.must("verify_unboundedness", p.verify_unboundedness,
                                                               as_arg(rng, x), as_arg(rng, d), **steps_kw(ctx))
                shown = [x, d]
            if want is None or any(abs(t) > 2 ** 20 for v in shown for t in v):
                ctx.count("near the boundary, skipped")
                continue
            got = truth(call(), f"verify_{name}")
            note_lp(ctx, lp, candidate=str([[str(t) for t in v] for v in shown]), kind=name)
            ctx.nontrivial = True
            ctx.count(f"{name}:{'accept' if want else 'reject'}")
            ctx.check(got == want, lambda: f"verify_{name} answered {got} for a certificate that is "
                      f"{'valid' if want else 'invalid'}")


# -------------------------------------------------------------------- L05
def reference_sef(lp):
    sg = 1 if lp.obj == "max" else -1
    A, b, c, _ = lp.std()
    return LP(A, b, c, lp.z)


@prop("L05", quick=43200, rule="Programs over every mix of objective, row types and sign restrictions; the converted "
      "program is compared with the reference standard form (negated non-positive variables, adjacent split of free "
      "ones, one slack per inequality in row order) and, on a sample, solved exactly and mapped back.  Distinct by "
      "the full data.", floors=[("several free variables", 6310), ("free and non-positive", 3130), ("already SEF", 1800)])
def l05(ctx):
    rng = ctx.rng
    r = rng.random()
    lp = gen.lp(rng) if r < 0.9 else gen.wide(rng) if r < 0.93 else gen.sef(rng, independent=False)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    if len(lp.free) > 1:
        ctx.count("several free variables")
    if lp.free and lp.neg:
        ctx.count("free and non-positive")
    if lp.is_sef:
        ctx.count("already SEF")
    p = build(ctx, lp)
    before = observe(ctx, p)
    inp = rng.random() < 0.4
    s = ctx.must("to_sef", p.to_sef, in_place=inp, **steps_kw(ctx))
    if inp:
        ctx.check(s is p, "in-place conversion did not return the program itself")
    else:
        bad = same_obs(before, observe(ctx, p))
        ctx.check(bad is None, lambda: f"conversion changed the original: {bad}")
    o = observe(ctx, s)
    ref = reference_sef(lp)
    bad = same_obs(o, expected_obs(ref), 1e-12)
    ctx.check(bad is None, lambda: f"standard form differs from the reference: {bad}")
    again = ctx.must("to_sef twice", s.to_sef, **steps_kw(ctx))
    bad = same_obs(o, observe(ctx, again))
    ctx.check(bad is None, lambda: f"converting a standard form again changed it: {bad}")
    if rng.random() < 0.3:
        t = lp.solve()
        r = lp_of_obs(o).solve()
        ctx.count("solved both")
        if t[0] != r[0]:
            # the floats of decimal data need not carry redundancy exactly: use the rational data
            r = rounded_lp_of_obs(o).solve()
        ctx.check(t[0] == r[0], lambda: f"original {t[0]}, standard form {r[0]}")


# -------------------------------------------------------------------- L06
@prop("L06", quick=16200, rule="SEF programs with independent rows; conversion for bases in shuffled order is compared "
      "with the exact canonical form; the recognition query is asked about it, about one-entry corruptions, other "
      "bases, and non-bases; non-SEF programs and non-bases must be refused.  Distinct by data and basis.",
      floors=[("conversions", 12700), ("unsorted bases", 3680), ("recognised", 17600), ("not recognised", 16880),
              ("refused non-basis", 8910), ("refused non-SEF", 340), ("cancelling costs", 1430), ("well conditioned", 12440)])
def l06(ctx):
    rng = ctx.rng
    if rng.random() < 0.05:
        lp = gen.lp(rng)
        if lp.is_sef:
            raise Skip("already SEF")
        p = build(ctx, lp)
        note_lp(ctx, lp)
        ctx.nontrivial = True
        B = list(range(1, min(lp.m, lp.n) + 1))
        o = observe(ctx, p)
        ctx.refuse("to_canonical_form on a non-SEF program", p.to_canonical_form, B)
        ctx.check(same_obs(o, observe(ctx, p)) is None, "a refused conversion changed the program")
        ctx.count("refused non-SEF")
        return
    lp = gen.sef(rng, mmax=4, nmax=7)
    if rng.random() < 0.15:      # already canonical for the slack columns
        lp = gen.sef(rng, kind="slack", mmax=3, nmax=7)
        c = lp.c
    p = build(ctx, lp)
    orig = observe(ctx, p)
    bases = all_bases(lp.A)
    for B in rng.sample(bases, min(2, len(bases))):
        B = list(B)
        if rng.random() < 0.6:
            rng.shuffle(B)
        note_lp(ctx, lp, basis=str([j + 1 for j in B]))
        ctx.nontrivial = True
        if B != sorted(B):
            ctx.count("unsorted bases")
        given = [j + 1 for j in B]
        inp = rng.random() < 0.3
        q = ctx.must("copy", p.copy) if inp else p
        arg = list(given) if rng.random() < 0.7 else np.array(given)
        r = ctx.must(f"to_canonical_form({given})", q.to_canonical_form, arg, in_place=inp, **steps_kw(ctx))
        if inp:
            ctx.check(r is q, "in-place conversion did not return the program itself")
        bad = same_obs(orig, observe(ctx, p))
        ctx.check(bad is None, lambda: f"conversion changed the original: {bad}")
        o = observe(ctx, r)
        compare_canonical(ctx, o, lp, B, f"canonical form for {given}")
        ctx.count("conversions")
        ans = truth(ctx.must("is_canonical_form_for", r.is_canonical_form_for, list(given)), "is_canonical_form_for")
        if residue(lp, B) > 5e-9:       # rounding alone may exceed the 1e-8 that recognition allows
            continue
        ctx.check(ans, lambda: f"the canonical form for {given} is not recognised as such")
        ctx.count("recognised")
        # corrupt one entry that matters, or one that does not
        A2, b2, c2 = o["A"].copy(), o["b"].copy(), o["c"].copy()
        w = rng.choice(["basis column", "basis cost", "cancelling costs", "other column", "rhs", "swap"])
        if w == "cancelling costs" and lp.m < 2:
            w = "basis cost"
        if lp.m == lp.n and w == "other column":
            w = "rhs"
        expect = w in ("other column", "rhs")
        delta = rng.choice([1.0, -0.5, 0.001, 3.0])
        if w == "basis column":
            A2[rng.randrange(lp.m), rng.choice(B)] += delta
        elif w == "basis cost":
            c2[rng.choice(B)] += delta
        elif w == "cancelling costs":       # each is wrong, their sum is not
            i, k = rng.sample(list(B), 2)
            c2[i] += delta
            c2[k] -= delta
            ctx.count("cancelling costs")
        elif w == "other column":
            A2[rng.randrange(lp.m), rng.choice([j for j in range(lp.n) if j not in B])] += delta
        elif w == "rhs":
            b2[rng.randrange(lp.m)] += delta
        else:
            if lp.m < 2:
                w = None
            else:
                i, k = rng.sample(range(lp.m), 2)
                A2[[i, k]] = A2[[k, i]]
        if w == "swap":
            continue        # a permuted identity: whether it counts is a matter of row order
        if w:
            try:
                bad_basis = abs(np.linalg.det(A2[:, B])) < 1e-6
            except Exception:
                bad_basis = True
            p2 = ctx.must("LinearProgram(...)", LinearProgram, A2, b2, c2)
            ok, ans = ctx.attempt("is_canonical_form_for", p2.is_canonical_form_for, list(given))
            if not ok:
                ctx.check(bad_basis, lambda: f"is_canonical_form_for raised {ans!r}")
            else:
                ans = truth(ans, "is_canonical_form_for")
                ctx.check(ans == expect, lambda: f"is_canonical_form_for answered {ans} after changing {w} by {delta}")
            ctx.count("recognised" if expect else "not recognised")
        # the original for this basis
        A0, b0, c0, _ = canonical(lp.A, lp.b, lp.c, lp.z, B)
        same = A0 == lp.A and c0 == lp.c
        ans = truth(ctx.must("is_canonical_form_for", p.is_canonical_form_for, list(given)), "is_canonical_form_for")
        if same or sorted(map(tuple, A0)) != sorted(map(tuple, lp.A)) or c0 != lp.c:
            ctx.check(ans == same, lambda: f"is_canonical_form_for({given}) answered {ans} on the original program")
            ctx.count("recognised" if same else "not recognised")
        # sets that are not bases
        m, n = lp.m, lp.n
        cand = rng.choice(["short", "long", "dup", "zero", "high", "dependent"])
        G = list(given)
        if cand == "short":
            G = G[:-1]
        elif cand == "long":
            G = G + [rng.randint(1, n)]
        elif cand == "dup":
            if m < 2:
                continue
            G[0] = G[1]
        elif cand == "zero":
            G[rng.randrange(m)] = 0
        elif cand == "high":
            G[rng.randrange(m)] = n + rng.randint(1, 3)
        else:
            G = [j + 1 for j in rng.sample(range(n), m)]
            if is_basis(lp.A, [j - 1 for j in G]):
                continue
        ctx.refuse(f"to_canonical_form({G}) (not a basis: {cand})", p.to_canonical_form, list(G))
        ok, ans = ctx.attempt("is_canonical_form_for", p.is_canonical_form_for, list(G))
        ctx.check(not ok or not truth(ans, "is_canonical_form_for"), lambda: f"{G} is not a basis but is reported canonical")
        ctx.count("refused non-basis")
        bad = same_obs(orig, observe(ctx, p))
        ctx.check(bad is None, lambda: f"a refused conversion changed the program: {bad}")


# -------------------------------------------------------------------- L07
def rnd_feasible(rng, lp, tries=12):
    """Some feasible points of lp (exact): vertices for random objectives and mixtures."""
    pts = []
    for _ in range(2):
        q = lp.clone()
        q.c = [F(rng.randint(-3, 3)) for _ in range(lp.n)]
        r = q.solve()
        if r[0] == "infeasible":
            return []
        t = rng.randint(0, 3)
        x = r[2] if r[0] == "optimal" else [a + t * d for a, d in zip(r[1], r[2])]
        pts.append(x)
    pts.append([(a + b) / 2 for a, b in zip(*pts)])
    return pts


@prop("L07", quick=12000, numeric=True, rule="Programs over every mix of objective, row types and signs; the dual the package "
      "returns is read back, solved exactly and compared by weak duality on sampled feasible pairs, strong duality, "
      "the unbounded/infeasible table, and dual-of-dual identity.  Distinct by the full data.",
      floors=[("strong duality pairs", 2760), ("weak duality pairs", 24850), ("unbounded -> infeasible dual", 1710),
              ("dual of dual", 5390)])
def l07(ctx):
    rng = ctx.rng
    lp = gen.lp(rng, mmax=5, nmax=6)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    p = build(ctx, lp)
    before = observe(ctx, p)
    d = ctx.must("dual", p.dual, **steps_kw(ctx))
    o = observe(ctx, d)
    bad = same_obs(before, observe(ctx, p))
    ctx.check(bad is None, lambda: f"taking the dual changed the program: {bad}")
    ctx.check(o["A"].shape == (lp.n, lp.m), lambda: f"dual has shape {o['A'].shape}")
    ctx.check(o["objective"] != lp.obj, "the dual optimizes in the same direction")
    ctx.check(o["sef"] == (o["objective"] == "max" and all(q == "=" for q in o["inequalities"])
                           and not o["free"] and not o["neg"]), "wrong standard form flag on the dual")
    dl = rounded_lp_of_obs(o)
    ctx.check(dl.z == 0, "the dual carries a constant")
    tp, td = lp.solve(), dl.solve()
    ctx.count(f"primal {tp[0]}, dual {td[0]}")
    if tp[0] == "optimal":
        ctx.check(td[0] == "optimal", lambda: f"primal has an optimum, dual is {td[0]}")
        ctx.check(td[1] == tp[1] - lp.z, lambda: f"optimal values differ: {tp[1] - lp.z} and {td[1]}")
        ctx.count("strong duality pairs")
    elif tp[0] == "unbounded":
        ctx.check(td[0] == "infeasible", lambda: f"primal unbounded, dual {td[0]}")
        ctx.count("unbounded -> infeasible dual")
    else:
        ctx.check(td[0] != "optimal", "primal infeasible, dual has an optimum")
    if td[0] != "infeasible" and tp[0] != "infeasible":
        sg = 1 if lp.obj == "max" else -1
        for x in rnd_feasible(rng, lp):
            for y in rnd_feasible(rng, dl):
                ctx.check(sg * (lp.value(x) - lp.z) <= sg * dl.value(y),
                          lambda: f"weak duality fails: primal {[str(v) for v in x]} value {lp.value(x) - lp.z}, "
                          f"dual {[str(v) for v in y]} value {dl.value(y)}")
                ctx.count("weak duality pairs")
    dd = observe(ctx, ctx.must("dual of dual", d.dual, **steps_kw(ctx)))
    dd["z"] = float(lp.z)
    bad = same_obs(dd, expected_obs(lp))
    ctx.check(bad is None, lambda: f"dual of the dual is not the original: {bad}")
    ctx.count("dual of dual")
    if rng.random() < 0.25:
        x = ctx.must("dual.solve", d.solve, **steps_kw(ctx))
        if td[0] == "optimal":
            ctx.check(x is not None, "the dual has an optimum but solving it returned nothing")
            v = num(ctx.must("dual.evaluate", d.evaluate, x), "dual value")
            ctx.check(close(v, td[1], TOL, scale_of(dl, vec(x, dl.n, "dual solution"))), lambda: f"dual solved to {v}, optimum {float(td[1])}")
        else:
            ctx.check(x is None, lambda: f"the dual is {td[0]} but solving it returned {short(x)}")


# -------------------------------------------------------------------- L08
@prop("L08", quick=35000, numeric=True, rule="Matrices of every shape with index lists that are permuted, duplicated, out of range, "
      "dependent or of wrong length, as lists and arrays, and candidate vectors (basic solutions, perturbed, feasible "
      "or not); all five queries (and canonical-form recognition) are compared with exact linear algebra.  Distinct by data and list.",
      floors=[("bases", 19030), ("non-bases", 43700), ("unsorted bases", 10080), ("basic solution accepted", 16630),
              ("basic solution rejected", 21310), ("infeasible basis", 9020), ("identity columns judged", 1960)])
def l08(ctx):
    rng = ctx.rng
    indep = rng.random() < 0.8
    lp = gen.sef(rng, independent=indep, mmax=5, nmax=7)
    if rng.random() < 0.15:       # tall matrices too
        m = rng.randint(2, 4)
        n = rng.randint(1, m)
        lp = LP(gen.matrix(rng, m, n, "small")[0], [F(rng.randint(-3, 3)) for _ in range(m)], [F(1)] * n)
    elif rng.random() < 0.15:     # an identity for some basis, costs on it zero, nonzero or cancelling
        m = rng.randint(2, 4)
        n = m + rng.randint(0, 3)
        lp = LP(gen.matrix(rng, m, n)[0], [F(rng.randint(-3, 6)) for _ in range(m)], [F(rng.randint(-3, 3)) for _ in range(n)])
        L = rng.sample(range(n), m)
        cost = rng.choice(["zero", "zero", "one", "cancel", "all"])
        for i, j in enumerate(L):
            for k in range(m):
                lp.A[k][j] = F(int(i == k))
            lp.c[j] = F(0)
        d = F(rng.choice([1, 2, -3, F(1, 2)]))
        if cost == "one":
            lp.c[rng.choice(L)] = d
        elif cost == "cancel":
            i, k = rng.sample(L, 2)
            lp.c[i], lp.c[k] = d, -d
        elif cost == "all":
            for j in L:
                lp.c[j] = d
        p = build(ctx, lp)
        note_lp(ctx, lp, list=str([j + 1 for j in L]))
        got = truth(ctx.must("is_canonical_form_for", p.is_canonical_form_for, [j + 1 for j in L]), "is_canonical_form_for")
        ctx.check(got == (cost == "zero"), lambda: f"is_canonical_form_for({[j + 1 for j in L]}) answered {got}, costs {cost}")
        ctx.count("identity columns judged")
    meant = lp
    lp = LP([dyadic(r) for r in lp.A], dyadic(lp.b), dyadic(lp.c), lp.z)
    p = build(ctx, lp)
    m, n = lp.m, lp.n
    orig = observe(ctx, p)
    for _ in range(4):
        w = rng.choice(["random", "random", "random", "dup", "zero", "neg", "high", "short", "long"])
        L = [rng.randint(1, n) for _ in range(m)] if m > n else [j + 1 for j in rng.sample(range(n), m)]
        if w == "dup" and m >= 2:
            i, k = rng.sample(range(m), 2)
            L[i] = L[k]
        elif w == "zero":
            L[rng.randrange(m)] = 0
        elif w == "neg":
            L[rng.randrange(m)] = -rng.randint(1, n)
        elif w == "high":
            L[rng.randrange(m)] = n + rng.randint(1, 3)
        elif w == "short" and m >= 2:
            L.pop()
        elif w == "long":
            L.append(rng.randint(1, n))
        B = [j - 1 for j in L]
        isb = is_basis(lp.A, B)
        if isb != is_basis(meant.A, B):
            ctx.count("dependent up to rounding, not judged")
            continue
        note_lp(ctx, lp, list=str(L))
        ctx.nontrivial = True
        arg = lambda: list(L) if rng.random() < 0.6 else np.array(L)
        got = truth(ctx.must(f"is_basis({L})", p.is_basis, arg()), "is_basis")
        ctx.check(got == isb, lambda: f"is_basis({L}) answered {got}, expected {isb}")
        ctx.count("bases" if isb else "non-bases")
        if not isb:
            ctx.refuse(f"compute_basic_solution({L}) on a non-basis", p.compute_basic_solution, arg())
            f = truth(ctx.must("is_basis_feasible", p.is_basis_feasible, arg()), "is_basis_feasible")
            ctx.check(not f, lambda: f"{L} is not a basis but is_basis_feasible says yes")
            for name, fn in (("is_basic_solution", p.is_basic_solution), ("is_feasible_basic_solution", p.is_feasible_basic_solution)):
                ok, f = ctx.attempt(name, fn, [0.0] * n, arg())
                ctx.check(not ok or not truth(f, name), lambda: f"{name} says yes for {L}, not a basis")
            continue
        if L != sorted(L):
            ctx.count("unsorted bases")
        xb = basic_solution(lp.A, lp.b, B)
        x = vec(ctx.must(f"compute_basic_solution({L})", p.compute_basic_solution, arg()), n, "basic solution")
        ctx.check(all(close(a, b, TOL) for a, b in zip(x, xb)), lambda: f"basic solution of {L} is {x.tolist()}, expected {[float(v) for v in xb]}")
        ctx.check(all(x[j] == 0 for j in range(n) if j not in B), lambda: f"basic solution of {L} not zero outside it: {x.tolist()}")
        lo = min(xb)
        if lo >= 0 or lo <= -EPS:
            f = truth(ctx.must("is_basis_feasible", p.is_basis_feasible, arg()), "is_basis_feasible")
            ctx.check(f == (lo >= 0), lambda: f"is_basis_feasible({L}) answered {f}; basic solution {[float(v) for v in xb]}")
            ctx.count("feasible basis" if lo >= 0 else "infeasible basis")
        for _ in range(2):
            v = [F(float(t)) for t in xb]
            how = rng.choice(["same", "computed", "inside", "outside", "solution", "negate"])
            if how == "computed":
                v = [F(float(t)) for t in x]
            elif how == "inside":
                v[rng.choice(B)] += rng.choice([F(1, 100), F(1), F(-1), F(3)])
            elif how == "outside" and m < n:
                v[rng.choice([j for j in range(n) if j not in B])] += rng.choice([F(1, 1000), F(1), F(-2), EPS * 2])
            elif how == "solution" and m < n:
                # another solution of the rows, not basic for this basis
                k = rng.choice([j for j in range(n) if j not in B])
                col = basic_solution(lp.A, [r[k] for r in lp.A], B)
                t = F(rng.choice([1, -1, 2]))
                v = [a - t * c for a, c in zip(v, col)]
                v[k] += t
                v = dyadic(v)
            elif how == "negate":
                v = [-t for t in v]
            out = [abs(v[j]) for j in range(n) if j not in B]
            res = [abs(dot(lp.A[i], v) - lp.b[i]) for i in range(m)]
            far = any(t >= EPS for t in out) or any(r >= EPS + abs(bb) * F(1, 10 ** 4) for r, bb in zip(res, lp.b))
            near = all(t == 0 for t in out) and all(r <= F(1, 10 ** 9) for r in res)
            if not far and not near:
                continue
            val = as_arg(rng, v)
            f = truth(ctx.must("is_basic_solution", p.is_basic_solution, val, arg(), **steps_kw(ctx)), "is_basic_solution")
            ctx.check(f == near, lambda: f"is_basic_solution({[float(t) for t in v]}, {L}) answered {f}")
            ctx.count("basic solution accepted" if near else "basic solution rejected")
            lo = min(v)
            if lo >= 0 or lo <= -EPS:
                f = truth(ctx.must("is_feasible_basic_solution", p.is_feasible_basic_solution, as_arg(rng, v), arg()),
                          "is_feasible_basic_solution")
                ctx.check(f == (near and lo >= 0), lambda: f"is_feasible_basic_solution({[float(t) for t in v]}, {L}) answered {f}")
    bad = same_obs(orig, observe(ctx, p))
    ctx.check(bad is None, lambda: f"a query changed the program: {bad}")


# -------------------------------------------------------------------- L09
def verdict(lp, x):
    """True / False / None(near the boundary) on exact data."""
    worst = True
    for i in range(lp.m):
        v = dot(lp.A[i], x)
        d = v - lp.b[i]
        q = lp.ineq[i]
        a = abs(d) if q == "=" else (d if q == "<=" else -d)
        if a <= 0:
            continue
        sc = abs(lp.b[i]) + sum(abs(s * t) for s, t in zip(lp.A[i], x))
        if a >= F(1, 10 ** 7) + F(1, 10 ** 4) * sc:
            return False
        if a > F(1, 10 ** 12) * (1 + sc):
            worst = None
    for j in range(lp.n):
        if j in lp.free:
            continue
        a = x[j] if j in lp.neg else -x[j]
        if a >= EPS:
            return False
        if a > F(1, 10 ** 11):
            worst = None
    return worst


@prop("L09", quick=2000, numeric=True, rule="Programs of every form with vectors inside, on the boundary, computed by the solver, "
      "or violating exactly one row or sign; feasibility, evaluation, checked evaluation and optimality answers are "
      "compared with the exact definitions (cases within rounding of a boundary are skipped); malformed vectors must "
      "be refused.  Distinct by program and vector.",
      floors=[("feasible", 2930), ("infeasible", 3660), ("solver output", 550), ("optimal yes", 810), ("optimal no", 2440),
              ("malformed refused", 3600), ("a row in tiny units", 50)])
def l09(ctx):
    rng = ctx.rng
    lp = gen.lp(rng, kind=rng.choice([None, "bounded", "feasible", "bounded", "degenerate", "redundant", "unbounded"])) \
        if rng.random() < 0.8 else gen.sef(rng, kind=rng.choice(["bounded", "feasible", "degenerate", "slack"]))
    if lp.m <= 3 and lp.n <= 4 and rng.random() < 0.3 and max(abs(v) for r in lp.A + [lp.b] for v in r) <= 12:
        # one row in units a million times larger: its violations are millionths, and still violations
        i, f = rng.randrange(lp.m), F(1, 2 ** rng.randint(18, 22))
        lp.A[i], lp.b[i] = [f * v for v in lp.A[i]], f * lp.b[i]
        ctx.count("a row in tiny units")
    p = build(ctx, lp)
    m, n = lp.m, lp.n
    note_lp(ctx, lp)
    t = lp.solve()
    exact = LP([dyadic(r) for r in lp.A], dyadic(lp.b), dyadic(lp.c), lp.z, lp.obj, lp.ineq, lp.free, lp.neg)
    orig = observe(ctx, p)
    pts = []
    if t[0] == "optimal":
        pts += [("optimum", t[2])]
        x = ctx.must("solve", p.solve, **steps_kw(ctx))
        if x is not None:
            pts.append(("solver", [F(float(v)) for v in vec(x, n, "solution")]))
    elif t[0] == "unbounded":
        pts += [("feasible", t[1]), ("feasible", [a + 3 * b for a, b in zip(t[1], t[2])])]
    base = list(pts)
    for _, x in rng.sample(base, min(len(base), 2)):
        y = list(x)
        j = rng.randrange(n)
        y[j] += rng.choice([1, -1]) * rng.choice([F(1, 1000), F(1, 10), F(1), F(7), EPS * 4])
        pts.append(("perturbed", y))
        y = list(x)
        j = rng.randrange(n)
        y[j] = rng.choice([-y[j], F(0), y[j] + 1])
        pts.append(("changed", y))
    pts.append(("random", gen.point(rng, n, lp.free, lp.neg, "half")))
    pts.append(("random", [F(rng.randint(-6, 6), rng.choice([1, 2, 4])) for _ in range(n)]))
    for name, x in pts:
        x = dyadic(x)
        ctx.sig([str(v) for v in x])
        ctx.nontrivial = True
        want = verdict(exact, x)
        if name in ("optimum", "solver", "feasible"):
            want = True          # computed points have to be accepted, rounding included
        val = as_arg(rng, x)
        shown = [float(v) for v in x]
        v = num(ctx.must("evaluate", p.evaluate, val), "evaluate")
        true = sum((float(a) * float(b) for a, b in zip(lp.c, x)), 0.0) + float(lp.z)
        ctx.check(close(v, true, 1e-9, scale_of(lp, x)), lambda: f"evaluate({shown}) = {v}, expected {true}")
        if want is None:
            ctx.count("near the boundary, skipped")
            continue
        f = truth(ctx.must("is_feasible", p.is_feasible, val, **steps_kw(ctx)), "is_feasible")
        ctx.check(f == want, lambda: f"is_feasible({shown}) answered {f} ({name} point), expected {want}")
        ctx.count("feasible" if want else "infeasible")
        if name == "solver":
            ctx.count("solver output")
        if want:
            v = num(ctx.must("value_of", p.value_of, val), "value_of")
            ctx.check(close(v, true, 1e-9, scale_of(lp, x)), lambda: f"value_of({shown}) = {v}, expected {true}")
        else:
            ctx.refuse(f"value_of({shown}) at an infeasible point", p.value_of, val)
        if rng.random() < 0.5:
            if not want:
                opt = False
            elif t[0] != "optimal":
                opt = False
            else:
                gap = abs(true - float(t[1]))
                sc = 1 + abs(float(t[1]))
                opt = True if gap <= 1e-9 * sc else False if gap >= 1e-3 * sc else None
            if opt is not None:
                f = truth(ctx.must("is_solution_optimal", p.is_solution_optimal, val), "is_solution_optimal")
                ctx.check(f == opt, lambda: f"is_solution_optimal({shown}) answered {f}, expected {opt}")
                ctx.count("optimal yes" if opt else "optimal no")
    bad_args = [[1.0] * (n + 1), [1.0] * (n - 1) if n > 1 else [1.0, 2.0], "text", None, 3, [[1.0] * n], np.ones((1, n)),
                np.ones((n, 1)) if n > 1 else np.ones((2, 1)), ["a"] * n, {"a": 1}, np.array(["a"] * n)]
    a = rng.choice(bad_args)
    for name in ("is_feasible", "evaluate", "value_of", "is_solution_optimal"):
        ctx.refuse(f"{name}({short(a)})", getattr(p, name), a)
        ctx.count("malformed refused")
    bad = same_obs(orig, observe(ctx, p))
    ctx.check(bad is None, lambda: f"a query changed the program: {bad}")


# -------------------------------------------------------------------- L10
def norm(v):
    """Results as comparable plain data (programs by their attributes)."""
    if isinstance(v, LinearProgram):
        return ("program", type(v).__name__, tuple((k, snap(w)) for k, w in sorted(raw_obs(v).items())))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, tuple(norm(i) for i in v))
    if isinstance(v, (np.bool_, np.generic)):
        return ("scalar", v.item())
    if isinstance(v, (bool, int, float)):
        return ("scalar", v)
    return snap(v)


def raw_obs(p):
    return dict(A=np.array(p.A, dtype=float), b=np.array(p.b, dtype=float), c=np.array(p.c, dtype=float),
                z=float(p.z), objective=p.objective, inequalities=list(p.inequalities),
                free=sorted(p.free_variables), neg=sorted(p.negative_variables),
                pos=sorted(p.positive_variables), sef=bool(p.is_sef))


def recorded(p):
    """The steps an object has recorded, as plain data."""
    return [short(s, 2000) for s in p.steps]


class Pool:
    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []          # [name, object, snapshot, recorded steps]
        self.acting = None       # the object called: only its own record of steps may grow
        self.data = []           # [name, caller data, snapshot]

    def add(self, name, obj):
        if len(self.items) >= 7:
            self.items.pop(self.ctx.rng.randrange(1, len(self.items)))
        self.items.append([name, obj, norm(obj), recorded(obj)])

    def lend(self, name, data):
        self.data.append([name, data, snap(data)])
        return data

    def verify(self, after, but=None):
        for it in self.items:
            steps = recorded(it[1])
            if steps != it[3]:
                if it[1] is not self.acting:
                    self.ctx.fail(f"{after} changed the recorded steps of {it[0]}: {len(it[3])} before, {len(steps)} after")
                it[3] = steps
                self.ctx.count("steps recorded")
            if it[1] is but:
                it[2] = norm(it[1])
                continue
            now = norm(it[1])
            if now != it[2]:
                diff = [(a, b) for a, b in zip(it[2][2], now[2]) if a != b]
                self.ctx.fail(f"{after} changed {it[0]}: {short(diff)}")
        for name, d, s in self.data:
            if snap(d) != s:
                self.ctx.fail(f"{after} changed the caller's {name}")
        self.ctx.count("related objects compared", len(self.items))


def lp_operation(rng, p, pool):
    """(name, method name, args, accepts in_place?, accepts show_steps?) with caller-owned arguments."""
    m, n = len(p.b), len(p.c)
    mode = rng.random()
    nums = lambda k, lo=-3, hi=4: [rng.choice([rng.randint(lo, hi), rng.randint(lo, hi) / 2]) for _ in range(k)]
    arr = lambda v: pool.lend("vector", v if rng.random() < 0.4 else np.array(v, dtype=float))
    bas = pool.lend("basis", [rng.randint(1, n) for _ in range(m)] if n < m or rng.random() < 0.2
                    else rng.sample(range(1, n + 1), m))
    w = lambda k: k if rng.random() < 0.93 else k + 1
    ops = [
        ("is_feasible", (arr(nums(w(n), 0)),), False, True),
        ("evaluate", (arr(nums(w(n))),), False, False),
        ("value_of", (arr(nums(w(n), 0)),), False, False),
        ("is_solution_optimal", (arr(nums(w(n), 0)),), False, False),
        ("is_basis", (bas,), False, False),
        ("is_basis_feasible", (bas,), False, False),
        ("compute_basic_solution", (bas,), False, False),
        ("is_basic_solution", (arr(nums(n, 0)), bas), False, True),
        ("is_feasible_basic_solution", (arr(nums(n, 0)), bas), False, False),
        ("is_canonical_form_for", (bas,), False, False),
        ("to_canonical_form", (bas,), True, True), ("to_canonical_form", (bas,), True, True),
        ("to_sef", (), True, True), ("to_sef", (), True, True), ("to_sef", (), True, True),
        ("dual", (), False, True), ("dual", (), False, True),
        ("auxiliary", (), False, True),
        ("solve", (), False, True), ("solve", (), False, True), ("optimal_value", (), False, False),
        ("two_phase_simplex", (), False, True), ("two_phase_simplex", (), False, True),
        ("simplex", (bas,), False, True), ("simplex", (bas,), False, True),
        ("simplex_iteration", (bas,), True, True), ("simplex_iteration", (bas,), True, True),
        ("verify_infeasibility", (arr(nums(w(m))),), False, True),
        ("verify_optimality", (arr(nums(w(m))),), False, True),
        ("verify_unboundedness", (arr(nums(n, 0)), arr(nums(n, 0))), False, True),
        ("cs_conditions", (), False, False),
        ("__repr__", (), False, False),
        ("to_rref", (pool.lend("matrix", np.array([nums(n) for _ in range(m)], dtype=float).reshape(m, n)),), False, False),
        ("copy", (), False, False), ("copy", (), False, False),
        ("clear_steps", (), True, False),
        ("add_constraint", (arr(nums(w(n))), rng.choice(["=", "<=", ">=", "<="]), float(rng.randint(-3, 6))), True, False),
        ("add_variable", (float(rng.randint(-3, 3)), arr(nums(w(m)))) + rng.choice([(), (True,), (False, True), (False, False)]),
         True, False),
    ]
    if isinstance(p, IntegerProgram):
        ops += [("relax", (), False, False)] * 4
        ops += [("branch_and_bound", (), False, False)] * 3
    return rng.choice(ops)


CONVERTERS = {"to_canonical_form", "to_sef", "dual", "auxiliary", "copy", "clear_steps", "add_constraint", "add_variable",
              "relax"}


@prop("L10", quick=1440, rule="A program (linear or integer, float/int/list data owned by the caller) and up to six "
      "objects derived from it; 12 random calls per history, valid and failing, with in-place requests, repeated calls "
      "and direct writes into arrays of one object; after every call every related object and every caller-side "
      "container is compared with its snapshot.  Distinct by program and history.",
      step_limit=40_000_000, floors=[("calls that raised", 1960), ("in place", 690), ("repeated calls", 6240), ("direct writes", 750),
              ("related objects compared", 35350), ("steps recorded", 1790), ("grown apart", 300)])
def l10(ctx):
    rng = ctx.rng
    integer = rng.random() < 0.25
    if integer:
        lp = bounded_ip(rng)
    else:
        lp = gen.lp(rng, mmax=4, nmax=5) if rng.random() < 0.5 else gen.sef(rng, mmax=3, nmax=6, independent=rng.random() < 0.8)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    kw = args_of(lp, rng)
    pool = Pool(ctx)
    for k in ("A", "b", "c", "inequalities", "free_variables", "negative_variables"):
        pool.lend(k, kw[k])
    cls = IntegerProgram if integer else LinearProgram
    if integer and rng.random() < 0.5:
        kw["integral_variables"] = pool.lend("integral_variables", sorted(rng.sample(range(1, lp.n + 1), rng.randint(1, lp.n))))
    root = ctx.must(f"{cls.__name__}(...)", cls, **kw)
    pool.add("the program", root)
    history = []
    for step in range(12):
        name, p = rng.choice(pool.items[:2] + pool.items)[:2]
        pool.acting = p
        if rng.random() < 0.1:
            # write into the arrays of one object: nobody else may notice
            which = rng.choice(["A", "b", "c"])
            a = ctx.must(f"{name}.{which}", getattr, p, which)
            if a.size:
                idx = tuple(rng.randrange(s) for s in a.shape)
                keep = float(a[idx])
                a[idx] = keep + 1
                pool.verify(f"writing into {which} of {name}", but=p)
                a[idx] = keep
                pool.verify(f"writing into {which} of {name}", but=p)
                ctx.count("direct writes")
            continue
        op, args, can_ip, can_show = lp_operation(rng, p, pool)
        if op in ("solve", "optimal_value", "is_solution_optimal", "branch_and_bound", "two_phase_simplex") and \
                (p.A.size > 60 or np.abs(p.A).max(initial=0) > 1e4):
            continue
        if op == "branch_and_bound" and not integer_bounded(raw_obs(p)):
            continue
        kw = {}
        if can_show and rng.random() < 0.6:
            kw["show_steps"] = rng.random() < 0.3
        inp = can_ip and rng.random() < 0.4
        what = f"{name}.{op}{short(args, 120)}{' in place' if inp else ''}"
        history.append(what)
        ok, r = ctx.attempt(what, getattr(p, op), *args, **kw)
        if not ok:
            ctx.count("calls that raised")
            if isinstance(r, (RecursionError, SystemExit)):
                ctx.fail(f"{what} raised {r!r}")
        pool.verify(what)
        if not inp:
            ok2, r2 = ctx.attempt(what, getattr(p, op), *args, **kw)
            ctx.count("repeated calls")
            ctx.check(ok == ok2 and (norm(r) == norm(r2) if ok else type(r) is type(r2)),
                      lambda: f"{what}: first {short(r)}, again {short(r2)}")
            pool.verify(what + " again")
        if inp:
            ok2, r2 = ctx.attempt(what, getattr(p, op), *args, in_place=True, **kw)
            ctx.count("in place")
            ctx.check(ok == ok2, lambda: f"{what}: out of place {short(r)}, in place {short(r2)}")
            if ok:
                target = r2[2] if op == "simplex_iteration" else r2
                ctx.check(target is p, lambda: f"{what} did not return the program itself")
                want = norm(r)
                ctx.check(norm(r2) == want or skip_type(norm(r2)) == skip_type(want),
                          lambda: f"{what}: in place {short(norm(r2))}, out of place {short(want)}")
                pool.verify(what, but=p)
            else:
                pool.verify(what, but=p)
        if ok and not inp:
            made = r if isinstance(r, LinearProgram) else r[2] if op == "simplex_iteration" else None
            if made is not None and made is not p:
                pool.add(f"{op} of {name}", made)
            elif op in CONVERTERS and made is p:
                # a program already in the requested form may only be returned as an independent object
                ctx.fail(f"{what} returned the program itself although in-place was not requested")
            if isinstance(r, (list, np.ndarray)) and rng.random() < 0.5:
                # results belong to the caller
                if isinstance(r, np.ndarray) and r.size and r.flags.writeable:
                    r += 1
                elif isinstance(r, list):
                    r.append("x")
                pool.verify(f"writing into the result of {what}")
            elif isinstance(r, tuple):
                for v in r:
                    if isinstance(v, np.ndarray) and v.size:
                        v += 1
                    elif isinstance(v, list) and v:
                        v[0] = 99
                pool.verify(f"writing into the result of {what}")
    if rng.random() < 0.5:
        grow_apart(ctx, pool, history)
    ctx.sig(history)


def grow_apart(ctx, pool, history):
    """A program and a copy of it take different rows and variables in place; each shows its own, and only its own."""
    rng = ctx.rng
    name, p = rng.choice(pool.items[:2] + pool.items)[:2]
    how = rng.choice(["copy", "copy", "to_sef", "relax"])
    if how == "relax" and not isinstance(p, IntegerProgram):
        how = "copy"
    q = ctx.must(f"{how} of {name}", getattr(p, how))
    pair = [(p, name), (q, f"the {how}")]
    want = [raw_obs(p), raw_obs(q)]
    for _ in range(rng.randint(2, 6)):
        k = rng.randrange(2)
        o, w = pair[k][0], want[k]
        m, n = w["A"].shape
        if rng.random() < 0.6:
            row, op, v = [float(rng.randint(-2, 2)) for _ in range(n)], rng.choice(["=", "<=", ">="]), float(rng.randint(-3, 3))
            what = f"add_constraint({row}, {op!r}, {v}) to {pair[k][1]}"
            ctx.must(what, o.add_constraint, row, op, v, in_place=True)
            w["A"], w["b"] = np.vstack((w["A"], [row])), np.append(w["b"], v)
            w["inequalities"] = w["inequalities"] + [op]
            w["sef"] = w["sef"] and op == "="
        else:
            col, v, sign = [float(rng.randint(-2, 2)) for _ in range(m)], float(rng.randint(-3, 3)), rng.choice(["free", "neg", "pos"])
            what = f"add_variable({v}, {col}, {sign}) to {pair[k][1]}"
            ctx.must(what, o.add_variable, v, col, sign == "free", sign == "neg", True)
            w["A"], w["c"] = np.hstack((w["A"], np.array(col).reshape(m, 1))), np.append(w["c"], v)
            w[sign] = w[sign] + [n + 1]
            w["sef"] = w["sef"] and sign == "pos"
        history.append(what)
        for (o, label), w in zip(pair, want):
            bad = same_obs(raw_obs(o), w)
            ctx.check(bad is None, lambda: f"after {what}, {label} shows {bad}")
    pool.verify("growing apart", but=p)
    ctx.count("grown apart")


def skip_type(v):
    return tuple(i for k, i in enumerate(v) if k != 1) if isinstance(v, tuple) and v and v[0] == "program" else \
        tuple(skip_type(i) for i in v) if isinstance(v, tuple) else v


def integer_bounded(o):
    """Whether the (exact) region of the observed program is bounded."""
    lp = rounded_lp_of_obs(o)
    if lp.m > 6 or lp.n > 5:
        return False
    for j in range(lp.n):
        for s in (1, -1):
            q = lp.clone()
            q.c = [F(s * int(i == j)) for i in range(lp.n)]
            q.z = F(0)
            q.obj = "max"
            r = q.solve()
            if r[0] == "infeasible":
                return True
            if r[0] == "unbounded" or r[1] > 12:
                return False
    return few_branches(lp)


def few_branches(lp, cap=30):
    """Whether unpruned branching on every variable stays small (for exactly computed relaxations)."""
    todo, left = [lp], cap
    while todo:
        q = todo.pop()
        left -= 1
        if left < 0:
            return False
        r = q.solve()
        if r[0] != "optimal":
            continue
        k = next((j for j in range(q.n) if r[2][j].denominator != 1), None)
        if k is None:
            continue
        v = r[2][k].numerator // r[2][k].denominator
        for d, t in (("<=", v), (">=", v + 1)):
            w = q.clone()
            w.A.append([F(int(j == k)) for j in range(q.n)])
            w.b.append(F(t))
            w.ineq.append(d)
            todo.append(w)
    return True


def bounded_ip(rng, nmax=3, hi=5):
    """A program with a bounded region: random rows plus a bound for every variable."""
    n = rng.randint(1, nmax)
    m = rng.randint(1, 3)
    free, neg = gen.signs(rng, n)
    mode = rng.choice(["small", "small", "pos", "sparse", "half"])
    A, _ = gen.matrix(rng, m, n, mode)
    ineq = [rng.choice(["<=", "<=", ">=", "="] if rng.random() < 0.4 else ["<=", "<=", ">="]) for _ in range(m)]
    x0 = [F(rng.randint(0, hi - 1)) for _ in range(n)]
    x0 = [-v if j in neg or (j in free and rng.random() < 0.5) else v for j, v in enumerate(x0)]
    b = []
    for i in range(m):
        v = dot(A[i], x0)
        s = F(rng.randint(0, 5), rng.choice([1, 1, 2]))
        if rng.random() < 0.15:
            s = -s
        b.append(v + s if ineq[i] == "<=" else v - s if ineq[i] == ">=" else v if rng.random() < 0.8 else v + F(1, 2))
    whole = rng.random() < 0.4
    if all(q == "<=" for q in ineq) and all(v > 0 for r in A for v in r) and not free and not neg:
        pass
    elif whole and not free:
        A.append([F(-1) if j in neg else F(1) for j in range(n)])
        ineq.append("<=")
        b.append(F(rng.randint(1, 2 * hi)) if rng.random() < 0.7 else F(2 * hi + 1, 2))
    else:
        for j in range(n):
            u = F(rng.randint(1, hi)) + (F(1, 2) if rng.random() < 0.3 else 0)
            e = [F(int(i == j)) for i in range(n)]
            if j not in neg:
                A.append(list(e))
                ineq.append("<=")
                b.append(u)
            if j in neg or j in free:
                A.append(list(e))
                ineq.append(">=")
                b.append(-u)
    if rng.random() < 0.4:
        order = list(range(len(b)))
        rng.shuffle(order)
        A, b, ineq = [A[i] for i in order], [b[i] for i in order], [ineq[i] for i in order]
    c = [gen.entry(rng, rng.choice(["small", "small", "half", "unit"])) for _ in range(n)]
    z = F(rng.choice([0, 0, 3, -7]))
    if rng.random() < 0.2:           # an objective in other units
        f = F(2) ** rng.choice([-12, -10, -8, -7, 9])
        c, z = [f * v for v in c], f * z
    return LP(A, b, c, z, rng.choice(["max", "min"]), ineq, free, neg)


# -------------------------------------------------------------------- L11
BAD_OPS = ["<", ">", "==", "=<", "", "≤", "!=", None, 1, "<= "]


@prop("L11", quick=3600, rule="Histories of 1..7 constraint and variable additions, valid and invalid, in place or "
      "not, over programs that were built, copied, dualised, converted to standard form or read from an integer "
      "program; after every call the attributes are compared with the reference model and at the end with the program "
      "built from scratch, which has to solve to the same outcome.  Distinct by start and history.",
      floors=[("added rows", 2200), ("added columns", 2200), ("refused", 1930), ("solved both", 830)])
def l11(ctx):
    rng = ctx.rng
    lp = gen.lp(rng, mmax=3, nmax=3) if rng.random() < 0.8 else gen.sef(rng, mmax=2, nmax=4)
    integer = rng.random() < 0.15
    p = build(ctx, lp, cls=IntegerProgram if integer else LinearProgram)
    how = rng.choice(["built", "built", "copy", "dual", "sef", "sef in place", "canonical", "solved"])
    if how == "copy":
        p = ctx.must("copy", p.copy)
    elif how == "dual" and not integer:
        p = ctx.must("dual", p.dual)
    elif how == "sef" and not integer:
        p = ctx.must("to_sef", p.to_sef)
    elif how == "sef in place" and not integer:
        ctx.must("to_sef", p.to_sef, in_place=True)
    elif how == "solved":
        ctx.must("solve", p.solve)
    elif how == "canonical" and lp.is_sef:
        B = all_bases(lp.A)
        if B:
            p = ctx.must("to_canonical_form", p.to_canonical_form, [j + 1 for j in rng.choice(B)])
    model = lp_of_obs(observe(ctx, p))
    note_lp(ctx, lp, start=how, integer=integer)
    ctx.nontrivial = True
    hist = []
    for _ in range(rng.randint(1, 7)):
        n, m = model.n, model.m
        inp = rng.random() < 0.5
        bad = rng.random() < 0.3
        before = observe(ctx, p)
        num_ = lambda: F(rng.randint(-4, 4), rng.choice([1, 1, 2])) if rng.random() < 0.97 else \
            F(float(f"{rng.randint(-3, 3)}.{rng.randint(10 ** 8, 10 ** 13)}"))      # many decimals
        real = lambda v: rng.choice([float, np.float64])(float(v)) if v.denominator > 1 or rng.random() < 0.5 else \
            rng.choice([int, np.int64])(int(v))
        conv = lambda v: (lambda w: w if rng.random() < 0.5 else np.array(w, dtype=rng.choice([float, float, int])
                          if all(t == int(t) for t in w) else float))([float(t) if rng.random() < 0.7 or t.denominator > 1
                                                                       else int(t) for t in v])
        if rng.random() < 0.5:
            row = [num_() for _ in range(n)]
            q = rng.choice(["=", "<=", ">="])
            v = num_() * rng.choice([1, 3])
            args = [conv(row), q, real(v)]
            if bad:
                w = rng.choice(["short", "long", "2d", "op", "op", "text", "value"])
                if w == "short":
                    args[0] = [1.0] * (n - 1) if n > 1 else [1.0] * (n + 2)
                elif w == "long":
                    args[0] = [1.0] * (n + rng.randint(1, 2))
                elif w == "2d":
                    args[0] = [[1.0] * n]
                elif w == "op":
                    args[1] = rng.choice(BAD_OPS)
                elif w == "text":
                    args[0] = rng.choice(["row", ["1"] * n, None, 5])
                else:
                    args[2] = rng.choice(["3", None, [1.0, 2.0], {}])
            what = f"add_constraint({short(args[0], 80)}, {args[1]!r}, {args[2]!r}, in_place={inp})"
            fn = p.add_constraint
        else:
            cj = num_()
            col = [num_() for _ in range(m)] if rng.random() < 0.8 else None
            free, neg = rng.choice([(False, False), (False, False), (True, False), (False, True)])
            if bad:
                w = rng.choice(["short", "long", "both", "both", "text", "coefficient"])
                args = dict(coefficient=float(cj), column=None if col is None else conv(col), free=free, negative=neg)
                if w == "short":
                    args["column"] = [1.0] * (m - 1) if m > 1 else [1.0] * (m + 2)
                elif w == "long":
                    args["column"] = [1.0] * (m + 1)
                elif w == "both":
                    args.update(free=True, negative=True)
                elif w == "text":
                    args["column"] = rng.choice(["col", ["1"] * m, [[1.0] * m]])
                else:
                    args["coefficient"] = rng.choice(["3", None, [1.0], {}])
            else:
                args = dict(coefficient=real(cj), column=None if col is None else conv(col), free=free, negative=neg)
                for k, d in (("free", False), ("negative", False), ("column", None)):
                    if args[k] is d and rng.random() < 0.5:
                        args.pop(k)
            what = f"add_variable({short(args, 120)}, in_place={inp})"
            fn = p.add_variable
        hist.append(what)
        pos, kws = (args, {}) if isinstance(args, list) else ((), args)
        if inp or rng.random() < 0.7:
            kws = dict(kws, in_place=inp)
        if bad:
            ctx.refuse(what, fn, *pos, **kws)
            diff = same_obs(before, observe(ctx, p))
            ctx.check(diff is None, lambda: f"the refused {what} changed the program: {diff}")
            ctx.count("refused")
            continue
        r = ctx.must(what, fn, *pos, **kws)
        if isinstance(args, list):
            model.A.append(list(row))
            model.b.append(v)
            model.ineq.append(q)
            ctx.count("added rows")
        else:
            for i in range(m):
                model.A[i].append(col[i] if col is not None else F(0))
            model.c.append(cj)
            (model.free.add(n) if free else model.neg.add(n) if neg else None)
            ctx.count("added columns")
        if inp:
            ctx.check(r is p, f"{what} did not return the program itself")
        else:
            ctx.check(r is not p, f"{what} returned the program itself")
            diff = same_obs(before, observe(ctx, p))
            ctx.check(diff is None, lambda: f"{what} changed the original: {diff}")
        p = r
        diff = same_obs(observe(ctx, p), expected_obs(model))
        ctx.check(diff is None, lambda: f"after {what}: {diff}")
    ctx.sig(hist)
    fresh = build(ctx, model, style="float")
    ctx.check(same_obs(observe(ctx, p), observe(ctx, fresh)) is None, "differs from the program built from scratch")
    if max([abs(v) for r in model.A for v in r] + [F(0)]) < 60 and rng.random() < 0.6 and \
            any(any(r) for r in model.A):
        x, y = ctx.must("solve", p.solve, show_steps=False), ctx.must("solve from scratch", fresh.solve, show_steps=False)
        ctx.count("solved both")
        ctx.check((x is None) == (y is None), lambda: f"solves to {short(x)}, from scratch to {short(y)}")
        if x is not None:
            x, y = vec(x, model.n, "solution"), vec(y, model.n, "solution")
            a, b = (float(sum(float(c) * t for c, t in zip(model.c, v))) for v in (x, y))
            ctx.check(close(a, b, TOL, scale_of(model, x)), lambda: f"solves to value {a}, from scratch to {b}")
            t = feasible_tol(model, x)
            ctx.check(t is None, lambda: f"solution infeasible: {t}")


# -------------------------------------------------------------------- L12
@prop("L12", quick=63000, rule="Well-formed argument sets in every accepted style (lists, float/int arrays, "
      "non-contiguous and read-only arrays, index lists in any order or as arrays) must be accepted and reported back "
      "exactly; one single-fault corruption of the same set (dimension, raggedness, type, row type, objective, index "
      "range, duplicate, overlap) must be refused with a value error.  Distinct by arguments and fault.",
      floors=[("accepted", 28350), ("refused", 56700), ("faults seen", 56700)])
def l12(ctx):
    rng = ctx.rng
    lp = gen.lp(rng) if rng.random() < 0.85 else gen.sef(rng, independent=False)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    kw = args_of(lp, rng)
    if isinstance(kw["A"], np.ndarray):
        w = rng.random()
        if w < 0.15:
            kw["A"] = np.asfortranarray(kw["A"])
        elif w < 0.3:
            big = np.zeros((lp.m * 2, lp.n))
            big[::2] = kw["A"]
            kw["A"] = big[::2]
        elif w < 0.4:
            kw["A"].flags.writeable = False
            kw["b"].flags.writeable = False
        elif w < 0.5:
            kw["b"] = kw["b"].tolist()
    for k in ("free_variables", "negative_variables"):
        if rng.random() < 0.15:
            kw[k] = np.array(kw[k], dtype=int)
        elif not kw[k] and rng.random() < 0.4:
            kw[k] = None
    if all(q == "=" for q in lp.ineq) and rng.random() < 0.4:
        kw["inequalities"] = None
    p = ctx.must("LinearProgram(...)", LinearProgram, **kw)
    o = observe(ctx, p)
    diff = same_obs(o, expected_obs(lp))
    ctx.check(diff is None, lambda: f"the program reports back something else: {diff}")
    ctx.check(sorted(o["free"] + o["neg"] + o["pos"]) == list(range(1, lp.n + 1)), "sign classes do not partition the variables")
    ctx.check(len(o["inequalities"]) == lp.m, "number of row types")
    ctx.count("accepted")
    # positional use
    if rng.random() < 0.2:
        names = ["A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables"]
        q = ctx.must("LinearProgram(positional)", LinearProgram, *[kw[k] for k in names])
        ctx.check(same_obs(o, observe(ctx, q)) is None, "positional arguments mean something else")
    if rng.random() < 0.2:
        q = ctx.must("LinearProgram(A, b, c)", LinearProgram, kw["A"], kw["b"], kw["c"])
        diff = same_obs(observe(ctx, q), expected_obs(LP(lp.A, lp.b, lp.c)))
        ctx.check(diff is None, lambda: f"defaults: {diff}")
    m, n = lp.m, lp.n
    A = [[float(v) for v in r] for r in lp.A]
    b = [float(v) for v in lp.b]
    c = [float(v) for v in lp.c]
    arr = (lambda v: np.array(v)) if rng.random() < 0.5 else (lambda v: v)
    free, neg = sorted(j + 1 for j in lp.free), sorted(j + 1 for j in lp.neg)
    ineq = list(lp.ineq)

    def put(lst, v):
        out = list(lst)
        out.insert(rng.randint(0, len(out)), v)
        return out
    i, j = rng.randrange(m), rng.randrange(n)
    ragged = [list(r) for r in A]
    ragged[i] = ragged[i] + [1.0] if rng.random() < 0.5 or n == 1 else ragged[i][:-1]
    texty = [list(r) for r in A]
    texty[i][j] = rng.choice(["1", None, "x", {}, 1j])
    deep = [list(r) for r in A]
    deep[i][j] = [1.0]
    faults = [
        ("A 1-d", dict(A=arr(A[0]))), ("A 3-d", dict(A=np.array([A]))), ("A text", dict(A="matrix")), ("A none", dict(A=None)),
        ("A number", dict(A=3.0)), ("A entry", dict(A=texty)), ("A nested", dict(A=deep)), ("A dict", dict(A={})),
        ("A text array", dict(A=np.array([["a"] * n] * m))),
        ("A extra row", dict(A=arr(A + [[1.0] * n]))), ("A extra column", dict(A=arr([r + [1.0] for r in A]))),
        ("b long", dict(b=arr(b + [1.0]))), ("c long", dict(c=arr(c + [1.0]))),
        ("b 2-d", dict(b=arr([b]))), ("c 2-d", dict(c=arr([c]))), ("b column", dict(b=arr([[v] for v in b]))),
        ("b text", dict(b="b")), ("c none", dict(c=None)), ("b entry", dict(b=put(b[:-1], "1"))),
        ("c entry", dict(c=put(c[:-1], None))), ("b number", dict(b=1.0)),
        ("objective", dict(objective=rng.choice(["Max", "maximize", "", None, "MIN", 1, "minmax", True]))),
        ("inequalities long", dict(inequalities=ineq + ["<="])),
        ("inequalities short", dict(inequalities=ineq[:-1])),
        ("inequality unknown", dict(inequalities=ineq[:i] + [rng.choice(["<", ">", "==", "=<", "", "≤", None, 0, ">>="])] + ineq[i + 1:])),
        ("inequalities None entry", dict(inequalities=[None] * m)),
        ("free 0", dict(free_variables=put(free, 0))), ("free high", dict(free_variables=put(free, n + 1))),
        ("free -1", dict(free_variables=put(free, -rng.randint(1, n)))),
        ("negative 0", dict(negative_variables=put(neg, 0))), ("negative high", dict(negative_variables=put(neg, n + 1))),
        ("negative -1", dict(negative_variables=put(neg, -1))),
        ("free fraction", dict(free_variables=put([v for v in free if v != 1], 1.5))),
        ("negative text", dict(negative_variables=put(neg, "1"))),
        ("overlap", dict(free_variables=put([v for v in free if v != j + 1], j + 1), negative_variables=put([v for v in neg if v != j + 1], j + 1))),
        ("free duplicate", dict(free_variables=put(put([v for v in free if v != j + 1], j + 1), j + 1),
                                negative_variables=[v for v in neg if v != j + 1])),
        ("negative duplicate", dict(negative_variables=put(put([v for v in neg if v != j + 1], j + 1), j + 1),
                                    free_variables=[v for v in free if v != j + 1])),
    ]
    if m > 1:
        faults.append(("A ragged", dict(A=ragged)))
        faults.append(("A mixed", dict(A=A[:-1] + [1.0])))
        faults.append(("b short", dict(b=arr(b[:-1]))))
        faults.append(("A missing row", dict(A=arr(A[:-1]))))
    if n > 1:
        faults.append(("c short", dict(c=arr(c[:-1]))))
        faults.append(("A missing column", dict(A=arr([r[:-1] for r in A]))))
    for name, ch in rng.sample(faults, 2):
        good = dict(A=A, b=b, c=c, z=float(lp.z), objective=lp.obj, inequalities=ineq, free_variables=free, negative_variables=neg)
        good.update(ch)
        ctx.sig(name, ch)
        ctx.count("faults seen")
        ctx.refuse(f"LinearProgram with fault: {name}: {short(ch)}", LinearProgram, kinds=(ValueError,), **good)
        ctx.count("refused")


# -------------------------------------------------------------------- L13
NUM = r"-?\d+\.\d*(?:e[+-]?\d+)?"
SUB = str.maketrans("₀₁₂₃₄₅₆₇₈₉", "0123456789")


def check_number(ctx, text, v, what):
    ctx.check(re.fullmatch(NUM, text) is not None, lambda: f"{what}: {text!r} is not a number")
    got = float(text)
    ctx.count("numbers shown")
    if abs(v) < 1e-10:
        ctx.check(got == 0, lambda: f"{what}: {v!r} shown as {text}")
        return
    sci = "e" in text
    if sci:
        ctx.check(abs(v) > 9e9 or abs(v) < 2e-3, lambda: f"{what}: scientific notation for {v!r}: {text}")
        ctx.count("scientific")
    mant = text.split("e")[0]
    digits = len(mant.split(".")[1])
    # half a unit of the last place shown, for each of two roundings
    ex = int(text.split("e")[1]) if sci else 0
    if abs(v - round(v)) < 1e-10 and not sci:
        ctx.check(abs(got - v) <= 1e-9 + 1e-15 * abs(v), lambda: f"{what}: {v!r} shown as {text}")
        return
    if sci:
        ok = abs(got - v) <= 1.02 * 10.0 ** (ex - digits)
        rel = abs(got - v) / abs(v)
        ctx.check(ok and rel <= 5.1e-3 / 5, lambda: f"{what}: {v!r} shown as {text}")
    elif abs(v) >= 1:
        ctx.check(abs(got - v) <= 0.000501 + 1e-15 * abs(v), lambda: f"{what}: {v!r} shown as {text}")
    else:
        ctx.check(abs(got - v) <= 0.00501 * abs(v), lambda: f"{what}: {v!r} shown as {text}")
    if got != 0 or abs(v) > 1e-9:
        ctx.check((got < 0) == (v < 0), lambda: f"{what}: sign of {v!r} shown as {text}")


def varied(rng):
    w = rng.random()
    s = rng.choice([1, -1])
    if w < 0.25:
        return float(s * rng.randint(0, 12))
    if w < 0.32:
        return float(s * 10 ** rng.randint(0, 15))
    if w < 0.5:
        return s * round(rng.uniform(0, 100), rng.randint(1, 4))
    if w < 0.75:
        return s * rng.uniform(1, 10) * 10.0 ** rng.randint(-12, 30)
    if w < 0.85:
        return s * rng.choice([0.5, 0.9999, 0.99999, 0.0001, 0.001, 0.00099999, 0.01, 0.1, 1e-4, 9.9999e-5, 0.1234567,
                               999.9996, 1e10, 1.0000001e10, 9999999999.5, 1.0005, 2.9999, 1.99996, 0.9996, 123456.7891])
    if w < 0.87:
        v = rng.randint(0, 300)                   # an integer up to the rounding of a computation
        return s * (v + rng.choice([-1, 1]) * rng.choice([1e-13, 1e-14 * v, 2e-15 * v, 3e-12, 1e-11]))
    if w < 0.93:
        return s * rng.choice([1e-12, 5e-11, 2e-10, 3e-8, 1e-10 * 1.5, 0.0, -0.0])
    return s * rng.uniform(0, 1) * 10.0 ** rng.randint(-4, 0)


@prop("L13", quick=36000, rule="Programs whose entries range over 1e-12..1e30, both signs, integral or not, powers of "
      "ten and rounding edges, up to 14 variables; the printed text is parsed back and every number, row type, "
      "direction, constant, sign list and decimal point position compared with the stored value.  Distinct by text.",
      floors=[("numbers shown", 268140), ("scientific", 42450), ("constant shown", 9010), ("many variables", 1420)])
def l13(ctx):
    rng = ctx.rng
    m = rng.choice([1, 2, 2, 3, 3, 4, 5]) if rng.random() < 0.96 else 0
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 12, 14] if rng.random() < 0.4 else [1, 2, 3, 4])
    gen1 = (lambda: varied(rng)) if rng.random() < 0.7 else (lambda: float(rng.randint(-20, 20)))
    A = [[gen1() for _ in range(n)] for _ in range(m)]
    b = [gen1() for _ in range(m)]
    c = [gen1() for _ in range(n)]
    z = rng.choice([0, 0.0, gen1(), gen1(), -3, 2.5, 1e-12])
    ineq = gen.ineqs(rng, m)
    w = rng.choice(["mixed", "mixed", "all free", "all neg", "all pos", "one neg", "one pos"])
    cls = [rng.choice("fnp") for _ in range(n)] if w == "mixed" else \
        ["f"] * n if w == "all free" else ["n"] * n if w == "all neg" else ["p"] * n
    if w == "one neg":
        cls[rng.randrange(n)] = "n"
    elif w == "one pos":
        cls = [rng.choice("fn") for _ in range(n)]
        cls[rng.randrange(n)] = "p"
    free = [j + 1 for j in range(n) if cls[j] == "f"]
    neg = [j + 1 for j in range(n) if cls[j] == "n"]
    pos = [j + 1 for j in range(n) if cls[j] == "p"]
    obj = rng.choice(["max", "min"])
    cl = IntegerProgram if rng.random() < 0.06 else LinearProgram
    p = ctx.must("build", cl, np.array(A).reshape(m, n), np.array(b), np.array(c), z, obj, ineq, free, neg)
    before = observe(ctx, p)
    text = ctx.must("str", str, p)
    ctx.check(same_obs(before, observe(ctx, p)) is None, "printing changed the program")
    ctx.note(text=text)
    ctx.sig(text, A, b, c)
    ctx.nontrivial = True
    if n > 9:
        ctx.count("many variables")
    if cl is IntegerProgram:
        text = re.sub(r"x ∈ Z$", "", text)
    lines = text.split("\n")
    h = re.fullmatch(r"(Max|Min) \[(.*)\]x(?: ([+-]) (\S+))?", lines[0])
    ctx.check(h is not None, lambda: f"first line {lines[0]!r}")
    ctx.check(h.group(1).lower() == obj, lambda: f"direction {h.group(1)} for {obj}")
    cs = h.group(2).split()
    ctx.check(len(cs) == n, lambda: f"objective shows {len(cs)} coefficients: {lines[0]}")
    for j in range(n):
        check_number(ctx, cs[j], c[j], f"objective coefficient {j + 1}")
    if h.group(3):
        check_number(ctx, h.group(4), abs(z), "constant")
        ctx.check((h.group(3) == "-") == (z < 0), lambda: f"sign of the constant {z}: {lines[0]}")
        ctx.count("constant shown")
    else:
        ctx.check(abs(z) < 1e-9, lambda: f"constant {z} not shown: {lines[0]}")
    rows = [l for l in lines[1:] if l.startswith("[")]
    ctx.check(len(rows) == m, lambda: f"{len(rows)} rows shown for {m}")
    sym = {"=": "=", "<=": "≤", ">=": "≥"}
    dots = []
    for i, l in enumerate(rows):
        g = re.fullmatch(r"\[(.*)\](x?)\s+([=≤≥])\s+\[(.*)\]", l)
        ctx.check(g is not None, lambda: f"row line {l!r}")
        es = g.group(1).split()
        ctx.check(len(es) == n, lambda: f"row {i + 1} shows {len(es)} entries: {l}")
        for j in range(n):
            check_number(ctx, es[j], A[i][j], f"entry ({i + 1},{j + 1})")
        ctx.check(g.group(3) == sym[ineq[i]], lambda: f"row {i + 1} has type {ineq[i]}: {l}")
        check_number(ctx, g.group(4).strip(), b[i], f"right-hand side {i + 1}")
        dots.append([k for k, ch in enumerate(l) if ch == "."])
    ctx.check(all(d == dots[0] for d in dots), lambda: "decimal points do not line up:\n" + "\n".join(rows))
    ctx.check(sum("]x" in r for r in rows) == (m > 0), "the x between matrix and right-hand side")
    want = {"≤": set(neg), "≥": set(pos)}
    seen = {"≤": None, "≥": None}
    for l in lines[1:]:
        if l.startswith("[") or not l.strip() or l.startswith("Subject To"):
            continue
        g = re.fullmatch(r"(x(?:[₀-₉]+(?:, x[₀-₉]+)*)?) ([≤≥]) 0", l.strip())
        ctx.check(g is not None, lambda: f"unexpected line {l!r}")
        ctx.check(seen[g.group(2)] is None, lambda: f"two lines for {g.group(2)}")
        idx = list(range(1, n + 1)) if g.group(1) == "x" else [int(t.strip()[1:].translate(SUB)) for t in g.group(1).split(",")]
        ctx.check(len(set(idx)) == len(idx), lambda: f"repeated variable in {l!r}")
        seen[g.group(2)] = set(idx)
    for s in ("≤", "≥"):
        ctx.check((seen[s] or set()) == want[s], lambda: f"x {s} 0 shown for {seen[s]}, holds for {sorted(want[s])}")


# -------------------------------------------------------------------- L14
def is_rref_exact(M):
    return rref(M)[0] == [list(map(fr, r)) for r in M]


@prop("L14", quick=64000, rule="Matrices up to 5x6 of every rank (products of thin factors, repeated, zero and "
      "proportional rows and columns, unit matrices, fractions), reduced by the package and exactly; the recognition "
      "query is asked about the reduced matrix, single-fault corruptions of it and random matrices.  Distinct by matrix.",
      floors=[("rank deficient", 13580), ("tall", 9540), ("recognised", 46800), ("not recognised", 39500), ("in other units", 900)])
def l14(ctx):
    rng = ctx.rng
    m, n = rng.randint(1, 5), rng.randint(1, 6)
    mode = rng.choice(["small", "unit", "sparse", "half", "pos"])
    M, _ = gen.matrix(rng, m, n, mode)
    if rng.random() < 0.5 and min(m, n) > 1:
        k = rng.randint(1, min(m, n) - 1)
        L, _ = gen.matrix(rng, m, k, "unit" if rng.random() < 0.5 else "small")
        R, _ = gen.matrix(rng, k, n, "sparse" if rng.random() < 0.5 else "small")
        M = [[dot(L[i], [R[t][j] for t in range(k)]) for j in range(n)] for i in range(m)]
    if rng.random() < 0.15:
        M[rng.randrange(m)] = [F(0)] * n
    if rng.random() < 0.15:
        j = rng.randrange(n)
        for r in M:
            r[j] = F(0)
    if rng.random() < 0.1:
        M = rref(M)[0]
        if rng.random() < 0.5:
            rng.shuffle(M)
    if mode in ("unit", "sparse") and m < 4 and n < 5 and rng.random() < 0.2:
        # a row or a column in other units
        f = F(2) ** rng.choice([-18, -17, -17, -12, 10, 14])
        if rng.random() < 0.6:
            i = rng.randrange(m)
            M[i] = [f * v for v in M[i]]
        else:
            j = rng.randrange(n)
            M = [[f * v if k == j else v for k, v in enumerate(r)] for r in M]
        ctx.count("in other units")
    ctx.note(matrix=str([[str(v) for v in r] for r in M]))
    ctx.sig(M)
    ctx.nontrivial = True
    R, piv = rref(M)
    if len(piv) < min(m, n):
        ctx.count("rank deficient")
    if m > n:
        ctx.count("tall")
    integral = all(v.denominator == 1 for r in M for v in r)
    arr = np.array([[float(v) for v in r] for r in M])
    if integral and rng.random() < 0.4:
        arr = arr.astype(int)
    s = snap(arr)
    p = ctx.must("LinearProgram", LinearProgram, arr, np.zeros(m), np.zeros(n))
    o = observe(ctx, p)
    own = rng.random() < 0.3
    r = ctx.must("to_rref", p.to_rref, p.A if own else arr)
    ctx.check(snap(arr) == s, "row reduction changed the given matrix")
    ctx.check(same_obs(o, observe(ctx, p)) is None, "row reduction changed the program")
    r = np.asarray(r)
    ctx.check(r.shape == (m, n), lambda: f"result has shape {r.shape}")
    want = np.array([[float(v) for v in row] for row in R])
    ctx.check(np.allclose(r.astype(float), want, rtol=1e-6, atol=1e-7), lambda: f"reduced to {r.tolist()}, RREF is {want.tolist()}")
    cand = [("reduced", [list(q) for q in R]), ("itself", M)]
    C = [list(q) for q in R]
    w = rng.choice(["entry", "swap", "scale", "add", "copy row", "permute columns"])
    if w == "entry":
        C[rng.randrange(m)][rng.randrange(n)] += rng.choice([F(1), F(-1), F(1, 2), F(1, 1000)])
    elif w == "swap" and m > 1:
        i, k = rng.sample(range(m), 2)
        C[i], C[k] = C[k], C[i]
    elif w == "scale":
        i = rng.randrange(m)
        f = rng.choice([F(2), F(-1), F(1, 2)])
        C[i] = [f * v for v in C[i]]
    elif w == "add" and m > 1:
        i, k = rng.sample(range(m), 2)
        C[i] = [a + v for a, v in zip(C[i], C[k])]
    elif w == "copy row" and m > 1:
        i, k = rng.sample(range(m), 2)
        C[i] = list(C[k])
    elif w == "permute columns":
        o2 = list(range(n))
        rng.shuffle(o2)
        C = [[q[j] for j in o2] for q in C]
    cand.append((w, C))
    for name, C in cand:
        yes = is_rref_exact(C)
        q = ctx.must("LinearProgram", LinearProgram, np.array([[float(v) for v in row] for row in C]), np.zeros(m), np.zeros(n))
        got = truth(ctx.must("is_in_rref", lambda: q.is_in_rref), "is_in_rref")
        ctx.check(got == yes, lambda: f"is_in_rref answered {got} for {[[float(v) for v in row] for row in C]} ({name})")
        ctx.count("recognised" if yes else "not recognised")
    q = ctx.must("LinearProgram", LinearProgram, r.astype(float), np.zeros(m), np.zeros(n))
    got = truth(ctx.must("is_in_rref", lambda: q.is_in_rref), "is_in_rref")
    ctx.check(got, lambda: f"the computed reduced form is not recognised: {r.tolist()}")


# -------------------------------------------------------------------- L15
def reference_dual(lp):
    free, neg = set(), set()
    for i, q in enumerate(lp.ineq):
        if q == "=":
            free.add(i)
        elif (q == ">=") == (lp.obj == "max"):
            neg.add(i)
    ineq = []
    for j in range(lp.n):
        if j in lp.free:
            ineq.append("=")
        else:
            ineq.append(">=" if (j not in lp.neg) == (lp.obj == "max") else "<=")
    return LP([[lp.A[i][j] for i in range(lp.m)] for j in range(lp.n)], lp.c, lp.b, F(0),
              "min" if lp.obj == "max" else "max", ineq, free, neg)


def parse_conditions(ctx, text):
    """{(kind, index): ({index: coefficient}, rhs)}"""
    out = {}
    t = text.translate(SUB)
    for line in t.split("\n"):
        if not line.strip():
            continue
        g = re.fullmatch(r"\s*([xy])(\d+)\s*=\s*0\s*\|\|\s*(.*?)\s*=\s*(\S+)\s*", line)
        ctx.check(g is not None, lambda: f"condition {line!r} not understood")
        var = "y" if g.group(1) == "x" else "x"
        co = {}
        body = g.group(3)
        terms = re.findall(r"([+-]?)\s*([+-]?\d[\d.]*(?:e[+-]?\d+)?|inf|nan)\s*([xy])(\d+)", body)
        used = re.sub(r"([+-]?)\s*([+-]?\d[\d.]*(?:e[+-]?\d+)?)\s*([xy])(\d+)", "", body).strip()
        ctx.check(not used, lambda: f"condition {line!r} not understood: {used!r}")
        for sg, v, q, k in terms:
            ctx.check(q == var, lambda: f"mixed variables in {line!r}")
            val = float(v) * (-1 if sg == "-" else 1)
            ctx.check(int(k) not in co, lambda: f"repeated term in {line!r}")
            co[int(k)] = val
        key = (g.group(1), int(g.group(2)))
        ctx.check(key not in out, lambda: f"two conditions for {key}")
        out[key] = (co, float(g.group(4)))
    return out


@prop("L15", quick=36000, rule="Programs over every mix of objective, row types and signs, up to 12 variables; the "
      "printed conditions are parsed and compared entry by entry with the rows of the program and of its dual, then "
      "evaluated at exact optimal primal-dual pairs.  Distinct by program.",
      floors=[("conditions", 85070), ("optimal pairs", 5800), ("many variables", 1260)])
def l15(ctx):
    rng = ctx.rng
    if rng.random() < 0.08:
        n, m = rng.randint(10, 13), rng.randint(1, 12)
        A, _ = gen.matrix(rng, m, n)
        f, ng = gen.signs(rng, n)
        lp = LP(A, gen.matrix(rng, 1, m, "half")[0][0], gen.matrix(rng, 1, n, "half")[0][0], 0, rng.choice(["max", "min"]),
                gen.ineqs(rng, m), f, ng)
        ctx.count("many variables")
        solve = False
    else:
        lp = gen.lp(rng, kind=rng.choice([None, "bounded", "degenerate"]), mmax=5, nmax=6)
        solve = True
    note_lp(ctx, lp)
    ctx.nontrivial = True
    p = build(ctx, lp)
    before = observe(ctx, p)
    text = ctx.must("cs_conditions", p.cs_conditions)
    ctx.check(isinstance(text, str), lambda: f"cs_conditions returned {short(text)}")
    ctx.check(same_obs(before, observe(ctx, p)) is None, "listing the conditions changed the program")
    got = parse_conditions(ctx, text)
    d = reference_dual(lp)
    want = {}
    for i in range(lp.m):
        if lp.ineq[i] != "=":
            want[("y", i + 1)] = (lp.A[i], lp.b[i])
    for j in range(lp.n):
        if j not in lp.free:
            want[("x", j + 1)] = (d.A[j], d.b[j])
    ctx.check(set(got) == set(want), lambda: f"conditions for {sorted(set(got) ^ set(want))} missing or superfluous")
    for k, (row, rhs) in want.items():
        co, r = got[k]
        ctx.count("conditions")
        ctx.check(set(co) <= set(range(1, len(row) + 1)), lambda: f"condition {k} names variables {sorted(co)}")
        for t, v in enumerate(row, 1):
            ctx.check(close(co.get(t, 0.0), v, 1e-12), lambda: f"condition {k}: coefficient {t} is {co.get(t, 0.0)}, should be {float(v)}")
        ctx.check(close(r, rhs, 1e-12), lambda: f"condition {k}: right-hand side {r}, should be {float(rhs)}")
    if solve and rng.random() < 0.5:
        t = lp.solve()
        if t[0] == "optimal":
            u = d.solve()
            assert u[0] == "optimal"
            x, y = t[2], u[2]
            for (kind, k), (co, r) in got.items():
                me, other = (x, y) if kind == "x" else (y, x)
                if me[k - 1] != 0:
                    lhs = sum(v * float(other[i - 1]) for i, v in co.items())
                    sc = sum(abs(v * float(other[i - 1])) for i, v in co.items())
                    ctx.check(close(lhs, r, 1e-9, sc), lambda: f"condition {kind}{k} fails at an optimal pair: {lhs} vs {r}")
            ctx.count("optimal pairs")


# -------------------------------------------------------------------- L16
@prop("L16", quick=8000, numeric=True, rule="Pairs of programs: copies, rebuilt programs, the same content reached by edits, and "
      "pairs differing in exactly one entry, sign class, row type, direction, constant or in shape (also by one ulp); "
      "== and != in both orders must be plain booleans matching the ingredients.  Distinct by pair.",
      floors=[("equal pairs", 10430), ("different pairs", 15560)])
def l16(ctx):
    rng = ctx.rng
    lp = gen.lp(rng, mmax=4, nmax=5) if rng.random() < 0.8 else gen.sef(rng, mmax=3, nmax=5, independent=False)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    p = build(ctx, lp, style="float")

    def compare(q, want, what):
        for a, b, o in ((p, q, ""), (q, p, " (other order)")):
            r = ctx.must(f"== {what}", lambda: a == b)
            ctx.check(type(r) in (bool, np.bool_) and bool(r) == want, lambda: f"{what}{o}: == answered {short(r)}, expected {want}")
            r = ctx.must(f"!= {what}", lambda: a != b)
            ctx.check(type(r) in (bool, np.bool_) and bool(r) != want, lambda: f"{what}{o}: != answered {short(r)}, expected {not want}")
        ctx.count("equal pairs" if want else "different pairs")

    compare(ctx.must("copy", p.copy), True, "its copy")
    compare(build(ctx, lp, style=rng.choice([None, "list", "float"])), True, "the same program built again")
    if rng.random() < 0.5:
        ctx.must("solve", p.solve)
        compare(ctx.must("copy", p.copy), True, "its copy after solving")
    if lp.m > 1 and rng.random() < 0.5:
        q = lp.clone()
        row, rhs, op = q.A.pop(), q.b.pop(), q.ineq.pop()
        q = build(ctx, q, style="float")
        compare(ctx.must("add_constraint", q.add_constraint, [float(v) for v in row], op, float(rhs)), True, "the program reached by an edit")
        compare(q, False, "the program without its last row")
    exp = expected_obs(lp)
    base = dict(A=exp["A"].copy(), b=exp["b"].copy(), c=exp["c"].copy(), z=exp["z"], objective=lp.obj,
                inequalities=list(lp.ineq), free_variables=exp["free"], negative_variables=exp["neg"])

    def tweak(v):
        return rng.choice([lambda: v + 1, lambda: -v if v else 2.0, lambda: np.nextafter(v, v + 1) if abs(v) > 1e-3 else v + 1e-9,
                           lambda: v + 1e-7])()
    for what in rng.sample(["A", "b", "c", "z", "objective", "inequality", "sign", "row", "column", "A", "swap rows"], 4):
        d = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in base.items()}
        i, j = rng.randrange(lp.m), rng.randrange(lp.n)
        if what == "A":
            d["A"][i, j] = tweak(d["A"][i, j])
        elif what == "b":
            d["b"][i] = tweak(d["b"][i])
        elif what == "c":
            d["c"][j] = tweak(d["c"][j])
        elif what == "z":
            d["z"] = tweak(d["z"])
        elif what == "objective":
            d["objective"] = "min" if lp.obj == "max" else "max"
        elif what == "inequality":
            d["inequalities"][i] = rng.choice([q for q in ("=", "<=", ">=") if q != lp.ineq[i]])
        elif what == "sign":
            cur = "f" if j in lp.free else "n" if j in lp.neg else "p"
            new = rng.choice([k for k in "fnp" if k != cur])
            d["free_variables"] = [k for k in d["free_variables"] if k != j + 1] + ([j + 1] if new == "f" else [])
            d["negative_variables"] = [k for k in d["negative_variables"] if k != j + 1] + ([j + 1] if new == "n" else [])
        elif what == "row":
            d["A"] = np.vstack([d["A"], d["A"][-1:]])
            d["b"] = np.append(d["b"], d["b"][-1])
            d["inequalities"].append("=")
        elif what == "column":
            d["A"] = np.hstack([d["A"], d["A"][:, -1:]])
            d["c"] = np.append(d["c"], d["c"][-1])
        elif what == "swap rows":
            if lp.m < 2:
                continue
            k = rng.choice([t for t in range(lp.m) if t != i])
            d["A"][[i, k]] = d["A"][[k, i]]
            d["b"][[i, k]] = d["b"][[k, i]]
            q = d["inequalities"]
            q[i], q[k] = q[k], q[i]
            if np.array_equal(d["A"], base["A"]) and np.array_equal(d["b"], base["b"]) and q == base["inequalities"]:
                continue
        q = ctx.must("LinearProgram", LinearProgram, **d)
        ctx.sig(what, str(d))
        compare(q, False, f"a program that differs in {what}")


# -------------------------------------------------------------------- L17
def relatives(ctx, p, lp, read):
    """Steps belong to the program that recorded them: recording on a relative leaves the others alone."""
    rng = ctx.rng
    n = len(p.c)
    row = [float(rng.randint(-3, 3)) for _ in range(n)]
    how, make = rng.choice([
        ("copy()", lambda o: o.copy()), ("copy()", lambda o: o.copy()), ("to_sef()", lambda o: o.to_sef()),
        ("add_constraint()", lambda o: o.add_constraint(row, "<=", 3)), ("add_variable()", lambda o: o.add_variable(2)),
        ("dual()", lambda o: o.dual()), ("clear_steps()", lambda o: o.clear_steps())])
    a = p
    if rng.random() < 0.3 and lp.n == n:
        a = build(ctx, lp, cls=IntegerProgram, style="float", plain=True)
        ctx.attempt("is_feasible", a.is_feasible, [0.0] * n)
    if rng.random() < 0.3:
        a = ctx.must("copy()", a.copy)
    b = ctx.must(how, make, a)
    if b is a:
        return
    for o, other, name in ((b, a, "the program it came from"), (a, b, "its relative")):
        before, own = read(other), read(o)
        ctx.must("is_feasible (recording)", o.is_feasible, [float(rng.randint(0, 2)) for _ in range(len(o.c))])
        ctx.check(read(other) == before,
                  lambda: f"after {how}, recording on one program added {len(read(other)) - len(before)} steps to {name}")
        ctx.check(read(o)[:len(own)] == own, f"after {how}: earlier steps changed")
        ctx.count("relatives recorded")


@prop("L17", quick=5600, rule="The same call on two identical programs, recording requested on one and declined on the "
      "other, in histories of 5 calls over every operation with a recording switch: results and contents must agree, "
      "the declined side gains no step, the recording side only appends; the text view equals the joined texts; "
      "clearing in place and on a copy.  Distinct by program and history.",
      floors=[("pairs of calls", 12600), ("steps recorded", 22210), ("cleared", 2520), ("relatives recorded", 5040)])
def l17(ctx):
    rng = ctx.rng
    lp = gen.lp(rng, mmax=4, nmax=5) if rng.random() < 0.45 else gen.sef(rng, mmax=3, nmax=6)
    note_lp(ctx, lp)
    ctx.nontrivial = True
    style = rng.choice(["float", "list"])
    p, q = build(ctx, lp, style=style, plain=True), build(ctx, lp, style=style, plain=True)
    read = lambda o: [dict(s) for s in ctx.must("steps", lambda: o.steps)]
    hist = []
    feas = []
    if lp.is_sef and rank(lp.A) == lp.m:
        feas = [B for B in all_bases(lp.A)]
        good = [B for B in feas if all(v >= 0 for v in basic_solution(lp.A, lp.b, B))]
        feas = good * 2 + feas
    for _ in range(5):
        m, n = len(q.b), len(q.c)
        B = [j + 1 for j in rng.choice(feas)] if feas and rng.random() < 0.9 and max(max(b) for b in feas) < n else \
            ([rng.randint(1, n) for _ in range(m)] if n < m else rng.sample(range(1, n + 1), m))
        x = [rng.randint(0, 3) / rng.choice([1, 2]) for _ in range(n)]
        if lp.n == n and rng.random() < 0.4:
            t = lp.solve()
            if t[0] != "infeasible":
                x = [float(v) for v in (t[2] if t[0] == "optimal" else t[1])]
        y = [float(rng.randint(-2, 2)) for _ in range(m)]
        ops = [("is_feasible", (x,), False), ("is_feasible", (x,), False), ("is_basic_solution", (x, B), False),
               ("to_canonical_form", (B,), True), ("dual", (), False), ("auxiliary", (), False), ("solve", (), False),
               ("two_phase_simplex", (), False), ("simplex", (B,), False), ("simplex_iteration", (B,), True),
               ("verify_infeasibility", (y,), False), ("verify_optimality", (y,), False),
               ("verify_unboundedness", (x, [float(rng.randint(0, 1)) for _ in range(n)]), False), ("to_sef", (), True)]
        op, args, can = rng.choice(ops)
        kw = {"in_place": True} if can and rng.random() < 0.3 else {}
        what = f"{op}{short(args, 100)}{kw or ''}"
        hist.append(what)
        s1, s2 = read(p), read(q)
        on = {"show_steps": True} if rng.random() < 0.7 else {}
        ok1, r1 = ctx.attempt(what + " recording", getattr(p, op), *args, **on, **kw)
        ok2, r2 = ctx.attempt(what, getattr(q, op), *args, show_steps=False, **kw)
        ctx.count("pairs of calls")
        ctx.check(ok1 == ok2, lambda: f"{what}: recording {short(r1)}, not recording {short(r2)}")
        if ok1:
            ctx.check(norm(r1) == norm(r2), lambda: f"{what}: recording {short(norm(r1))}, not recording {short(norm(r2))}")
        else:
            ctx.check(type(r1) is type(r2), lambda: f"{what}: recording {r1!r}, not recording {r2!r}")
        ctx.check(norm(p) == norm(q), lambda: f"{what}: recording changed the program's content")
        t1, t2 = read(p), read(q)
        ctx.check(t2 == s2, lambda: f"{what}: {len(t2) - len(s2)} steps added although declined: {short(t2[len(s2):])}")
        ctx.check(t1[:len(s1)] == s1, lambda: f"{what}: earlier steps changed")
        if ok2:
            for o in (r2 if isinstance(r2, tuple) else (r2,)):
                if isinstance(o, LinearProgram):
                    ctx.check(len(read(o)) <= len(s2), lambda: f"{what}: the returned program gained steps although declined")
        if can and not kw:
            ctx.check(t1 == s1, lambda: f"{what} on a copy: {len(t1) - len(s1)} steps added to the program itself")
        ctx.count("steps recorded", len(t1) - len(s1))
    ctx.sig(hist)
    relatives(ctx, p, lp, read)
    st = read(p)
    texts = [s["text"] for s in st]
    ctx.check(all(isinstance(t, str) for t in texts), "a step without text")
    s = ctx.must("steps_string", lambda: p.steps_string)
    ctx.check(isinstance(s, str) and s.strip() == "\n".join(texts).strip(), "steps_string is not the texts joined line by line")
    content = norm(p)
    if rng.random() < 0.5:
        c = ctx.must("clear_steps", p.clear_steps)
        ctx.check(c is not p and read(c) == [], lambda: f"clear_steps() returned a program with {len(read(c))} steps")
        ctx.check(read(p) == st, "clear_steps() on a copy changed the steps of the program")
        ctx.check(norm(c) == content, "clear_steps() changed the content of the copy")
        if rng.random() < 0.5:
            ctx.attempt("is_feasible", c.is_feasible, [0.0] * len(c.c))
            ctx.check(read(p) == st, "recording on the copy added steps to the program")
    else:
        c = ctx.must("clear_steps(in place)", p.clear_steps, in_place=True)
        ctx.check(c is p and read(p) == [], "clear_steps(in_place=True)")
        ctx.check(ctx.must("steps_string", lambda: p.steps_string) == "", "steps_string after clearing")
    ctx.check(norm(p) == content, "clear_steps changed the content of the program")
    ctx.count("cleared")


# -------------------------------------------------------------------- L18
def clip_region(lp, limit):
    """Exact vertices of the region clipped to the square; None if some line passes so close to a
    point that rounding may decide."""
    H = []
    for i in range(lp.m):
        a, v = lp.A[i], lp.b[i]
        H.append((a[0], a[1], v) if lp.ineq[i] == "<=" else (-a[0], -a[1], -v))
    L = abs(limit)
    H += [(F(1), F(0), L), (F(-1), F(0), L), (F(0), F(1), L), (F(0), F(-1), L)]
    for j in range(2):
        if j not in lp.free:
            s = F(1) if j in lp.neg else F(-1)
            H.append((s, F(0), F(0)) if j == 0 else (F(0), s, F(0)))
    H = [(p / t, q / t, r / t) for p, q, r in H for t in [max(abs(p), abs(q)) or F(1)]]
    pts = set()
    for i in range(len(H)):
        for k in range(i + 1, len(H)):
            a, b = H[i], H[k]
            det = a[0] * b[1] - a[1] * b[0]
            if det == 0:
                continue
            if abs(det) < F(1, 10 ** 5):
                return None
            x = (a[2] * b[1] - a[1] * b[2]) / det
            y = (a[0] * b[2] - a[2] * b[0]) / det
            ok = True
            for p, q, r in H:
                v = p * x + q * y - r
                if v > 0:
                    if v < F(1, 100) * (min(F(1), max(abs(p), abs(q))) or 1) + abs(r) * F(1, 1000):
                        return None
                    ok = False
            if ok:
                pts.add((x, y))
    return pts


def hull_cycle(pts):
    """Vertices in counterclockwise order."""
    pts = sorted(pts)
    if len(pts) <= 2:
        return pts
    cross = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    lo, up = [], []
    for p in pts:
        while len(lo) > 1 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    for p in reversed(pts):
        while len(up) > 1 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


def polygon_drawn(ctx, plt):
    """The corner sequence of the one polygon in the current figure."""
    figs = plt.get_fignums()
    ctx.check(len(figs) >= 1, "no figure was drawn")
    ax = plt.gcf().gca()
    polys = [np.asarray(p.get_xy(), dtype=float) for p in ax.patches]
    polys = [p for p in polys if p.ndim == 2 and p.shape[1] == 2]
    if not polys:
        polys = [np.asarray(l.get_xydata(), dtype=float) for l in ax.lines]
    ctx.check(len(polys) >= 1, "no polygon was drawn")
    return polys[-1], [np.asarray(l.get_xydata(), dtype=float) for l in ax.lines]


def dedupe(seq, tol):
    out = []
    for p in seq:
        if not out or max(abs(p[0] - out[-1][0]), abs(p[1] - out[-1][1])) > tol:
            out.append((float(p[0]), float(p[1])))
    while len(out) > 1 and max(abs(out[0][0] - out[-1][0]), abs(out[0][1] - out[-1][1])) <= tol:
        out.pop()
    return out


@prop("L18", quick=6000, rule="Two-variable systems of <= or >= rows (parallel, redundant, touching, empty, "
      "degenerate and unbounded ones, all sign restrictions, various squares); the polygon in the matplotlib figure is "
      "compared corner by corner and in order with the exactly clipped region.  Systems in which rounding may decide "
      "a corner are skipped.  Distinct by system and square.",
      floors=[("polygons", 2210), ("empty refused", 390), ("degenerate regions", 120), ("cut by the square", 1630), ("rows in other units", 310), ("rows in tiny units", 150)])
def l18(ctx):
    from matplotlib import pyplot as plt
    rng = ctx.rng
    m = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    mode = rng.choice(["small", "small", "unit", "pos", "half", "dec"])
    A, _ = gen.matrix(rng, m, 2, mode)
    q = rng.choice(["<=", ">="])
    limit = rng.choice([None, 1000, 100, 50, 10, F(15, 2), -20, 5, 1])
    L = abs(F(limit if limit is not None else 1000))
    free, neg = gen.signs(rng, 2)
    x0 = gen.point(rng, 2, free, neg, "half")
    w = rng.random()
    b = []
    for i in range(m):
        v = dot(A[i], x0)
        s = F(rng.choice([0, 1, 2, 5, 12, 100]))
        b.append(v + s if q == "<=" else v - s)
    if w < 0.15:
        b = [gen.entry(rng, "small") for _ in range(m)]
    elif w < 0.3 and m > 1:
        A[1] = [-v for v in A[0]]
        b[1] = -b[0] + F(rng.choice([0, 0, 1, -1, 3])) * (1 if q == "<=" else -1)
    elif w < 0.4 and m > 1:
        f = rng.choice([F(1), F(2), F(1, 2)])
        A[1] = [f * v for v in A[0]]
    elif w < 0.5:
        A[0] = [F(0), F(0)]
        b[0] = F(rng.choice([0, 1, -1])) if rng.random() < 0.4 else F(1 if q == "<=" else -1)
    if rng.random() < 0.12:      # other units per row
        low, high = rng.choice([(2, 7), (2, 7), (2, 24), (14, 24)])
        for i in range(m):
            f = F(1, 2 ** rng.randint(low, high)) if rng.random() < 0.8 else F(rng.choice([8, 64, 2 ** 20]))
            A[i] = [f * v for v in A[i]]
            b[i] *= f
        ctx.count("rows in other units")
        if high > 20:
            ctx.count("rows in tiny units")
    lp = LP(A, b, [F(1), F(2)], 0, rng.choice(["max", "min"]), [q] * m, free, neg)
    pts = clip_region(lp, L)
    if pts is None:
        raise Skip("a corner decided by rounding")
    # a zero row that fails leaves no point
    note_lp(ctx, lp, limit=str(limit))
    ctx.nontrivial = True
    p = build(ctx, lp)
    before = observe(ctx, p)
    plt.close("all")
    args = () if limit is None else (float(limit) if limit != int(limit) or rng.random() < 0.5 else int(limit),)
    if not pts:
        ctx.refuse("graph_polyhedron of an empty region", p.graph_polyhedron, *args)
        ctx.check(same_obs(before, observe(ctx, p)) is None, "plotting changed the program")
        ctx.count("empty refused")
        plt.close("all")
        return
    ctx.must("graph_polyhedron", p.graph_polyhedron, *args)
    ctx.check(same_obs(before, observe(ctx, p)) is None, "plotting changed the program")
    poly, lines = polygon_drawn(ctx, plt)
    plt.close("all")
    tol = 1e-6 * float(L + 1)
    want = [(float(x), float(y)) for x, y in hull_cycle(pts)]
    if any(abs(x) == L or abs(y) == L for x, y in pts):
        ctx.count("cut by the square")
    if len(want) < 3:
        ctx.count("degenerate regions")
    for k, seq in enumerate([poly] + lines[:1]):
        got = dedupe(seq, tol)
        near = lambda a, b: max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= tol
        for g in got:
            ctx.check(any(near(g, v) for v in want), lambda: f"{g} is drawn but is no corner of the region {want}")
        for v in want:
            ctx.check(any(near(g, v) for g in got), lambda: f"corner {v} of the region is not drawn: {got}")
        if len(want) >= 3:
            ctx.check(len(got) == len(want), lambda: f"drawn {got}, corners are {want}")
            s = next(i for i, g in enumerate(got) if near(g, want[0]))
            cyc = got[s:] + got[:s]
            rev = [cyc[0]] + cyc[1:][::-1]
            ctx.check(all(near(a, b) for a, b in zip(cyc, want)) or all(near(a, b) for a, b in zip(rev, want)),
                      lambda: f"corners drawn out of order: {got}, region {want}")
    ctx.count("polygons")
