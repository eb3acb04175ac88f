"""I01, I02: integer programs."""
from fractions import Fraction as F

import numpy as np

import gen
from core import Skip, prop, short
from exact import LP, dot, feasible_tol, solve_ip
from lpio import IntegerProgram, LinearProgram, build, close, num, observe, same_obs, snap, truth, vec
from props.linear import _d, bounded_ip, lp_of_obs, norm, note_lp, raw_obs, scale_of, steps_kw

H = F(1, 2)


def small_ip(rng, nmax=4):
    """A bounded integer program whose relaxation is bounded too."""
    return bounded_ip(rng, nmax, rng.choice([2, 3, 3, 4, 6, 40, 300]))


def wide_ip(rng):
    """More variables, most of them bounded by a row of their own."""
    n = rng.randint(5, 8)
    obj = rng.choice(["max", "min"])
    neg = {j for j in range(n) if rng.random() < 0.15}
    A, b, ineq, c = [], [], [], []
    for j in rng.sample(range(n), n):
        s = rng.choice([1, 1, -1])           # the row as it is or negated
        t = -1 if j in neg else 1
        A.append([F(s * t * rng.choice([1, 2, 2, 3])) if k == j else F(0) for k in range(n)])
        b.append(s * F(rng.randint(0, 9)))
        ineq.append("<=" if s > 0 else ">=")
    for j in range(n):
        v = F(rng.randint(1, 9)) if rng.random() < 0.8 else F(rng.randint(-4, 4))
        c.append(v * (-1 if j in neg else 1) * (1 if obj == "max" else -1))
    if rng.random() < 0.4:
        j, k = rng.sample(range(n), 2)
        A.append([F(-1 if i in neg else 1) if i in (j, k) else F(0) for i in range(n)])
        b.append(F(rng.randint(1, 7), rng.choice([1, 2])))
        ineq.append("<=")
    return LP(A, b, c, F(rng.randint(-5, 5)), obj, ineq, set(), neg)


def branching(lp, integral, cap):
    """Nodes of the unpruned branch and bound tree (None beyond the cap): keeps workloads small."""
    left = [cap]

    def rec(p):
        left[0] -= 1
        if left[0] < 0:
            return
        r = p.solve()
        if r[0] != "optimal":
            return
        k = next((j for j in sorted(integral) if r[2][j].denominator != 1), None)
        if k is None:
            return
        v = r[2][k].numerator // r[2][k].denominator
        for q, t in (("<=", v), (">=", v + 1)):
            c = p.clone()
            c.A.append([F(int(j == k)) for j in range(p.n)])
            c.b.append(F(t))
            c.ineq.append(q)
            rec(c)
    rec(lp)
    return None if left[0] < 0 else cap - left[0]


DIRECTED_IP = [
    (_d([[2, 0]], [3], [1, 0], 0, "max", ["<="]), None),
    (_d([[2]], [5], [1], 0, "max", ["<="]), None),
    (_d([[2]], [5], [-1], 3, "min", ["<="]), None),
    (_d([[2]], [1], [1], 0, "max", ["="]), None),
    (_d([[2], [1]], [1, 4], [1], 0, "min", [">=", "<="]), None),
    (_d([[2], [1]], [-5, 4], [1], 0, "min", [">=", "<="], [1]), None),
    (_d([[2], [1]], [-5, -4], [1], 0, "max", ["<=", ">="], [], [1]), None),
    (_d([[2, 2], [1, 0], [0, 1]], [3, 1, 1], [1, 1], 0, "max", ["=", "<=", "<="]), None),
    (_d([[2, 2], [1, 0], [0, 1]], [3, 1, 1], [1, 1], 0, "max", ["=", "<=", "<="]), [1]),
    (_d([[2, 2], [1, 0], [0, 1]], [3, 1, 1], [1, 2], 0, "max", ["=", "<=", "<="]), [2]),
    (_d([[2, 2], [1, 0], [0, 1]], [3, 1, 1], [1, 2], 0, "max", ["=", "<=", "<="]), []),
    (_d([[3, 5], [1, 0], [0, 1]], [13, 4, 4], [2, 3], 1, "max", ["<=", "<=", "<="]), None),
    (_d([[3, 5], [1, 0], [0, 1]], [-13, -4, -4], [2, 3], 1, "min", [">=", ">=", ">="], [], [1, 2]), None),
    (_d([[1, 1, 1], [2, 1, 0], [0, 1, 2]], [F(9, 2), F(7, 2), F(5, 2)], [3, 2, 1], 0, "max", ["<="] * 3), [1, 3]),
    (_d([[-2, 2], [-8, 10], [1, 0], [0, 1]], [1, 13, 4, 5], [1, 1], 0, "max", [">=", "<=", "<=", "<="]), None),
    (_d([[1, 0], [0, 1], [4, 4]], [3, 3, 10], [1, 1], 0, "min", ["<=", "<=", ">="]), None),
]


@prop("I01", quick=700, rule="Bounded integer programs with 1..4 (sometimes 5..8) variables (every variable boxed or the region bounded "
      "by positive rows; max and min, all row types, free and non-positive variables, pure and mixed with every choice "
      "of integral variables) solved by the package and by exact rational branch and bound.  Non-trivial: the oracle "
      "settled the program; distinct by the full data and the integral variables.",
      floors=[("oracle:optimal", 240), ("oracle:infeasible", 50), ("relaxed optimum is fractional", 150),
              ("mixed", 90), ("min", 140), ("five or more variables", 40)], directed=DIRECTED_IP,
      step_limit=60_000_000)
def i01(ctx):
    rng = ctx.rng
    if ctx.directed is not None:
        lp, integral = ctx.directed
        lp = lp.clone()
    else:
        wide = rng.random() < 0.15
        lp = wide_ip(rng) if wide else small_ip(rng)
        integral = None
        if rng.random() < (0.7 if wide else 0.4):
            integral = [j + 1 for j in range(lp.n) if rng.random() < (0.8 if wide else 0.55)]
            rng.shuffle(integral)
    ints = set(range(lp.n)) if integral is None else {j - 1 for j in integral}
    relaxed = lp.solve()
    if relaxed[0] == "unbounded":
        raise Skip("unbounded relaxation")
    nodes = branching(lp, ints, 24)
    if nodes is None:
        raise Skip("too much branching for this workload")
    if lp.n >= 5:
        ctx.count("five or more variables")
    ctx.count("branch nodes of the oracle", nodes)
    truth_ = solve_ip(lp, ints)
    note_lp(ctx, lp, integral=integral)
    ctx.nontrivial = True
    ctx.count("oracle:" + truth_[0])
    ctx.count(lp.obj)
    if integral is not None and len(ints) < lp.n:
        ctx.count("mixed")
    if relaxed[0] == "optimal" and any(relaxed[2][j].denominator != 1 for j in ints):
        ctx.count("relaxed optimum is fractional")
    if lp.free or lp.neg:
        ctx.count("with free or non-positive variables")
    extra = {} if integral is None and rng.random() < 0.5 else {"integral_variables": integral}
    p = build(ctx, lp, cls=IntegerProgram, **extra)
    if rng.random() < 0.2:
        p = ctx.must("copy", p.copy)
    x = ctx.must("branch_and_bound", p.branch_and_bound)
    if truth_[0] == "infeasible":
        ctx.check(x is None, lambda: f"no integral point exists but branch_and_bound() returned {short(x)}")
        return
    ctx.check(x is not None, lambda: f"optimum {float(truth_[1])} at {[str(v) for v in truth_[2]]} exists "
              "but branch_and_bound() returned nothing")
    x = vec(x, lp.n, "integer solution")
    for j in sorted(ints):
        ctx.check(abs(x[j] - round(x[j])) <= 1e-6, lambda: f"variable {j + 1} is {x[j]!r}, not whole")
    bad = feasible_tol(lp, x)
    ctx.check(bad is None, lambda: f"solution {x.tolist()} infeasible: {bad}")
    got = sum(float(a) * t for a, t in zip(lp.c, x)) + float(lp.z)
    ctx.check(close(got, truth_[1], 1e-6, scale_of(lp, x)),
              lambda: f"solution {x.tolist()} has value {got}, the integer optimum is {float(truth_[1])}")


@prop("I02", quick=420, rule="Integer programs (bounded or not, every sign and row type, pure or mixed): the relaxation "
      "compared attribute by attribute, its value bounded against the exact integer optimum, then random edits of the "
      "relaxation and copies (rows, columns, conversions in place, solves) while the original is watched; copies with "
      "an added row or column solved against the exact mixed-integer optimum.  Distinct by program and edits.",
      floors=[("relaxations compared", 180), ("bounds compared", 80), ("edited copies solved", 70)],
      step_limit=60_000_000)
def i02(ctx):
    rng = ctx.rng
    lp = small_ip(rng, 3) if rng.random() < 0.7 else gen.lp(rng, mmax=4, nmax=4)
    bounded = not hasattr(lp, "kind")
    integral = None if rng.random() < 0.5 else [j + 1 for j in range(lp.n) if rng.random() < 0.6]
    given = None if integral is None else list(integral)
    ints = set(range(lp.n)) if integral is None else {j - 1 for j in integral}
    note_lp(ctx, lp, integral=integral)
    ctx.nontrivial = True
    p = build(ctx, lp, cls=IntegerProgram, integral_variables=given)
    before = observe(ctx, p)
    text = ctx.must("str", str, p)

    def same(what):
        d = same_obs(before, observe(ctx, p))
        ctx.check(d is None, lambda: f"{what} changed the integer program: {d}")
        ctx.check(given == integral, lambda: f"{what} changed the caller's list of integral variables to {given}")
        ctx.check(ctx.must("str", str, p) == text, lambda: f"{what} changed the printed integer program")

    r = ctx.must("relax", p.relax)
    ctx.check(isinstance(r, LinearProgram) and not isinstance(r, IntegerProgram),
              lambda: f"relax() returned a {type(r).__name__}, expected a linear program")
    d = same_obs(before, observe(ctx, r))
    ctx.check(d is None, lambda: f"the relaxation differs from the integer program: {d}")
    ctx.count("relaxations compared")
    same("relax()")
    exact_ip = solve_ip(lp, ints) if bounded and lp.solve()[0] != "unbounded" and branching(lp, ints, 60) else None
    if bounded and exact_ip:
        v = ctx.must("relax().optimal_value()", r.optimal_value)
        sg = 1 if lp.obj == "max" else -1
        if exact_ip[0] == "optimal":
            ctx.check(v is not None, "the relaxation has no optimum though the integer program has one")
            ctx.check(sg * num(v, "relaxed value") >= sg * float(exact_ip[1]) - 1e-6 * (1 + abs(float(exact_ip[1]))),
                      lambda: f"relaxed value {v} is worse than the integer optimum {float(exact_ip[1])}")
            ctx.count("bounds compared")
        if rng.random() < 0.5 and branching(lp, ints, 16):
            ctx.must("branch_and_bound", p.branch_and_bound)
            same("branch_and_bound()")
            d = same_obs(before, observe(ctx, r))
            ctx.check(d is None, lambda: f"branch_and_bound() changed the relaxation: {d}")
    # edits of the relaxation
    hist = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["row", "row", "col", "sef", "solve", "canonical"])
        hist.append(k)
        o = observe(ctx, r)
        n, m = o["A"].shape[1], o["A"].shape[0]
        if k == "row":
            ctx.attempt("relaxed.add_constraint", r.add_constraint, [float(rng.randint(-3, 3)) for _ in range(n)],
                        rng.choice(["<=", ">=", "="]), float(rng.randint(-3, 6)), in_place=True)
        elif k == "col":
            ctx.attempt("relaxed.add_variable", r.add_variable, float(rng.randint(-3, 3)),
                        [float(rng.randint(-3, 3)) for _ in range(m)], in_place=True)
        elif k == "sef":
            ctx.attempt("relaxed.to_sef", r.to_sef, in_place=True)
        elif k == "canonical":
            ctx.attempt("relaxed.to_canonical_form", r.to_canonical_form, list(range(1, m + 1)), in_place=True)
        else:
            ctx.attempt("relaxed.solve", r.solve)
        same(f"{k} on the relaxation")
    ctx.sig(tuple(hist))
    # copies keep the kind and the integral variables
    q = ctx.must("copy", p.copy)
    ctx.check(isinstance(q, IntegerProgram), lambda: f"copy() returned a {type(q).__name__}")
    d = same_obs(before, observe(ctx, q))
    ctx.check(d is None, lambda: f"the copy differs: {d}")
    ctx.check(ctx.must("str", str, q) == text, "the copy prints differently")
    model = lp.clone()
    for _ in range(rng.choice([0, 1, 1, 2])):
        inp = rng.random() < 0.5
        if rng.random() < 0.6:
            row = [F(rng.randint(-3, 3)) for _ in range(model.n)]
            op = rng.choice(["<=", "<=", ">="])
            v = F(rng.randint(-4, 14), 2)
            model.A.append(row)
            model.b.append(v)
            model.ineq.append(op)
            s = ctx.must("add_constraint", q.add_constraint, [float(t) for t in row], op, float(v), in_place=inp)
        else:
            # a bounded column: it gets its own bounding row right away
            col = [F(rng.choice([0, 0, 1, 2])) for _ in range(model.m)]
            cost = F(rng.randint(-3, 3))
            for a, t in zip(model.A, col):
                a.append(t)
            model.c.append(cost)
            ints_new = integral is None
            s = ctx.must("add_variable", q.add_variable, float(cost), [float(t) for t in col], in_place=inp)
            if ints_new:
                ints.add(model.n - 1)
            q = s if not inp else q
            row = [F(int(j == model.n - 1)) for j in range(model.n)]
            v = F(rng.randint(1, 5), 2)
            model.A.append(row)
            model.b.append(v)
            model.ineq.append("<=")
            s = ctx.must("add_constraint", q.add_constraint, [float(t) for t in row], "<=", float(v), in_place=inp)
        q = q if inp else s
        ctx.check(isinstance(q, IntegerProgram), lambda: f"adding to a copy gave a {type(q).__name__}")
        same("editing a copy")
    if bounded and model.solve()[0] != "unbounded" and rng.random() < 0.7 and branching(model, ints, 16):
        want = solve_ip(model, ints)
        x = ctx.must("branch_and_bound of the edited copy", q.branch_and_bound)
        ctx.count("edited copies solved")
        if want[0] == "infeasible":
            ctx.check(x is None, lambda: f"edited copy has no integral point but got {short(x)}")
        else:
            ctx.check(x is not None, "edited copy has an optimum but branch_and_bound() returned nothing")
            x = vec(x, model.n, "solution of the edited copy")
            for j in sorted(ints):
                ctx.check(abs(x[j] - round(x[j])) <= 1e-6,
                          lambda: f"edited copy: variable {j + 1} is {x[j]!r}, not whole")
            bad = feasible_tol(model, x)
            ctx.check(bad is None, lambda: f"edited copy: {x.tolist()} infeasible: {bad}")
            got = sum(float(a) * t for a, t in zip(model.c, x)) + float(model.z)
            ctx.check(close(got, want[1], 1e-6, scale_of(model, x)),
                      lambda: f"edited copy: value {got}, optimum {float(want[1])}")
        same("solving an edited copy")
