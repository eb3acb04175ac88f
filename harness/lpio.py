"""Bridges exact programs and the package's LinearProgram; observes only the public surface."""
from fractions import Fraction as F

import numpy as np

from core import Violation, short
from exact import LP

import pytimize
from pytimize.programs import IntegerProgram, LinearProgram


def fl(v):
    return float(v)


def args_of(lp, rng=None, style=None):
    """Constructor arguments in one of the accepted styles."""
    style = style or (rng.choice(["float", "float", "float", "list", "int", "intlist"]) if rng else "float")
    integral = all(v.denominator == 1 for r in lp.A for v in r) and \
        all(v.denominator == 1 for v in lp.b + lp.c)
    if style in ("int", "intlist") and not integral:
        style = "float" if style == "int" else "list"
    conv = int if style in ("int", "intlist") else float
    A = [[conv(v) for v in r] for r in lp.A]
    b = [conv(v) for v in lp.b]
    c = [conv(v) for v in lp.c]
    if style in ("float", "int") or lp.m == 0:
        A, b, c = np.array(A), np.array(b), np.array(c)
        if lp.m == 0:
            A = np.zeros((0, lp.n))
            b = np.zeros(0)
    z = float(lp.z) if lp.z.denominator != 1 or (rng and rng.random() < 0.5) else int(lp.z)
    free = [j + 1 for j in lp.free]
    neg = [j + 1 for j in lp.neg]
    if rng:
        rng.shuffle(free)
        rng.shuffle(neg)
    return dict(A=A, b=b, c=c, z=z, objective=lp.obj, inequalities=list(lp.ineq),
                free_variables=free, negative_variables=neg)


def build(ctx, lp, cls=LinearProgram, style=None, plain=False, **extra):
    kw = args_of(lp, ctx.rng, style)
    if not plain:
        if not kw["free_variables"] and ctx.rng.random() < 0.5:
            kw.pop("free_variables")
        if not kw["negative_variables"] and ctx.rng.random() < 0.5:
            kw.pop("negative_variables")
        if all(q == "=" for q in lp.ineq) and ctx.rng.random() < 0.5:
            kw.pop("inequalities")
    kw.update(extra)
    return ctx.must(f"{cls.__name__}(...)", cls, **kw)


def observe(ctx, p):
    """The public attributes as plain data."""
    def get():
        return dict(
            A=np.array(p.A, dtype=float), b=np.array(p.b, dtype=float), c=np.array(p.c, dtype=float),
            z=float(p.z), objective=p.objective, inequalities=list(p.inequalities),
            free=list(p.free_variables), neg=list(p.negative_variables),
            pos=list(p.positive_variables), sef=bool(p.is_sef))
    return ctx.must("reading the program's attributes", get)


def same_obs(a, b, tol=0.0):
    """None or a description of the first difference."""
    for k in ("A", "b", "c"):
        if a[k].shape != b[k].shape:
            return f"{k}: shape {a[k].shape} vs {b[k].shape}"
        if a[k].size:
            if tol:
                if not np.allclose(a[k], b[k], rtol=tol, atol=tol):
                    return f"{k}: {a[k].tolist()} vs {b[k].tolist()}"
            elif not np.array_equal(a[k], b[k]):
                return f"{k}: {a[k].tolist()} vs {b[k].tolist()}"
    if abs(a["z"] - b["z"]) > tol * (1 + abs(a["z"])):
        return f"z: {a['z']} vs {b['z']}"
    for k in ("objective", "inequalities", "sef"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} vs {b[k]}"
    for k in ("free", "neg", "pos"):
        if sorted(a[k]) != sorted(b[k]):
            return f"{k}: {a[k]} vs {b[k]}"
    return None


def expected_obs(lp):
    return dict(
        A=np.array([[float(v) for v in r] for r in lp.A], dtype=float).reshape(lp.m, lp.n),
        b=np.array([float(v) for v in lp.b]), c=np.array([float(v) for v in lp.c]), z=float(lp.z),
        objective=lp.obj, inequalities=list(lp.ineq),
        free=sorted(j + 1 for j in lp.free), neg=sorted(j + 1 for j in lp.neg),
        pos=[j + 1 for j in range(lp.n) if j not in lp.free and j not in lp.neg], sef=lp.is_sef)


def lp_of_obs(o):
    """Exact program with exactly the floats observed."""
    return LP([[F(float(v)) for v in r] for r in o["A"]], [F(float(v)) for v in o["b"]],
              [F(float(v)) for v in o["c"]], F(o["z"]), o["objective"], o["inequalities"],
              {j - 1 for j in o["free"]}, {j - 1 for j in o["neg"]})


def rounded_lp_of_obs(o, den=10 ** 6):
    f = lambda v: F(float(v)).limit_denominator(den)
    return LP([[f(v) for v in r] for r in o["A"]], [f(v) for v in o["b"]], [f(v) for v in o["c"]],
              f(o["z"]), o["objective"], o["inequalities"],
              {j - 1 for j in o["free"]}, {j - 1 for j in o["neg"]})


def vec(x, n, what):
    """A finite real vector of length n, whatever array-like it comes in."""
    try:
        a = np.asarray(x, dtype=float)
    except Exception:
        raise Violation(f"{what}: not a vector: {short(x)}")
    if a.shape != (n,):
        raise Violation(f"{what}: shape {a.shape}, expected ({n},): {short(x)}")
    if not np.all(np.isfinite(a)):
        raise Violation(f"{what}: not finite: {a.tolist()}")
    return a


def num(x, what):
    try:
        v = float(x)
    except Exception:
        raise Violation(f"{what}: not a number: {short(x)}")
    if v != v or v in (float("inf"), float("-inf")):
        raise Violation(f"{what}: not finite: {v}")
    return v


def close(a, b, tol=1e-6, scale=0.0):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)) + abs(scale))


def truth(x, what):
    """A yes/no answer (bool or numpy bool)."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    raise Violation(f"{what}: not a yes/no answer: {short(x)}")


def snap(v):
    """Value snapshot of caller-side data (arrays, lists, dicts, sets, tuples, scalars)."""
    if isinstance(v, np.ndarray):
        return ("nd", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snap(i) for i in v))
    if isinstance(v, dict):
        return ("dict", tuple((snap(k), snap(w)) for k, w in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(snap(i) for i in v))
    return (type(v).__name__, v)
