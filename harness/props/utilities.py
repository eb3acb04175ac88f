"""U01, U02: disjoint sets and tolerant comparisons."""
import itertools
from fractions import Fraction as F

import numpy as np

from core import Skip, prop, short
from lpio import snap, truth
from props.undirected import names

from pytimize.utilities import Comparator, DisjointSet


# -------------------------------------------------------------------- U01
class Classes:
    def __init__(self, items):
        self.of = {i: [i] for i in items}

    def union(self, a, b):
        x, y = self.of[a], self.of[b]
        if x is y:
            return
        if len(x) < len(y):
            x, y = y, x
        x.extend(y)
        for i in y:
            self.of[i] = x


def audit(ctx, d, ref, items, when):
    rep = {}
    for i in items:
        r = ctx.must(f"find({i!r})", d.find, i)
        ctx.check(any(r == t for t in ref.of[i]) if len(ref.of[i]) < 50 else r in ref.of and ref.of[r] is ref.of[i],
                  lambda: f"{when}: find({i!r}) is {r!r}, not a member of its class {short(sorted(ref.of[i], key=str))}")
        k = id(ref.of[i])
        if k in rep:
            ctx.check(rep[k] == r, lambda: f"{when}: linked items have representatives {rep[k]!r} and {r!r} (item {i!r})")
        rep[k] = r
        ctx.count("finds compared")
    ctx.check(len(set(map(str, rep.values()))) == len(rep),
              lambda: f"{when}: unlinked items share a representative: {short(list(rep.values()))}")


@prop("U01", quick=42000, rule="Union/find histories over 1..12 items, and over 500..4000 items in chained, reversed, "
      "zipped, tournament and random orders; every class is compared with a reference after every few steps, with refused "
      "items in between.  Distinct by items and history.",
      floors=[("finds compared", 2911410), ("refused", 55870), ("large collections", 380)], step_limit=20_000_000)
def u01(ctx):
    rng = ctx.rng
    large = rng.random() < 0.02 or ctx.index < 6
    ctx.nontrivial = True
    if large:
        ctx.count("large collections")
        n = rng.randint(500, 4000)
        items = [f"i{k}" for k in range(n)]
        order = rng.choice(["chain", "back", "chain2", "back2", "zip", "tournament", "random", "star", "star2", "stop"])
        if order in ("chain", "chain2"):
            us = [(items[k], items[k + 1]) for k in range(n - 1)]
        elif order in ("back", "back2"):
            us = [(items[k], items[k + 1]) for k in range(n - 2, -1, -1)]
        elif order == "zip":
            us = [(items[k], items[n - 1 - k]) for k in range(n // 2)] + [(items[k], items[k + 1]) for k in range(n // 2 - 1)]
        elif order == "tournament":
            us, s = [], 1
            while s < n:
                us += [(items[k], items[k + s]) for k in range(0, n - s, 2 * s)]
                s *= 2
        elif order in ("star", "star2"):
            us = [(items[0], items[k]) for k in range(1, n)]
        elif order == "stop":
            us = [(items[k], items[k + 1]) for k in range(n - 1) if k % 7]
        else:
            us = [tuple(rng.sample(items, 2)) for _ in range(n)]
        if order.endswith("2"):
            us = [(b, a) for a, b in us]
        ctx.note(items=n, order=order)
        ctx.sig(n, order)
        d = ctx.must("DisjointSet", DisjointSet, list(items))
        ref = Classes(items)
        half = len(us) // 2 if rng.random() < 0.5 else None
        for k, (a, b) in enumerate(us):
            ctx.must("union", d.union, a, b)
            ref.union(a, b)
            if k == half:
                audit(ctx, d, ref, items, f"half way through {order} over {n} items")
        probe = items if rng.random() < 0.5 else rng.sample(items, len(items))
        audit(ctx, d, ref, probe, f"after {order} over {n} items")
        audit(ctx, d, ref, items, f"asking again after {order} over {n} items")
        return
    n = rng.randint(1, 12)
    items = (names(rng, 8) + ["", "zz", "yy", "xx", "ww"])[:n]
    if rng.random() < 0.2:
        items = list(range(n))
    given = list(items) if rng.random() < 0.8 else tuple(items)
    before = snap(given)
    d = ctx.must("DisjointSet", DisjointSet, given)
    ref = Classes(items)
    hist = []
    audit(ctx, d, ref, items, "at the start")
    for _ in range(rng.randint(1, 20)):
        r = rng.random()
        if r < 0.6:
            a, b = rng.choice(items), rng.choice(items)
            ctx.must(f"union({a!r}, {b!r})", d.union, a, b)
            ref.union(a, b)
            hist.append((a, b))
        elif r < 0.75:
            ctx.must("find", d.find, rng.choice(items))
        elif r < 0.85:
            ctx.refuse("find of an unknown item", d.find, "unknown")
            ctx.count("refused")
        else:
            pair = rng.choice([("unknown", rng.choice(items)), (rng.choice(items), "unknown"), ("unknown", "unknown")])
            ctx.refuse(f"union{pair}", d.union, *pair)
            ctx.count("refused")
            hist.append(pair)
        if rng.random() < 0.4:
            probe = rng.sample(items, len(items))
            audit(ctx, d, ref, probe, f"after unions {hist[-8:]}")
    audit(ctx, d, ref, items, f"after unions {hist[-12:]}")
    ctx.check(snap(given) == before, "the structure changed the caller's collection")
    if rng.random() < 0.4:
        dup = list(items) + [rng.choice(items)]
        rng.shuffle(dup)
        ctx.refuse(f"DisjointSet({short(dup)}) with a duplicate", DisjointSet, dup)
        ctx.count("refused")
    ctx.note(items=items, unions=hist)
    ctx.sig(tuple(map(str, items)), tuple(map(str, hist)))


# -------------------------------------------------------------------- U02
def magnitude(rng):
    return rng.choice([1, 1, 1, 10, 1000, 1e6, 1e-3]) * rng.choice([1, -1])


def near(rng):
    """Offsets from a boundary: inside rounding error, clearly outside, never in the grey zone."""
    return rng.choice([0.0, 1e-12, -1e-12, 4e-11, -4e-11, 1e-15, -1e-15, 1e-16, 2e-9, -2e-9, 1e-7, -1e-7, 1e-5, -1e-5,
                       1e-3, -1e-3, 0.1, -0.1, 0.25, -0.25, 0.5, -0.5, rng.uniform(-1, 1)])


def sign3(v):
    """-1, 0, 1 with tolerance; None in the grey zone."""
    a = abs(F(v))
    if a <= F(5, 10 ** 11):
        return 0
    if a >= F(1, 10 ** 9):
        return 1 if v > 0 else -1
    return None


def against(v, t):
    """Relation of v to a threshold: -1, 0, 1; None in the grey zone."""
    if t == 0:
        return sign3(v)
    d = F(v) - F(t)
    if abs(d) <= F(1, 10 ** 11) * max(1, abs(F(t))) and abs(d) <= F(1, 10 ** 10):
        return 0
    if abs(d) >= F(1, 10 ** 4) * abs(F(t)) + F(1, 10 ** 6):
        return 1 if d > 0 else -1
    return None


def whole(v):
    f = F(v)
    d = abs(f - round(f))
    if d <= F(5, 10 ** 11):
        return True
    if d >= F(1, 10 ** 9):
        return False
    return None


OPS = {"<": lambda r: r < 0, ">": lambda r: r > 0, "<=": lambda r: r <= 0, ">=": lambda r: r >= 0}


@prop("U02", quick=40000, rule="Numbers and arrays (one and two dimensions, empty included) across magnitudes 1e-16..1e15, "
      "clustered around zero, integers and thresholds on both sides at distances inside rounding error and clearly outside "
      "it (the grey zone between is not judged); compared with exact rationals, plus trichotomy and elementwise "
      "agreement, which are judged everywhere.  Distinct by the values.",
      floors=[("numbers judged", 72000), ("arrays judged", 54000), ("grey zone", 7910), ("unknown operators refused", 5330)])
def u02(ctx):
    rng = ctx.rng
    ctx.nontrivial = True

    def value(t):
        r = rng.random()
        if r < 0.25:
            return t + near(rng)
        if r < 0.4:
            return t * (1 + rng.choice([0, 1e-15, -1e-15, 1e-3, -1e-3, 2e-4, -2e-4, 1e-6, -1e-6, 0.3]))
        if r < 0.6:
            return float(rng.randint(-20, 20)) + near(rng)
        if r < 0.63:
            k = rng.randint(30, 52)                     # beyond the range of small machine integers
            big = rng.choice([2 ** k, 2 ** k - 1, 2 ** k + 1, rng.randint(2 ** (k - 1), 2 ** k)])
            return rng.choice([1, -1]) * (big + (rng.choice([0, 0, 0, 0.5, 0.25]) if k < 49 else 0.0))
        if r < 0.7:
            return float(rng.randint(-10 ** 9, 10 ** 9)) + rng.choice([0, 0.5, 0.25, 1e-3])
        if r < 0.8:
            return float(rng.randint(-5, 5))
        if r < 0.9:
            return near(rng) * magnitude(rng)
        return rng.uniform(-1, 1) * 10 ** rng.randint(-12, 9)

    kept = []
    for _ in range(4):
        t = rng.choice([0, 0, 0.0, 1, 2.5, -3, 1000, -0.125, 1e6, 7e-3, float(rng.randint(-50, 50)) or 1.0])
        v = float(value(t))
        kept.append(v)
        ctx.sig(v, t)
        ctx.note(value=v, threshold=t)
        w = v
        if v == int(v) and abs(v) < 1e9 and rng.random() < 0.4:
            w = rng.choice([int, np.int64])(v)
        elif rng.random() < 0.3:
            w = np.float64(v)
        ctx.count("numbers judged")
        z = truth(ctx.must(f"is_close_to_zero({v!r})", Comparator.is_close_to_zero, w), "is_close_to_zero")
        pos = truth(ctx.must(f"is_positive({v!r})", Comparator.is_positive, w), "is_positive")
        neg = truth(ctx.must(f"is_negative({v!r})", Comparator.is_negative, w), "is_negative")
        s = sign3(v)
        if s is None:
            ctx.count("grey zone")
        else:
            ctx.check((z, pos, neg) == (s == 0, s == 1, s == -1),
                      lambda: f"{v!r}: zero {z}, positive {pos}, negative {neg}; exact sign is {s}")
        ctx.check([z, pos, neg].count(True) == 1, lambda: f"{v!r}: zero {z}, positive {pos}, negative {neg}: not exactly one")
        i = truth(ctx.must(f"is_integer({v!r})", Comparator.is_integer, w), "is_integer")
        want = whole(v)
        if want is not None:
            ctx.check(i == want, lambda: f"is_integer({v!r}) is {i}, expected {want}")
        r = {q: truth(ctx.must(f"is_close_compare({v!r}, {q!r}, {t!r})", Comparator.is_close_compare, w, q, t), q) for q in OPS}
        rel = against(v, t)
        if rel is None:
            ctx.count("grey zone")
        else:
            for q, f in OPS.items():
                ctx.check(r[q] == f(rel), lambda: f"is_close_compare({v!r}, {q!r}, {t!r}) is {r[q]}, expected {f(rel)}")
        close = r["<="] and r[">="]
        ctx.check([r["<"], r[">"], close].count(True) == 1,
                  lambda: f"{v!r} against {t!r}: less {r['<']}, greater {r['>']}, close {close}: not exactly one")
        ctx.check(r["<="] == (r["<"] or close) and r[">="] == (r[">"] or close),
                  lambda: f"{v!r} against {t!r}: the non-strict answers are not the unions: {r}")
        if t == 0:
            ctx.check(close == z, lambda: f"{v!r} is {'' if z else 'not '}close to zero but the comparison says {close}")
    # arrays: the same answers, entry by entry
    for _ in range(3):
        t = rng.choice([0, 0, 2.5, -3, 1000])
        shape = rng.choice([(1,), (2,), (3,), (5,), (2, 3), (3, 1), (0,), (8,)])
        k = int(np.prod(shape))
        side = rng.choice([None, None, 1, -1, 0])
        vals = []
        for _ in range(k):
            v = float(value(t))
            if side == 1:
                v = t + abs(v - t) + (1 if rng.random() < 0.8 else 0)
            elif side == -1:
                v = t - abs(v - t) - (1 if rng.random() < 0.8 else 0)
            elif side == 0:
                v = float(round(min(max(v, -1e6), 1e6)))
            vals.append(v)
        if k and side is not None and rng.random() < 0.4:       # one odd entry, anywhere
            vals[rng.randrange(k)] = float(value(t))
        a = np.array(vals, dtype=float).reshape(shape)
        ctx.sig(tuple(vals), shape, t)
        before = snap(a)
        ctx.count("arrays judged")
        z = np.asarray(ctx.must("is_close_to_zero(array)", Comparator.is_close_to_zero, a))
        ctx.check(z.shape == a.shape, lambda: f"is_close_to_zero of an array of shape {a.shape} has shape {z.shape}")
        for v, got in zip(vals, z.ravel()):
            ctx.check(bool(got) == bool(Comparator.is_close_to_zero(v)), lambda: f"is_close_to_zero: entry {v!r} of {vals} is {got}")
        for q in OPS:
            got = truth(ctx.must(f"is_close_compare(array, {q!r})", Comparator.is_close_compare, a, q, t), "array comparison")
            each = [bool(Comparator.is_close_compare(v, q, t)) for v in vals]
            ctx.check(got == all(each), lambda: f"is_close_compare({vals}, {q!r}, {t!r}) is {got}, entries {each}")
        for name in ("is_integer", "is_positive", "is_negative"):
            fn = getattr(Comparator, name)
            got = truth(ctx.must(f"{name}(array)", fn, a), name)
            each = [bool(fn(v)) for v in vals]
            ctx.check(got == all(each), lambda: f"{name}({vals}) is {got}, entries {each}")
        ctx.check(snap(a) == before, "a comparison changed the given array")
    if rng.random() < 0.3:
        q = rng.choice(["==", "=", "", "=>", "!=", "<>", "< ", "≤", "lt", "=<"])
        v = rng.choice([1.0, 0, np.array([1.0, 2.0])])
        ctx.refuse(f"is_close_compare with operator {q!r}", Comparator.is_close_compare, v, q, rng.choice([0, 1.0]))
        ctx.count("unknown operators refused")
