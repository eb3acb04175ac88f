"""F01..F03: the formulation language."""
from fractions import Fraction as F

import numpy as np

import gen
from core import Skip, Violation, prop, short
from exact import LP, dot, feasible_tol, solve_ip
from lpio import IntegerProgram, LinearProgram, close, expected_obs, num, observe, same_obs, vec
from props.integer import branching, small_ip
from props.linear import scale_of, show

import pytimize.formulations.integer as FI
import pytimize.formulations.linear as FL

TOL = 1e-9


def number(rng, v):
    """An exact dyadic value as one of the number types a user may write."""
    if v.denominator == 1 and rng.random() < 0.6:
        return rng.choice([int, int, int, np.int64])(int(v))
    return rng.choice([float, float, float, np.float64])(float(v))


def value(rng):
    if rng.random() < 0.05:          # many decimals, exact in binary; or large
        return rng.choice([-1, 1]) * rng.choice([F(rng.randint(1, 99), 2 ** 20), F(rng.randint(1, 9), 2 ** 24),
                                                 3 + F(1, 2 ** 22), F(10 ** 6 + 1, 4), F(99999), F(rng.randint(10 ** 6, 10 ** 7), 8)])
    return rng.choice([F(0), F(1), F(-1), F(2), F(3), F(-2), F(5), F(1, 2), F(-3, 4), F(10), F(-7, 2),
                       F(rng.randint(-9, 9)), F(rng.randint(-40, 40), 8)])


class Node:
    """A live expression with the linear function it has to denote."""

    def __init__(self, obj, terms, const, text, kind):
        self.obj, self.terms, self.const, self.text, self.kind = obj, terms, const, text, kind


def lin(a, s, b):
    t = dict(a.terms)
    for k, v in b.terms.items():
        t[k] = t.get(k, F(0)) + s * v
    return t, a.const + s * b.const


def read_equation(ctx, node, mod):
    obj = ctx.must(f"maximize({node.text})", rng_choice(ctx, [mod.maximize, mod.minimize]), node.obj)

    def get():
        c = obj.coefficients
        return ([] if c is None else [float(v) for v in np.asarray(c, dtype=float).ravel()]), float(obj.constant)
    return ctx.must("reading the objective", get)


def rng_choice(ctx, seq):
    return ctx.rng.choice(seq)


def same_vector(got, terms, sign=1, extra=0.0):
    n = max([len(got)] + [k + 1 for k in terms])
    for j in range(n):
        g = got[j] if j < len(got) else 0.0
        w = sign * float(terms.get(j, F(0)))
        if not abs(g - w) <= TOL * (1 + abs(w)):
            return f"coefficient of variable {j + 1} is {g}, expected {w}"
    return None


def check_node(ctx, node, mod, when):
    c, k = read_equation(ctx, node, mod)
    bad = same_vector(c, node.terms)
    ctx.check(bad is None, lambda: f"{when}: {node.text} denotes the wrong function: {bad}")
    ctx.check(abs(k - float(node.const)) <= TOL * (1 + abs(float(node.const))),
              lambda: f"{when}: {node.text} has constant {k}, expected {float(node.const)}")


FLIP = {"<=": ">=", ">=": "<=", "=": "="}


def check_constraint(ctx, con, text, terms, op, rhs):
    """terms op rhs, or the same constraint with both sides negated."""
    def get():
        return [float(v) for v in np.asarray(con.coefficients, dtype=float).ravel()], con.inequality, float(con.constant)
    c, q, k = ctx.must(f"reading the constraint {text}", get)
    tries = []
    for s, o in ((1, op), (-1, FLIP[op])):
        if q != o:
            tries.append(f"direction {q}, expected {o}")
            continue
        bad = same_vector(c, terms, s)
        if bad is None and not abs(k - s * float(rhs)) <= TOL * (1 + abs(float(rhs))):
            bad = f"right-hand side {k}, expected {s * float(rhs)}"
        if bad is None:
            ctx.count("constraints compared")
            ctx.check(True, "")
            return
        tries.append(bad)
    ctx.fail(f"constraint {text} became {c} {q} {k}: " + "; ".join(tries))


def leaves(ctx, mod, n, names=None):
    rng = ctx.rng
    out = []
    vs = ctx.must("variables", mod.variables, n)
    ctx.check(isinstance(vs, (tuple, list)) and len(vs) == n, lambda: f"variables({n}) gave {short(vs)}")
    keep = set(rng.sample(range(n), 5)) | {n - 1} if n > 5 else range(n)
    for j in keep:
        if rng.random() < 0.75:
            out.append(Node(vs[j], {j: F(1)}, F(0), f"v{j + 1}", "variable"))
        if rng.random() < 0.6:
            i = j + 1 if rng.random() < 0.85 else rng.choice([np.int64, np.int32, np.uint8])(j + 1)
            out.append(Node(ctx.must("x[i]", lambda: mod.x[i]), {j: F(1)}, F(0),
                            f"x[{j + 1}]", "equation"))
    if not out:
        out.append(Node(vs[0], {0: F(1)}, F(0), "v1", "variable"))
    return out


def combine(ctx, pool):
    """One more node built from the pool with a random operator (the operands stay in the pool)."""
    rng = ctx.rng
    a = rng.choice(pool)
    b = rng.choice(pool)
    v = value(rng)
    n = number(rng, v)
    nn = Node(n, {}, v, repr(n), "number")
    op = rng.choice(["+", "+", "-", "-", "n+", "+n", "-n", "n-", "neg", "pos", "*n", "n*", "*n", "sum", "+=", "-=",
                     "*=", "+=n", "-=n", "n+=", "n-="])
    if op in ("+", "-", "+=", "-="):
        s = 1 if op[0] == "+" else -1
        t, k = lin(a, s, b)
        text = f"({a.text} {op} {b.text})"
        if op == "+":
            r = ctx.must(text, lambda: a.obj + b.obj)
        elif op == "-":
            r = ctx.must(text, lambda: a.obj - b.obj)
        else:
            def aug():
                w = a.obj
                if s == 1:
                    w += b.obj
                else:
                    w -= b.obj
                return w
            r = ctx.must(text, aug)
    elif op in ("n+", "n-", "n+=", "n-="):
        s = 1 if op[1] == "+" else -1
        t, k = lin(nn, s, a)
        text = f"({nn.text} {op[1:]} {a.text})"
        if len(op) == 3:
            def aug():
                w = n
                if s == 1:
                    w += a.obj
                else:
                    w -= a.obj
                return w
            r = ctx.must(text, aug)
        else:
            r = ctx.must(text, (lambda: n + a.obj) if s == 1 else (lambda: n - a.obj))
    elif op in ("+n", "-n", "+=n", "-=n"):
        s = 1 if op[0] == "+" else -1
        t, k = lin(a, s, nn)
        text = f"({a.text} {op[:-1]} {nn.text})"
        if "=" in op:
            def aug():
                w = a.obj
                if s == 1:
                    w += n
                else:
                    w -= n
                return w
            r = ctx.must(text, aug)
        else:
            r = ctx.must(text, (lambda: a.obj + n) if s == 1 else (lambda: a.obj - n))
    elif op in ("neg", "pos"):
        s = -1 if op == "neg" else 1
        t, k = {j: s * w for j, w in a.terms.items()}, s * a.const
        text = f"({'-' if s < 0 else '+'}{a.text})"
        r = ctx.must(text, (lambda: -a.obj) if s < 0 else (lambda: +a.obj))
    elif op in ("*n", "n*", "*="):
        t, k = {j: v * w for j, w in a.terms.items()}, v * a.const
        text = f"({a.text} {op} {nn.text})"
        if op == "*n":
            r = ctx.must(text, lambda: a.obj * n)
        elif op == "n*":
            r = ctx.must(text, lambda: n * a.obj)
        else:
            def aug():
                w = a.obj
                w *= n
                return w
            r = ctx.must(text, aug)
    else:
        parts = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.3:
            parts.insert(rng.randrange(len(parts) + 1), nn)
        if all(p.kind == "number" for p in parts):
            parts.append(a)
        t, k = {}, F(0)
        for p in parts:
            for j, w in p.terms.items():
                t[j] = t.get(j, F(0)) + w
            k += p.const
        text = "sum(" + ", ".join(p.text for p in parts) + ")"
        r = ctx.must(text, lambda: sum([p.obj for p in parts]))
    if any(abs(w) > 10 ** 7 for w in list(t.values()) + [k]) or len(text) > 1500:
        return None
    ctx.count("operations on expressions")
    ctx.count("operator " + op)
    return Node(r, t, k, text, "equation")


OPS = [("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b), ("=", lambda a, b: a == b)]


@prop("F01", quick=64000, rule="Expression graphs over 1..5 (sometimes up to 40, far apart) decision variables (x[i] and named ones) and numbers (Python "
      "and numpy, integral or fractional) with up to 14 operators, operands drawn from everything built before so that "
      "subexpressions are shared; all expressions alive are read back after the graph is built, after comparisons, and "
      "at random points between.  Non-trivial: at least two operators; distinct by the expression texts.",
      floors=[("expressions read back", 1126070), ("constraints compared", 85890), ("expressions with a constant", 340310), ("far apart", 3920)])
def f01(ctx):
    rng = ctx.rng
    mod = rng.choice([FL, FL, FI])
    n = rng.randint(1, 5) if rng.random() < 0.85 else rng.randint(6, 40)
    if n > 8:
        ctx.count("far apart")
    pool = leaves(ctx, mod, n)
    k = rng.randint(1, 14)

    def recheck(when):
        for p in pool:
            ctx.count("expressions read back")
            if p.const:
                ctx.count("expressions with a constant")
            check_node(ctx, p, mod, when)

    built = 0
    for i in range(k):
        r = combine(ctx, pool)
        if r is None:
            continue
        pool.append(r)
        built += 1
        if rng.random() < 0.2:
            recheck(f"after building {r.text}")
        elif rng.random() < 0.5:
            check_node(ctx, r, mod, "when built")
    recheck("at the end of building")
    ctx.nontrivial = built >= 2
    ctx.sig(tuple(p.text for p in pool))
    ctx.note(expressions=[p.text for p in pool][:12])
    for _ in range(rng.randint(1, 5)):
        a = rng.choice(pool)
        op, f = rng.choice(OPS)
        if rng.random() < 0.35:
            v = value(rng)
            b = Node(number(rng, v), {}, v, "", "number")
            b.text = repr(b.obj)
        else:
            b = rng.choice(pool)
        if rng.random() < 0.3:
            a, b = b, a
        if a.kind == "number" and b.kind == "number":
            continue
        if op != "=" and {a.kind, b.kind} == {"variable", "number"} and (a.const == 0 and b.const == 0):
            continue            # a sign condition, not a row: F02
        text = f"{a.text} {op} {b.text}"
        con = ctx.must(text, f, a.obj, b.obj)
        t, c = lin(a, -1, b)
        check_constraint(ctx, con, text, t, op, -c)
    recheck("after comparing")
    if rng.random() < 0.05:
        ctx.refuse("x[0]", lambda: mod.x[rng.choice([0, 0, -1, np.int64(0)])])
        ctx.refuse("product of variables", lambda: pool[-1].obj * pool[0].obj)
        ctx.refuse("adding text", lambda: pool[-1].obj + "1")


# -------------------------------------------------------------------- models
def spread(ctx, mod, vs, coeffs, const, mention=None):
    """An expression written term by term, in random order and style, denoting coeffs . v + const."""
    rng = ctx.rng
    jobs = []
    for j, v in enumerate(coeffs):
        if v == 0:
            if j == mention or rng.random() < 0.04:       # named with coefficient zero
                d = F(0) if rng.random() < 0.5 else value(rng)
                jobs += [(j, d)] + ([(j, -d)] if d else [])
                ctx.count("coefficient zero")
            continue
        while rng.random() < 0.15:        # 5a written as 2a + 3a
            part = value(rng)
            if part and part != v:
                jobs.append((j, part))
                v = v - part
        if v:
            jobs.append((j, v))
    if const:
        jobs.append((None, const))
    rng.shuffle(jobs)
    e = None
    for j, v in jobs:
        if j is None:
            t = number(rng, v)
        else:
            base = vs[j] if rng.random() < 0.6 else mod.x[j + 1]
            if v == 1 and rng.random() < 0.7:
                t = base
            elif v == -1 and rng.random() < 0.7:
                t = -base
            else:
                t = number(rng, v) * base if rng.random() < 0.6 else base * number(rng, v)
        if e is None:
            e = t
        elif rng.random() < 0.2:
            e = t + e
        elif rng.random() < 0.3:
            e = e - (-1 * t)
        else:
            e = e + t
    return e


def state(ctx, mod, lp, vs):
    """The objective and constraints of lp written with the formulation functions."""
    rng = ctx.rng
    n = lp.n
    cons = []
    # the last variable has to be named somewhere
    where = None
    if not any(r[-1] for r in lp.A) and not lp.c[-1]:
        where = rng.choice([-1, -1] + list(range(lp.m)))
        ctx.count("last variable with coefficient zero only")
    for i in range(lp.m):
        left, right = list(lp.A[i]), [F(0)] * n
        lc, rc = F(0), lp.b[i]
        if rng.random() < 0.4:            # move something to the other side
            for j in range(n):
                if rng.random() < 0.4:
                    d = value(rng) if rng.random() < 0.5 else left[j]
                    left[j] -= d
                    right[j] -= d
        if rng.random() < 0.4:
            d = value(rng)
            lc += d
            rc += d
        at = rng.random() < 0.7
        a = spread(ctx, mod, vs, left, lc, n - 1 if where == i and at else None)
        b = spread(ctx, mod, vs, right, rc, n - 1 if where == i and not at else None)
        a = 0 if a is None else a
        b = 0 if b is None else b
        # something symbolic has to be on at least one side, and a lone variable against zero is a sign condition
        plain = (int, float, np.integer, np.floating)
        if isinstance(a, plain) and isinstance(b, plain):
            a = 0 * mod.x[1] + a
        if type(a) is type(vs[0]) and isinstance(b, plain) and b == 0:
            a = a + 0
        if type(b) is type(vs[0]) and isinstance(a, plain) and a == 0:
            b = b + 0
        q = lp.ineq[i]
        if rng.random() < 0.25:
            a, b, q = b, a, FLIP[q]
        cons.append({"<=": lambda: a <= b, ">=": lambda: a >= b, "=": lambda: a == b}[q]())
    e = spread(ctx, mod, vs, lp.c, lp.z, n - 1 if where == -1 else None)
    f = mod.maximize if lp.obj == "max" else mod.minimize
    obj = f(0 if e is None else e)
    return obj, cons


def rows_agree(got, want, ineq):
    """same_obs up to negating a row together with its direction."""
    for i, q in enumerate(want["inequalities"]):
        if i < len(got["inequalities"]) and i < got["A"].shape[0] and got["A"].shape == want["A"].shape:
            neg = np.array_equal(got["A"][i], -want["A"][i]) and got["b"][i] == -want["b"][i] and \
                got["inequalities"][i] == FLIP[q]
            if neg:
                got["A"][i] = want["A"][i]
                got["b"][i] = want["b"][i]
                got["inequalities"][i] = q
    return same_obs(want, got, 1e-9)


def wide_lp(rng):
    """Many rows over many variables, each row naming few of them."""
    m, n = rng.randint(1, 16), rng.randint(1, 20)
    A = [[F(0)] * n for _ in range(m)]
    for r in A:
        top = rng.choice([n, n, rng.randint(1, n)])
        for j in rng.sample(range(top), min(top, rng.randint(1, 3))):
            r[j] = F(rng.randint(-9, 9))
    c = [F(0)] * n
    for j in rng.sample(range(n), min(n, 3)):
        c[j] = F(rng.randint(-9, 9))
    if rng.random() < 0.5:          # the last variable in one row only
        for r in A:
            r[-1] = F(0)
        c[-1] = F(0)
        A[rng.randrange(m)][-1] = F(rng.choice([1, -2, 5]))
    free, neg = gen.signs(rng, n)
    return LP(A, [F(rng.randint(-20, 20)) for _ in range(m)], c, F(rng.randint(-9, 9)), rng.choice(["max", "min"]),
              gen.ineqs(rng, m), free, neg)


def large(rng, lp):
    """Some numbers of the model become large, with many digits."""
    for _ in range(rng.randint(1, 3)):
        v = rng.choice([-1, 1]) * F(rng.randint(10 ** 4, 10 ** 9), rng.choice([1, 1, 8]))
        k = rng.choice("bbAcz")
        if k == "b":
            lp.b[rng.randrange(lp.m)] = v
        elif k == "A":
            lp.A[rng.randrange(lp.m)][rng.randrange(lp.n)] = v
        elif k == "c":
            lp.c[rng.randrange(lp.n)] = v
        else:
            lp.z = v


def model_lp(rng, nmax=6, wide=False):
    lp = wide_lp(rng) if wide else gen.lp(rng, mmax=4, nmax=nmax)
    f = lambda v: F(round(v * 8), 8)
    lp.A = [[f(v) for v in r] for r in lp.A]
    lp.b = [f(v) for v in lp.b]
    lp.c = [f(v) for v in lp.c]
    lp.z = f(lp.z)
    # some variables only in the objective, some only in constraints; the last one appears somewhere
    for j in range(lp.n):
        r = rng.random()
        if r < 0.15:
            for row in lp.A:
                row[j] = F(0)
        elif r < 0.35:
            lp.c[j] = F(0)
    if rng.random() < 0.06:
        lp.c[-1] = F(0)
        for row in lp.A:
            row[-1] = F(0)
    elif not any(row[-1] for row in lp.A) and not lp.c[-1]:
        if rng.random() < 0.5:
            lp.c[-1] = F(2)
        else:
            lp.A[rng.randrange(lp.m)][-1] = F(-3)
    if rng.random() < 0.08:
        lp.c = [F(0)] * lp.n
    return lp


def sign_conditions(ctx, mod, vs, pos, neg):
    rng = ctx.rng
    out = []
    for j in pos:
        out.append(rng.choice([lambda: vs[j] >= 0, lambda: vs[j] >= 0.0, lambda: 0 <= vs[j]])())
    for j in neg:
        out.append(rng.choice([lambda: vs[j] <= 0, lambda: vs[j] <= 0.0, lambda: 0 >= vs[j]])())
    rng.shuffle(out)
    return out


def drive(ctx, mod, lp, kind):
    """States lp, gives its sign conditions in several steps with uses, refused steps and reuse in between, and
    compares the compiled program after every step.  Returns the final model."""
    rng = ctx.rng
    n = lp.n
    vs = mod.variables(n)
    obj, cons = ctx.must("writing the model", state, ctx, mod, lp, vs)
    m = ctx.must("subject_to", obj.subject_to, *cons)
    cur = LP(lp.A, lp.b, lp.c, lp.z, lp.obj, lp.ineq, set(range(n)), set())
    pos, neg = set(), set()
    log = []

    def compare(when):
        cur.free = set(range(n)) - pos - neg
        cur.neg = set(neg)
        p = ctx.must("program", lambda: m.program)
        ctx.check(isinstance(p, kind) and (kind is IntegerProgram or not isinstance(p, IntegerProgram)),
                  lambda: f"{when}: the model compiled to a {type(p).__name__}")
        d = rows_agree(observe(ctx, p), expected_obs(cur), cur.ineq)
        ctx.check(d is None, lambda: f"{when}: the compiled program differs from the stated model (got vs expected "
                  f"swapped as expected vs got): {d}")
        if rng.random() < 0.3:
            d = rows_agree(observe(ctx, m), expected_obs(cur), cur.ineq)
            ctx.check(d is None, lambda: f"{when}: the model's attributes differ: {d}")
        ctx.count("compilations compared")

    want_pos = [j for j in range(n) if j not in lp.free and j not in lp.neg]
    want_neg = sorted(lp.neg)
    if rng.random() < 0.5:
        compare("before any sign condition")
        ctx.count("used before conditions")
    everything = None
    if len(want_pos) == n and rng.random() < 0.6:
        everything = "pos"
    elif len(want_neg) == n and rng.random() < 0.6:
        everything = "neg"
    if everything:
        how = rng.choice(["all", "meta"])
        if how == "all":
            m = ctx.must("whereAll...", m.whereAllPositive if everything == "pos" else m.whereAllNegative)
        else:
            m = ctx.must("where(x ...)", m.where, (mod.x >= 0) if everything == "pos" else (mod.x <= 0))
        (pos if everything == "pos" else neg).update(range(n))
        log.append(how + everything)
        ctx.count("all variables at once")
        compare(f"after {how} {everything}")
    else:
        todo = [("p", j) for j in want_pos] + [("n", j) for j in want_neg]
        rng.shuffle(todo)
        while todo:
            k = rng.randint(1, len(todo))
            step, todo = todo[:k], todo[k:]
            ps = [j for s, j in step if s == "p"]
            ns = [j for s, j in step if s == "n"]
            m = ctx.must("where", m.where, *sign_conditions(ctx, mod, vs, ps, ns))
            pos.update(ps)
            neg.update(ns)
            log.append((tuple(ps), tuple(ns)))
            ctx.count("where steps")
            if rng.random() < 0.7:
                compare("after a where step")
                if rng.random() < 0.3:
                    ctx.must("str(model)", str, m)
            if rng.random() < 0.3:
                refused(ctx, mod, m, vs, pos, neg, log)
    if rng.random() < 0.4:
        refused(ctx, mod, m, vs, pos, neg, log)
    compare("at the end")
    ctx.sig(tuple(map(repr, log)))
    # the objective and the constraints can be used again
    if rng.random() < 0.3:
        m2 = ctx.must("subject_to again", obj.subject_to, *cons)
        q = LP(lp.A, lp.b, lp.c, lp.z, lp.obj, lp.ineq, set(range(n)), set())
        d = rows_agree(observe(ctx, m2), expected_obs(q), q.ineq)
        ctx.check(d is None, lambda: f"a second model from the same statements differs: {d}")
        ctx.must("where on the second model", m2.where, *sign_conditions(ctx, mod, vs, [0], []))
        compare("after using the statements for a second model")
    return m


def refused(ctx, mod, m, vs, pos, neg, log):
    """Duplicated or contradictory sign conditions."""
    rng = ctx.rng
    n = len(vs)
    fresh = [j for j in range(n) if j not in pos and j not in neg]
    tries = []
    if pos:
        j = rng.choice(sorted(pos))
        tries += [([j], []), ([], [j])]
    if neg:
        j = rng.choice(sorted(neg))
        tries += [([j], []), ([], [j])]
    if fresh:
        j = rng.choice(fresh)
        tries += [([j, j], []), ([j], [j]), ([], [j, j])]
    ps, ns = rng.choice(tries)
    if fresh and rng.random() < 0.5:
        (ps if rng.random() < 0.5 else ns).append(rng.choice(fresh))
    if pos or neg:
        r = rng.random()
        if r < 0.12:
            ctx.refuse("whereAllPositive with conditions set", m.whereAllPositive)
            ctx.count("refused sign conditions")
            return
        if r < 0.24:
            ctx.refuse("whereAllNegative with conditions set", m.whereAllNegative)
            ctx.count("refused sign conditions")
            return
        if r < 0.36:
            ctx.refuse("where(x >= 0) with conditions set", m.where, mod.x >= 0)
            ctx.count("refused sign conditions")
            return
    cs = sign_conditions(ctx, mod, vs, ps, ns)
    ctx.refuse(f"where(positive {[j + 1 for j in ps]}, negative {[j + 1 for j in ns]}) after positive "
               f"{[j + 1 for j in sorted(pos)]}, negative {[j + 1 for j in sorted(neg)]}", m.where, *cs)
    log.append(("refused", tuple(ps), tuple(ns)))
    ctx.count("refused sign conditions")


@prop("F02", quick=6000, numeric=True, rule="Models over 1..6 (sometimes 20, with up to 16 rows; sometimes with nine-digit numbers) variables written in random style (terms split and in any order, "
      "constants and terms on both sides, numbers on the left, x[i] and named variables, variables only in the objective "
      "or only in constraints or only with coefficient zero), sign conditions given in several steps with uses and refused steps in between; the "
      "compiled program is compared with the stated model after every step and solved against the exact optimum.  "
      "Distinct by model and history.",
      floors=[("compilations compared", 7640), ("refused sign conditions", 2050), ("models solved", 1350), ("last variable with coefficient zero only", 200), ("many rows and variables", 200), ("large numbers", 190)])
def f02(ctx):
    rng = ctx.rng
    wide, big = rng.random() < 0.08, rng.random() < 0.08
    lp = model_lp(rng, wide=wide)
    if wide:
        ctx.count("many rows and variables")
    if big:
        large(rng, lp)
        ctx.count("large numbers")
    ctx.note(model=str(show(lp)))
    ctx.sig(lp.key())
    ctx.nontrivial = True
    m = drive(ctx, FL, lp, LinearProgram)
    if not wide and not big and rng.random() < 0.6:
        ctx.lps = [lp]
        x = ctx.must("solve", m.solve)
        want = lp.solve()
        ctx.count("models solved")
        ctx.count("oracle:" + want[0])
        if want[0] != "optimal":
            ctx.check(x is None, lambda: f"the model is {want[0]} but solve() returned {short(x)}")
        else:
            ctx.check(x is not None, "the model has an optimum but solve() returned nothing")
            x = vec(x, lp.n, "solution of the model")
            bad = feasible_tol(lp, x)
            ctx.check(bad is None, lambda: f"solution of the model infeasible: {bad}")
            got = sum(float(a) * t for a, t in zip(lp.c, x)) + float(lp.z)
            ctx.check(close(got, want[1], 1e-6, scale_of(lp, x)),
                      lambda: f"solution of the model has value {got}, optimum {float(want[1])}")


@prop("F03", quick=240, rule="Bounded integer models over 1..3 variables stated with the integer formulation functions "
      "and, in the same style, with the linear ones; both compiled programs are compared with the stated model after "
      "every step, and branch and bound with the exact integer optimum; and larger models as in F02, compiled by the integer functions only.  Distinct by model and history.",
      floors=[("compilations compared", 1170), ("integer models solved", 100), ("larger models compiled", 210)], step_limit=60_000_000)
def f03(ctx):
    rng = ctx.rng
    for _ in range(2):          # larger models, compiled only
        wide = rng.random() < 0.3
        lp = model_lp(rng, wide=wide)
        if rng.random() < 0.15:
            large(rng, lp)
        ctx.note(model=str(show(lp)))
        ctx.sig(lp.key())
        drive(ctx, FI, lp, IntegerProgram)
        ctx.count("larger models compiled")
    lp = small_ip(rng, 3)
    f = lambda v: F(round(v * 8), 8)
    lp.A = [[f(v) for v in r] for r in lp.A]
    if not any(row[-1] for row in lp.A) and not lp.c[-1]:
        lp.c[-1] = F(2)
    ctx.note(model=str(show(lp)))
    ctx.sig(lp.key())
    ctx.nontrivial = True
    m = drive(ctx, FI, lp, IntegerProgram)
    l = drive(ctx, FL, lp, LinearProgram)
    d = rows_agree(observe(ctx, m.program), observe(ctx, l.program), lp.ineq)
    ctx.check(d is None, lambda: f"integer and linear formulation differ: {d}")
    if lp.solve()[0] == "unbounded" or not branching(lp, set(range(lp.n)), 20):
        return
    want = solve_ip(lp, set(range(lp.n)))
    x = ctx.must("branch_and_bound", m.branch_and_bound)
    ctx.count("integer models solved")
    if want[0] == "infeasible":
        ctx.check(x is None, lambda: f"no whole point exists but branch_and_bound() returned {short(x)}")
        return
    ctx.check(x is not None, "a whole optimum exists but branch_and_bound() returned nothing")
    x = vec(x, lp.n, "solution of the model")
    ctx.check(all(abs(t - round(t)) <= 1e-6 for t in x), lambda: f"solution {x.tolist()} is not whole")
    bad = feasible_tol(lp, x)
    ctx.check(bad is None, lambda: f"solution {x.tolist()} infeasible: {bad}")
    got = sum(float(a) * t for a, t in zip(lp.c, x)) + float(lp.z)
    ctx.check(close(got, want[1], 1e-6, scale_of(lp, x)), lambda: f"value {got}, optimum {float(want[1])}")
