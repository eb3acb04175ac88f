"""N01, N02: unconstrained programs."""
import math

import numpy as np

from core import Skip, Violation, prop, short
from lpio import snap, vec

from pytimize.programs import UnconstrainedProgram


class Fn:
    """f(x) = s * (1/2 (x-u)'Q(x-u) + sum_i w_i g(x_i - u_i) + k), s = +1 to minimize, -1 to maximize, g even or
    g = exp, all strictly convex; records where it is evaluated."""

    def __init__(self, rng, kind, n, objective, cond):
        self.n, self.kind = n, kind
        self.s = 1.0 if objective == "min" else -1.0
        if n == 1 or rng.random() < 0.3:
            Q = np.diag([rng.uniform(1, cond) for _ in range(n)])
        else:
            M = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
            q, _ = np.linalg.qr(M)
            Q = q @ np.diag([rng.uniform(1, cond) for _ in range(n)]) @ q.T
            Q = (Q + Q.T) / 2
        f = rng.choice([1, 1, 0.5, 2])
        self.Q = Q * f
        self.u = np.array([rng.choice([0.0, 1.0, -2.0, 3.5, round(rng.uniform(-6, 6), 2)]) for _ in range(n)])
        self.k = rng.choice([0.0, 0.0, 5.0, -20.0])
        self.w = np.array([rng.choice([0.2, 0.5, 1.0]) for _ in range(n)]) if kind != "quadratic" else np.zeros(n)
        self.mu = float(np.linalg.eigvalsh(self.Q)[0])
        self.points = []
        self.fpoints = 0
        self.as_list = rng.random() < 0.3
        self.opt = self.solve()

    def steepen(self, scale):
        """The same function in other units of value; its optimizer stays."""
        self.Q, self.w, self.k, self.mu = self.Q * scale, self.w * scale, self.k * scale, self.mu * scale
        return self

    def centre(self):
        """Optimizer and optimal value at zero, where floating point is finest."""
        self.u, self.k = np.zeros(self.n), 0.0
        self.opt = self.solve()
        return self

    def g(self, t, order):
        if self.kind == "quadratic":
            return np.zeros_like(t)
        if self.kind == "cosh":
            return [np.cosh, np.sinh, np.cosh][order](t)
        if self.kind == "quartic":
            return [lambda: t ** 4 / 4, lambda: t ** 3, lambda: 3 * t ** 2][order]()
        return np.exp(t)

    def value(self, x):
        d = np.asarray(x, dtype=float) - self.u
        return float(self.s * (0.5 * d @ self.Q @ d + self.w @ self.g(d, 0) + self.k))

    def grad(self, x):
        d = np.asarray(x, dtype=float) - self.u
        return self.s * (self.Q @ d + self.w * self.g(d, 1))

    def hess(self, x):
        d = np.asarray(x, dtype=float) - self.u
        return self.s * (self.Q + np.diag(self.w * self.g(d, 2)))

    def solve(self):
        """The optimizer: exact for symmetric kinds, otherwise damped Newton to machine precision."""
        if self.kind != "exp":
            return self.u.copy()
        x = self.u.copy()
        for _ in range(200):
            g = self.s * self.grad(x)
            step = np.linalg.solve(self.s * self.hess(x), -g)
            a = 1.0
            while self.s * self.value(x + a * step) > self.s * self.value(x) + 1e-14 and a > 1e-8:
                a /= 2
            x = x + a * step
        assert np.linalg.norm(self.grad(x)) < 1e-8
        return x

    # what the package gets to see
    def f(self, x):
        self.fpoints += 1
        return self.value(x)

    def df(self, x):
        p = np.array(x, dtype=float).tobytes()
        if not self.points or self.points[-1] != p:
            self.points.append(p)
        g = self.grad(x)
        return g.tolist() if self.as_list else g

    def d2f(self, x):
        h = self.hess(x)
        return h.tolist() if self.as_list else h

    def steps(self):
        """Distinct points at which the gradient was asked for."""
        return len(dict.fromkeys(self.points))


def start_point(rng, fn, spread):
    n = fn.n
    style = rng.choice(["list", "array", "int list", "int array", "float list", "array", "at the optimum"])
    if style in ("int list", "int array"):
        v = [int(round(float(t))) + rng.randint(-spread, spread) for t in fn.u]
        return (v if style == "int list" else np.array(v)), style
    v = [float(t) + round(rng.uniform(-spread, spread), 3) for t in fn.u]
    if style == "at the optimum":
        return fn.opt.copy(), style
    if style == "list" and rng.random() < 0.3:
        v[0] = int(round(v[0]))
    return (np.array(v, dtype=float) if style == "array" else v), style


def describe(ctx, fn, objective, x0, style, kw):
    ctx.note(kind=fn.kind, objective=objective, Q=fn.Q.tolist(), optimizer=fn.opt.tolist(), start=list(map(float, x0)),
             style=style, arguments=str(kw))
    ctx.sig(fn.kind, objective, tuple(map(tuple, fn.Q.tolist())), tuple(fn.opt.tolist()), tuple(map(float, x0)), style, str(kw))
    ctx.nontrivial = True


def judge(ctx, fn, name, x0, x, tol, limit, before):
    start = np.array(before[1], dtype=float)
    ctx.check(snap(x0) == before[0], lambda: f"{name} changed the caller's starting point to {short(x0)}")
    x = vec(x, fn.n, f"{name} result")
    ctx.check(x is not x0, f"{name} returned the caller's own array")
    g = float(np.linalg.norm(fn.grad(x)))
    steps = fn.steps()
    if limit is not None:
        ctx.check(steps <= limit + 1, lambda: f"{name}: the gradient was asked for at {steps} points with an iteration "
                  f"limit of {limit}")
    if limit is None or steps <= limit - 1:
        ctx.check(g <= tol * (1 + 1e-6), lambda: f"{name} stopped at {x.tolist()} with gradient norm {g} > {tol} "
                  f"after {steps} points; optimizer {fn.opt.tolist()}")
    if g <= tol:
        ctx.count("converged")
        d = float(np.linalg.norm(x - fn.opt))
        ctx.check(d <= tol / fn.mu * (1 + 1e-6) + 1e-9, lambda: f"{name} result {x.tolist()} is {d} from the optimizer {fn.opt.tolist()}")
    else:
        ctx.count("stopped by the limit")
    return x, g, start


@prop("N01", quick=21000, rule="Strictly convex functions to minimize and concave ones to maximize: quadratics of condition "
      "up to 15 and quadratics plus cosh, quartic or exponential terms, in 1..4 dimensions with any optimizer, some 10^8 times steeper "
      "or started 150 away; starts as lists and arrays of integers and floats; default and varied step, backtracking, tolerance and iteration limits (0, 1, 2 and "
      "many).  Every gradient point is recorded.  Distinct by function, start and arguments.",
      floors=[("converged", 7080), ("stopped by the limit", 2310), ("max", 4710), ("min", 4670), ("steep", 200), ("far starts", 200)])
def n01(ctx):
    rng = ctx.rng
    objective = rng.choice(["min", "max"])
    kind = rng.choice(["quadratic", "quadratic", "cosh", "quartic", "exp"])
    fn = Fn(rng, kind, rng.randint(1, 4), objective, rng.choice([1, 3, 6, 15]))
    spread = rng.choice([1, 3])
    r = rng.random()
    if r < 0.06 and kind == "quadratic":
        # so steep that steps of a millionth and less are needed
        fn = fn.centre().steepen(rng.choice([1e4, 1e6, 1e7, 1e8]))
        ctx.count("steep")
    elif r < 0.12 and kind == "quadratic":
        spread = rng.choice([20, 150])
        ctx.count("far starts")
    elif r < 0.15:
        fn.steepen(rng.choice([0.05, 20.0]))
    x0, style = start_point(rng, fn, spread)
    kw = {}
    if rng.random() < 0.4:
        kw["alpha"] = rng.choice([1, 0.5, 2.0, 10])
    if rng.random() < 0.3:
        kw["c"] = rng.choice([0.1, 0.5, 0.01])
    if rng.random() < 0.3:
        kw["p"] = rng.choice([0.5, 0.8, 0.3])
    tol = 10e-5
    if rng.random() < 0.4:
        tol = kw["tolerance"] = rng.choice([1e-3, 1e-2, 1e-4, 1e-5])
    limit = 20000
    r = rng.random()
    if r < 0.25:
        limit = rng.choice([1, 1, 2, 3, 5])
    elif r < 0.3:
        limit = 0
    kw["max_iteration"] = limit
    if r > 0.8:
        kw.pop("max_iteration")
        limit = None
    describe(ctx, fn, objective, x0, style, kw)
    ctx.count(objective)
    before = (snap(x0), list(map(float, x0)))
    p = ctx.must("UnconstrainedProgram", UnconstrainedProgram, fn.f, objective) if objective == "max" or rng.random() < 0.6 \
        else ctx.must("UnconstrainedProgram", UnconstrainedProgram, fn.f)
    x = ctx.must("steepest_descent", p.steepest_descent, x0, fn.df, **kw)
    x, g, start = judge(ctx, fn, "steepest_descent", x0, x, tol, limit, before)
    a, b = fn.s * fn.value(x), fn.s * fn.value(start)
    ctx.check(a <= b + 1e-9 * (1 + abs(b)), lambda: f"steepest_descent went from value {fn.value(start)} to the worse {fn.value(x)} "
              f"({objective})")
    if limit == 0:
        ctx.check(np.array_equal(x, start), lambda: f"no iterations allowed but the point moved from {start.tolist()} to {x.tolist()}")
        ctx.count("limit of zero")
    if limit == 1 and kw.get("alpha") is None:
        # one step along the gradient, away from or towards it as the objective asks
        d, gr = x - start, fn.s * fn.grad(start)
        if np.linalg.norm(gr) > 1e-3:
            ctx.check(d @ gr <= 0 and np.linalg.norm(d * np.linalg.norm(gr) - (d @ gr) / np.linalg.norm(gr) * gr)
                      <= 1e-6 * (1 + np.linalg.norm(gr)) * (1 + np.linalg.norm(d)),
                      lambda: f"one step from {start.tolist()} went to {x.tolist()}, not along the gradient {gr.tolist()}")
            ctx.count("single steps")
    if kind == "quadratic" and rng.random() < 0.2:
        again = ctx.must("steepest_descent again", p.steepest_descent, x0, fn.df, **kw)
        ctx.check(np.array_equal(np.asarray(again, dtype=float), x), "the same call gave another result")


@prop("N02", quick=30000, rule="Strictly convex functions to minimize and concave ones to maximize: quadratics (optimizer "
      "after one step) and quadratics plus cosh, quartic or exponential terms, in 1..4 dimensions with any optimizer, a thousandth "
      "to a million times as steep, quadratics started up to 5000 away, others from where a dozen steps and more are needed; starts as lists and arrays of integers and floats; default and varied tolerance and iteration limits.  Every gradient point "
      "is recorded.  Distinct by function, start and arguments.",
      floors=[("converged", 11360), ("stopped by the limit", 2090), ("single steps", 800), ("max", 6750), ("min", 6710), ("other scales", 2670), ("far starts", 790), ("many steps needed", 1180)])
def n02(ctx):
    rng = ctx.rng
    objective = rng.choice(["min", "max"])
    kind = rng.choice(["quadratic", "quadratic", "cosh", "quartic", "exp"])
    fn = Fn(rng, kind, rng.randint(1, 4), objective, rng.choice([1, 3, 10, 50]))
    spread = rng.choice([1, 2, 3])
    if rng.random() < 0.2:
        fn.steepen(rng.choice([1e-3, 1e2, 1e4, 1e6]))
        ctx.count("other scales")
    if kind == "quadratic" and rng.random() < 0.15:
        spread = rng.choice([50, 400, 5000])
        ctx.count("far starts")
    climb = kind != "quadratic" and rng.random() < 0.15
    if climb:
        # one dimension at a time the steps shrink evenly: a dozen of them and more, never a diverging one
        fn = Fn(rng, kind, 1, objective, 3)
        ctx.count("many steps needed")
        x0 = [float(fn.opt[0]) + (rng.uniform(10, 24) if kind != "quartic" else rng.uniform(50, 900))]
        if kind != "exp" and rng.random() < 0.5:
            x0[0] = 2 * float(fn.opt[0]) - x0[0]
        style = "climb"
        if rng.random() < 0.3:
            x0 = np.array(x0)
    else:
        x0, style = start_point(rng, fn, spread)
    kw = {}
    tol = 10e-5
    if rng.random() < 0.4:
        tol = kw["tolerance"] = rng.choice([1e-3, 1e-2, 1e-5, 1e-6])
    limit = 2000
    r = rng.random()
    if r < 0.3:
        limit = rng.choice([1, 1, 2, 3])
    elif r < 0.34:
        limit = 0
    if r < 0.8:
        kw["max_iteration"] = limit
    describe(ctx, fn, objective, x0, style, kw)
    ctx.count(objective)
    before = (snap(x0), list(map(float, x0)))
    p = ctx.must("UnconstrainedProgram", UnconstrainedProgram, fn.f, objective) if objective == "max" or rng.random() < 0.6 \
        else ctx.must("UnconstrainedProgram", UnconstrainedProgram, fn.f)
    x = ctx.must("newton_method", p.newton_method, x0, fn.df, fn.d2f, **kw)
    x, g, start = judge(ctx, fn, "newton_method", x0, x, tol, limit, before)
    if limit == 0:
        ctx.check(np.array_equal(x, start), lambda: f"no iterations allowed but the point moved from {start.tolist()} to {x.tolist()}")
    elif kind == "quadratic":
        d = float(np.linalg.norm(x - fn.opt))
        ctx.check(d <= 1e-6 + 1e-9 * float(np.linalg.norm(start)), lambda: f"newton_method is {d} from the optimizer {fn.opt.tolist()} of a quadratic")
        ctx.check(fn.steps() <= 3, lambda: f"newton_method asked for the gradient at {fn.steps()} points of a quadratic")
        if limit == 1:
            ctx.count("single steps")
    if rng.random() < 0.2:
        again = ctx.must("newton_method again", p.newton_method, x0, fn.df, fn.d2f, **kw)
        ctx.check(np.array_equal(np.asarray(again, dtype=float), x), "the same call gave another result")
