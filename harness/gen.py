"""Workload generators for programs (exact data; floats are derived from it)."""
from fractions import Fraction as F

from exact import LP, matvec, rank, vecmat, dot

SPARSE = [0, 0, 0, 1, -1, 1, 2, -2]


def entry(rng, mode):
    if mode == "small":
        return F(rng.randint(-5, 5))
    if mode == "unit":
        return F(rng.choice([0, 0, 1, 1, -1]))
    if mode == "sparse":
        return F(rng.choice(SPARSE))
    if mode == "pos":
        return F(rng.randint(0, 9))
    if mode == "half":
        return F(rng.randint(-12, 12), rng.choice([1, 2, 4]))
    if mode == "dec":
        return F(rng.randint(-50, 50), 10)
    if mode == "big":
        return F(rng.randint(-300, 300))
    if mode == "mixed":
        return entry(rng, rng.choice(["small", "unit", "half", "dec"]))
    raise ValueError(mode)


MODES = ["small", "small", "unit", "sparse", "sparse", "pos", "half", "dec", "big", "mixed"]


def matrix(rng, m, n, mode=None):
    mode = mode or rng.choice(MODES)
    return [[entry(rng, mode) for _ in range(n)] for _ in range(m)], mode


def size(rng, mmax=6, nmax=8):
    m = min(mmax, rng.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6]))
    n = min(nmax, rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8]))
    return m, n


def signs(rng, n):
    p = rng.choice([0, 0, 0.25, 0.5, 0.8])
    q = rng.choice([0, 0, 0.25, 0.5, 0.9])
    free, neg = set(), set()
    for j in range(n):
        if rng.random() < p:
            free.add(j)
        elif rng.random() < q:
            neg.add(j)
    return free, neg


def ineqs(rng, m):
    w = rng.choice([["="], ["<="], [">="], ["<=", ">="], ["=", "<="], ["=", ">="], ["=", "<=", ">="],
                    ["=", "<=", ">="]])
    return [rng.choice(w) for _ in range(m)]


def point(rng, n, free, neg, mode="int"):
    """A point satisfying the sign restrictions, often with zeros."""
    x = []
    for j in range(n):
        v = F(rng.choice([0, 0, 1, 2, 3, 5, rng.randint(0, 12)]))
        if mode == "half":
            v = v / rng.choice([1, 2, 4])
        if j in neg:
            v = -v
        elif j in free and rng.random() < 0.5:
            v = -v
        x.append(v)
    return x


def rescale(rng, A, b, c):
    """Sometimes changes the units of a row, a column or the right-hand sides, or makes two rows nearly tied."""
    r = rng.random()
    m, n = len(A), len(c)
    if r < 0.03:
        i, f = rng.randrange(m), F(rng.choice([10, 64, 256, F(1, 8), F(1, 16)]))
        A[i] = [f * v for v in A[i]]
        b[i] *= f
    elif r < 0.06:
        j, f = rng.randrange(n), F(rng.choice([10, 64, 100, F(1, 16), F(1, 8)]))
        for row in A:
            row[j] *= f
        c[j] *= f
    elif r < 0.09:
        f = F(rng.choice([10, 64, 100, F(1, 64)]))
        b[:] = [f * v for v in b]
    elif r < 0.12:
        # rows that bind at nearly, but clearly not, the same place
        f = F(rng.choice([10, 100]))
        b[:] = [f * v for v in b]
        if m >= 2:
            i, k = rng.sample(range(m), 2)
            A[i] = list(A[k]) if n < 3 or rng.random() < 0.3 else A[i]
            b[i] = b[k] + F(rng.choice([-1, 1]), rng.choice([1, 10, 20]))
    elif r < 0.17:
        # small, but far from rounding: 2^-10 .. 2^-15
        d = F(rng.choice([-1, 1]), 2 ** rng.randint(10, 15))
        w = rng.choice(["rows", "rows", "columns", "cost", "rhs", "one rhs", "one cost"])
        if w == "rows" and m >= 2:
            i, k = rng.sample(range(m), 2)
            A[i] = list(A[k])
            if rng.random() < 0.7:
                A[i][rng.randrange(n)] += rng.choice([1, -1, 2])
            b[i] = b[k] + d
        elif w == "columns" and n >= 2:
            j, k = rng.sample(range(n), 2)
            for row in A:
                row[j] = row[k]
            c[j] = c[k] + d
        elif w == "cost":
            c[:] = [abs(d) * v for v in c]
        elif w == "rhs":
            b[:] = [abs(d) * v for v in b]
        elif w == "one rhs":
            b[rng.randrange(m)] += d
        elif w == "one cost":
            c[rng.randrange(n)] += d
    elif r < 0.21 and max(abs(v) for row in A for v in row) <= 12:
        # other units: a row or a column becomes thousands of times smaller or larger
        f = F(2) ** rng.choice([-18, -17, -14, -14, -13, -12, -11, 10, 12])
        if m > 3 and f < F(1, 2 ** 14):
            f = F(1, 2 ** 14)
        if rng.random() < 0.4:
            i = rng.randrange(m)
            A[i] = [f * v for v in A[i]]
            b[i] *= f
        else:
            j = rng.randrange(n)
            for row in A:
                row[j] *= f
            if rng.random() < 0.6:
                c[j] *= f


KINDS = ["random", "feasible", "bounded", "bounded", "bounded", "degenerate", "redundant",
         "infeasible", "unbounded", "box", "knapsack"]


def lp(rng, kind=None, mmax=6, nmax=8, obj=None):
    """A program of a given flavour; whatever the flavour, the oracle decides the outcome."""
    kind = kind or rng.choice(KINDS)
    m, n = size(rng, mmax, nmax)
    free, neg = signs(rng, n)
    obj = obj or rng.choice(["max", "min"])
    ineq = ineqs(rng, m)
    A, mode = matrix(rng, m, n)
    z = F(0) if rng.random() < 0.4 else F(rng.randint(-40, 40), rng.choice([1, 2]))
    c = [entry(rng, mode) for _ in range(n)]
    b = [entry(rng, rng.choice([mode, "small", "pos"])) for _ in range(m)]

    def rhs(x, tight):
        out = []
        for i in range(m):
            v = dot(A[i], x)
            s = F(0) if rng.random() < tight else F(rng.randint(0, 6))
            out.append(v + s if ineq[i] == "<=" else v - s if ineq[i] == ">=" else v)
        return out

    if kind in ("feasible", "bounded", "degenerate"):
        x0 = point(rng, n, free, neg)
        if kind == "degenerate":
            x0 = [v if rng.random() < 0.3 else F(0) for v in x0]
        b = rhs(x0, 0.8 if kind == "degenerate" else 0.4)
    if kind in ("bounded", "degenerate"):
        # a dual feasible y: for max, rows <= have y >= 0, >= have y <= 0; c_j <= (yA)_j for x_j >= 0
        sg = 1 if obj == "max" else -1
        y = []
        for i in range(m):
            v = F(rng.choice([0, 0, 1, 2, 3]))
            y.append(v if ineq[i] == "<=" else -v if ineq[i] == ">=" else v * rng.choice([1, -1]))
        yA = vecmat(y, A, n)
        c = []
        for j in range(n):
            s = F(rng.choice([0, 0, 1, 2, 4]))
            v = yA[j] if j in free else yA[j] + s if j in neg else yA[j] - s
            c.append(sg * v)
    elif kind == "redundant":
        x0 = point(rng, n, free, neg)
        if m >= 2:
            for _ in range(rng.randint(1, 2)):
                i = rng.randrange(m)
                k = rng.choice([t for t in range(m) if t != i])
                f = rng.choice([F(1), F(2), F(-1), F(1, 2), F(3)])
                A[i] = [f * v for v in A[k]]
                if m >= 3 and rng.random() < 0.5:
                    l = rng.choice([t for t in range(m) if t != i])
                    A[i] = [a + w for a, w in zip(A[i], A[l])]
        b = rhs(x0, 0.7)
        if rng.random() < 0.5:
            ineq[:] = ["="] * m
            b = rhs(x0, 1)
    elif kind == "infeasible":
        x0 = point(rng, n, free, neg)
        b = rhs(x0, 0.5)
        i = rng.randrange(m)
        if rng.random() < 0.5 and m >= 2:
            k = rng.choice([t for t in range(m) if t != i])
            A[i] = list(A[k])
            if ineq[k] == "<=":
                ineq[i] = rng.choice([">=", "="])
                b[i] = b[k] + rng.randint(1, 5)
            else:
                ineq[i] = rng.choice(["<=", "="])
                b[i] = b[k] - rng.randint(1, 5)
        else:
            # a row of signs that cannot reach its right-hand side
            A[i] = [F(0) if j in free else -abs(v) if j not in neg else abs(v) for j, v in enumerate(A[i])]
            ineq[i] = rng.choice([">=", "="])
            b[i] = F(rng.randint(1, 5))
    elif kind == "unbounded":
        x0 = point(rng, n, free, neg)
        b = rhs(x0, 0.5)
        j = rng.randrange(n)
        s = -1 if j in neg else 1
        for i in range(m):
            v = abs(A[i][j]) * s
            A[i][j] = -v if ineq[i] == "<=" else v if ineq[i] == ">=" else F(0)
        b = rhs(x0, 0.5)
        c[j] = F(s * rng.randint(1, 4)) * (1 if obj == "max" else -1)
    elif kind == "box":
        m = min(mmax, n + rng.randint(0, 2))
        A = [[F(int(i == j)) for j in range(n)] if i < n else [entry(rng, "small") for _ in range(n)]
             for i in range(m)]
        ineq = []
        b = []
        for i in range(m):
            if i < n and i in neg:
                ineq.append(">=")
                b.append(F(-rng.randint(0, 8)))
            else:
                ineq.append("<=")
                b.append(F(rng.randint(0, 8)))
    elif kind == "knapsack":
        A = [[F(rng.randint(1, 9)) for _ in range(n)] for _ in range(m)]
        ineq = [rng.choice(["<=", "<=", ">="]) for _ in range(m)]
        b = [F(rng.randint(5, 40)) for _ in range(m)]
    if rng.random() < 0.08 and n >= 2:       # duplicate column
        j, k = rng.sample(range(n), 2)
        for r in A:
            r[j] = r[k]
    if rng.random() < 0.06:                  # zero column
        j = rng.randrange(n)
        for r in A:
            r[j] = F(0)
    rescale(rng, A, b, c)
    p = LP(A, b, c, z, obj, ineq, free, neg)
    p.kind = kind
    return p


def wide(rng):
    """Many variables in rows that touch only one to three of them; mostly with an optimum."""
    n = rng.randint(9, 15)
    m = rng.randint(3, 9)
    p, q = rng.choice([(0.9, 0.5), (0.85, 0.9), (0.1, 0.95), (0.4, 0.5), (0, 0)])
    free, neg = set(), set()
    for j in range(n):
        if rng.random() < p:
            free.add(j)
        elif rng.random() < q:
            neg.add(j)
    A = [[F(0)] * n for _ in range(m)]
    for i in range(m):
        for j in rng.sample(range(n), rng.randint(1, 3)):
            A[i][j] = F(rng.choice([1, 1, -1, 2, 3]))
    if rng.random() < 0.5:
        for j in range(n):
            if not any(A[i][j] for i in range(m)):
                A[rng.randrange(m)][j] = F(rng.choice([1, -1, 2]))
    obj = rng.choice(["max", "min"])
    ineq = ineqs(rng, m)
    x0 = point(rng, n, free, neg)
    b = []
    for i in range(m):
        v, s = dot(A[i], x0), F(rng.choice([0, 0, 1, 4]))
        b.append(v + s if ineq[i] == "<=" else v - s if ineq[i] == ">=" else v)
    sg = 1 if obj == "max" else -1
    y = []
    for i in range(m):
        v = F(rng.choice([0, 1, 1, 2, 3]))
        y.append(v if ineq[i] == "<=" else -v if ineq[i] == ">=" else v * rng.choice([1, -1]))
    yA = vecmat(y, A, n)
    c = []
    for j in range(n):
        s = F(rng.choice([0, 0, 1, 2]))
        v = yA[j] if j in free else yA[j] + s if j in neg else yA[j] - s
        c.append(sg * v)
    if rng.random() < 0.12:
        c[rng.randrange(n)] += rng.choice([1, -1])
    lp = LP(A, b, c, F(rng.randint(-9, 9)), obj, ineq, free, neg)
    lp.kind = "wide"
    return lp


def sef(rng, kind=None, mmax=5, nmax=8, independent=True):
    """A program in standard equality form; rows independent when asked."""
    for _ in range(60):
        kd = kind or rng.choice(["random", "feasible", "bounded", "bounded", "degenerate", "degenerate",
                                 "slack", "slack", "square", "infeasible", "unbounded"])
        n = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8])
        n = min(n, nmax)
        m = rng.randint(1, min(n, mmax))
        if kd == "square":
            m = n = min(m, 4)
        if kd == "slack":
            m = min(m, 4)
            k = min(n, 4)
            A, mode = matrix(rng, m, k)
            A = [A[i] + [F(int(i == j)) for j in range(m)] for i in range(m)]
            n = k + m
            c = [entry(rng, mode) for _ in range(k)] + [F(0)] * m
            b = [F(rng.choice([0, 0, rng.randint(0, 9), rng.randint(0, 9)])) for _ in range(m)]
            if rng.random() < 0.2:
                b = [-v for v in b]
        else:
            A, mode = matrix(rng, m, n)
            c = [entry(rng, mode) for _ in range(n)]
            b = [entry(rng, rng.choice([mode, "small"])) for _ in range(m)]
            if kd in ("feasible", "bounded", "degenerate", "unbounded", "square"):
                x0 = point(rng, n, (), ())
                if kd == "degenerate":
                    x0 = [v if rng.random() < 0.3 else F(0) for v in x0]
                if kd == "degenerate" and m >= 2 and rng.random() < 0.15:
                    # fewer values than rows, one of them small
                    x0 = [F(0)] * n
                    for j in rng.sample(range(n), m - 1):
                        x0[j] = F(rng.choice([1, 2, 3]))
                    x0[j] /= 2 ** rng.choice([10, 12, 14])
                elif rng.random() < 0.1:         # small values, some or all
                    x0 = [v * F(1, 2 ** rng.choice([0, 9, 12, 14])) for v in x0]
                b = matvec(A, x0)
            if kd in ("bounded", "degenerate"):
                y = [F(rng.randint(-3, 3)) for _ in range(m)]
                yA = vecmat(y, A, n)
                c = [yA[j] - F(rng.choice([0, 0, 1, 2, 4])) for j in range(n)]
            elif kd == "unbounded" and n >= 2:
                j, k = rng.sample(range(n), 2)
                f = rng.choice([F(1), F(1, 2), F(2)])
                for i in range(m):
                    A[i][j] = -f * A[i][k]
                b = matvec(A, x0)
                c[j] = abs(c[j]) + 1
            elif kd == "infeasible":
                i = rng.randrange(m)
                A[i] = [abs(v) for v in A[i]]
                b[i] = F(-rng.randint(1, 5))
                if rng.random() < 0.5:
                    A[i] = [-v for v in A[i]]
                    b[i] = -b[i]
        if kd != "slack":
            rescale(rng, A, b, c)
        elif rng.random() < 0.08 and m >= 2:
            # nearly tied ratios in one column
            i, k = rng.sample(range(m), 2)
            f = F(rng.choice([1000, 20000]))
            b = [f * v for v in b]
            j = rng.randrange(n - m)
            A[i][j] = A[k][j] = F(1)
            b[k] = abs(b[k]) + f
            b[i] = b[k] + F(rng.choice([-1, 1]), rng.choice([1, 10, 20]))
        elif rng.random() < 0.06 and max(abs(v) for row in A for v in row) <= 12:
            # a variable in other units
            j, f = rng.randrange(n - m), F(2) ** rng.choice([-18, -17, -14, -14, -13, -12, 10, 12])
            for row in A:
                row[j] *= f
            if rng.random() < 0.4:
                c[j] *= f
        elif rng.random() < 0.04 and max(abs(v) for row in A for v in row) <= 12:
            # large ratios
            j, f = rng.randrange(n - m), F(1, 2 ** rng.choice([6, 8]))
            for i in range(m):
                A[i][j] *= f
                b[i] = (b[i] or F(rng.randint(1, 9))) * 2 ** rng.choice([3, 5])
            A[rng.randrange(m)][j] = rng.choice([1, 2, 3]) * f
            c[j] = abs(c[j]) + 1
        if rng.random() < 0.08:                  # every right-hand side negative (or zero)
            for i in range(m):
                if b[i] > 0:
                    A[i] = [-v for v in A[i]]
                    b[i] = -b[i]
        if rng.random() < 0.02:                  # a right-hand side just beside zero
            b[rng.randrange(m)] = rng.choice([-1, 1]) * F(1, 2 ** rng.randint(12, 24))
        if independent and rank(A) < m:
            continue
        if not independent and not any(any(r) for r in A):
            continue
        z = F(0) if rng.random() < 0.4 else F(rng.randint(-20, 20))
        p = LP(A, b, c, z)
        p.kind = kd
        return p
    p = LP([[1, 1]], [2], [1, 0])
    p.kind = "fallback"
    return p
