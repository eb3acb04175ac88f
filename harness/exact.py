"""Exact rational linear algebra and linear programming (the oracle).  Independent of numpy and of
the code under test; every LP verdict is certified before it is returned."""
from fractions import Fraction as F
from itertools import combinations


def fr(x):
    return x if isinstance(x, F) else F(x)


def dot(a, b):
    s = F(0)
    for x, y in zip(a, b):
        if x and y:
            s += x * y
    return s


def matvec(A, x):
    return [dot(r, x) for r in A]


def vecmat(y, A, n):
    return [sum((y[i] * A[i][j] for i in range(len(A)) if y[i] and A[i][j]), F(0)) for j in range(n)]


def rref(M):
    """Reduced row echelon form; returns (matrix, pivot columns)."""
    M = [list(map(fr, r)) for r in M]
    piv = []
    r = 0
    rows = len(M)
    cols = len(M[0]) if rows else 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        q = M[r][c]
        M[r] = [v / q for v in M[r]]
        for i in range(rows):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == rows:
            break
    return M, piv


def rank(M):
    return len(rref(M)[1]) if M and M[0] else 0


def solve_square(B, b):
    """Unique solution of B x = b or None."""
    n = len(B)
    M, piv = rref([list(B[i]) + [b[i]] for i in range(n)])
    if piv != list(range(n)):
        return None
    return [M[i][n] for i in range(n)]


def inverse(B):
    n = len(B)
    M, piv = rref([list(B[i]) + [F(int(i == j)) for j in range(n)] for i in range(n)])
    if piv[:n] != list(range(n)) or len(piv) < n:
        return None
    return [r[n:] for r in M]


def cols(A, B):
    return [[r[j] for j in B] for r in A]


def is_basis(A, B):
    m = len(A)
    n = len(A[0])
    return len(B) == m and len(set(B)) == m and all(0 <= j < n for j in B) and rank(cols(A, B)) == m


def basic_solution(A, b, B):
    xb = solve_square(cols(A, B), b)
    if xb is None:
        return None
    x = [F(0)] * len(A[0])
    for j, v in zip(B, xb):
        x[j] = v
    return x


def canonical(A, b, c, z, B):
    """(A', b', c', z') of max cx+z, Ax=b for basis B (rows in the order of B)."""
    inv = inverse(cols(A, B))
    m, n = len(A), len(A[0])
    A2 = [[dot(inv[i], [A[k][j] for k in range(m)]) for j in range(n)] for i in range(m)]
    b2 = [dot(inv[i], b) for i in range(m)]
    cb = [c[j] for j in B]
    c2 = [c[j] - dot(cb, [A2[i][j] for i in range(m)]) for j in range(n)]
    z2 = z + dot(cb, b2)
    return A2, b2, c2, z2


def all_bases(A):
    n = len(A[0])
    return [list(B) for B in combinations(range(n), len(A)) if rank(cols(A, B)) == len(A)]


def bland_step(A, b, c, B):
    """One iteration from feasible basis B (0-based): ('optimal', x) | ('unbounded', x, d) |
    ('pivot', newB sorted)."""
    B = sorted(B)
    A2, b2, c2, _ = canonical(A, b, c, F(0), B)
    n = len(A[0])
    k = next((j for j in range(n) if j not in B and c2[j] > 0), None)
    x = [F(0)] * n
    for i, j in enumerate(B):
        x[j] = b2[i]
    if k is None:
        return ("optimal", x)
    col = [r[k] for r in A2]
    if all(v <= 0 for v in col):
        d = [F(0)] * n
        d[k] = F(1)
        for i, j in enumerate(B):
            d[j] = -col[i]
        return ("unbounded", x, d)
    t = min(b2[i] / col[i] for i in range(len(B)) if col[i] > 0)
    leave = min(B[i] for i in range(len(B)) if col[i] > 0 and b2[i] / col[i] == t)
    return ("pivot", sorted([j for j in B if j != leave] + [k]))


# ------------------------------------------------------------------ tableau LP
def _pivot(T, basis, r, k):
    p = T[r][k]
    if p != 1:
        T[r] = [v / p for v in T[r]]
    R = T[r]
    nz = [j for j, v in enumerate(R) if v]
    for i, row in enumerate(T):
        if i != r and row[k]:
            f = row[k]
            for j in nz:
                row[j] -= f * R[j]
    basis[r] = k


def _run(T, basis, ncols, obj):
    """Bland's simplex on tableau rows 0..m-1 with objective row obj (reduced costs of a max)."""
    m = len(basis)
    while True:
        k = next((j for j in range(ncols) if T[obj][j] > 0), None)
        if k is None:
            return None
        best = None
        for i in range(m):
            if T[i][k] > 0:
                t = T[i][-1] / T[i][k]
                if best is None or t < best[0] or (t == best[0] and basis[i] < basis[best[1]]):
                    best = (t, i)
        if best is None:
            return k
        _pivot(T, basis, best[1], k)


def solve_std(A, b, c):
    """max cx, Ax = b, x >= 0 over the rationals.
    ('optimal', value, x, y) | ('infeasible', y) | ('unbounded', x, d); certificates verified."""
    m = len(A)
    n = len(c)
    if m == 0:
        k = next((j for j in range(n) if c[j] > 0), None)
        if k is None:
            return ("optimal", F(0), [F(0)] * n, [])
        return ("unbounded", [F(0)] * n, [F(int(j == k)) for j in range(n)])
    s = [-1 if v < 0 else 1 for v in b]
    T = [[s[i] * v for v in A[i]] + [F(int(i == k)) for k in range(m)] + [s[i] * b[i]] for i in range(m)]
    T.append([sum((T[i][j] for i in range(m)), F(0)) for j in range(n)] + [F(0)] * m
             + [sum((T[i][-1] for i in range(m)), F(0))])
    basis = [n + i for i in range(m)]
    T = [list(map(fr, r)) for r in T]
    _run(T, basis, n, m)
    if T[m][-1] > 0:
        # phase 1 duals: reduced cost of artificial i is -y_i (max -sum a): y from obj row
        y = [s[i] * (-(T[m][n + i]) - 1) for i in range(m)]
        # obj row holds 0 - (stuff); derive Farkas y with yA >= 0, yb < 0
        for cand in (y, [-v for v in y]):
            if all(v >= 0 for v in vecmat(cand, A, n)) and dot(cand, b) < 0:
                return ("infeasible", cand)
        y = [s[i] * (-1 - T[m][n + i]) for i in range(m)]
        raise AssertionError("exact oracle: no Farkas vector")
    rows = T[:m]
    # drive artificials out, dropping dependent rows
    keep = []
    for i in range(m):
        if basis[i] >= n:
            k = next((j for j in range(n) if rows[i][j] != 0), None)
            if k is None:
                continue
            _pivot(rows, basis, i, k)
        keep.append(i)
    rows = [rows[i] for i in keep]
    basis = [basis[i] for i in keep]
    rows = [r[:n] + r[n:n + m] + [r[-1]] for r in rows]
    obj = list(map(fr, c)) + [F(0)] * m + [F(0)]
    for i, j in enumerate(basis):
        f = obj[j]
        if f:
            obj = [a - f * v for a, v in zip(obj, rows[i])]
    T = rows + [obj]
    k = _run(T, basis, n, len(basis))
    x = [F(0)] * n
    for i, j in enumerate(basis):
        x[j] = T[i][-1]
    assert all(v >= 0 for v in x) and matvec(A, x) == [fr(v) for v in b]
    if k is not None:
        d = [F(0)] * n
        d[k] = F(1)
        for i, j in enumerate(basis):
            d[j] = -T[i][k]
        assert all(v >= 0 for v in d) and not any(matvec(A, d)) and dot(c, d) > 0
        return ("unbounded", x, d)
    # dual from the artificial columns (they carry s_i * e_i of the original rows)
    y = [-T[-1][n + i] * s[i] for i in range(m)]
    v = dot(c, x)
    assert all(a <= 0 for a in [c[j] - w for j, w in enumerate(vecmat(y, A, n))]) and dot(y, b) == v
    return ("optimal", v, x, y)


class LP:
    """A program in exact data.  free/neg are 0-based sets."""

    def __init__(self, A, b, c, z=F(0), obj="max", ineq=None, free=(), neg=()):
        self.A = [[fr(v) for v in r] for r in A]
        self.b = [fr(v) for v in b]
        self.c = [fr(v) for v in c]
        self.z = fr(z)
        self.obj = obj
        self.ineq = list(ineq) if ineq is not None else ["="] * len(b)
        self.free = set(free)
        self.neg = set(neg)

    @property
    def m(self):
        return len(self.b)

    @property
    def n(self):
        return len(self.c)

    def clone(self):
        return LP(self.A, self.b, self.c, self.z, self.obj, self.ineq, self.free, self.neg)

    def key(self):
        return (tuple(map(tuple, self.A)), tuple(self.b), tuple(self.c), self.z, self.obj,
                tuple(self.ineq), tuple(sorted(self.free)), tuple(sorted(self.neg)))

    def show(self):
        f = lambda v: str(v)
        return {"A": [[f(v) for v in r] for r in self.A], "b": [f(v) for v in self.b],
                "c": [f(v) for v in self.c], "z": f(self.z), "objective": self.obj,
                "inequalities": self.ineq, "free": sorted(i + 1 for i in self.free),
                "negative": sorted(i + 1 for i in self.neg)}

    @property
    def is_sef(self):
        return self.obj == "max" and all(q == "=" for q in self.ineq) and not self.free and not self.neg

    def value(self, x):
        return dot(self.c, x) + self.z

    def std(self):
        """Standard form of a maximization: (A,b,c, back) with back mapping points."""
        sg = 1 if self.obj == "max" else -1
        colspec = []
        for j in range(self.n):
            if j in self.free:
                colspec += [(j, 1), (j, -1)]
            elif j in self.neg:
                colspec.append((j, -1))
            else:
                colspec.append((j, 1))
        sl = [i for i in range(self.m) if self.ineq[i] != "="]
        A = []
        for i in range(self.m):
            row = [s * self.A[i][j] for j, s in colspec]
            row += [(F(0) if k != i else F(1 if self.ineq[i] == "<=" else -1)) for k in sl]
            A.append(row)
        c = [sg * s * self.c[j] for j, s in colspec] + [F(0)] * len(sl)

        def back(v):
            x = [F(0)] * self.n
            for (j, s), t in zip(colspec, v):
                x[j] += s * t
            return x
        return A, list(self.b), c, back

    def solve(self):
        """('optimal', value incl. z, x) | ('infeasible',) | ('unbounded', x, d)"""
        A, b, c, back = self.std()
        r = solve_std(A, b, c)
        if r[0] == "optimal":
            x = back(r[2])
            v = self.value(x)
            assert self.feasible(x)
            return ("optimal", v, x)
        if r[0] == "unbounded":
            return ("unbounded", back(r[1]), back(r[2]))
        return ("infeasible",)

    def violations(self, x):
        """List of (amount>=0, scale) for every row and sign; amount 0 = satisfied."""
        out = []
        for i in range(self.m):
            v = dot(self.A[i], x)
            q = self.ineq[i]
            d = v - self.b[i]
            a = abs(d) if q == "=" else (max(d, F(0)) if q == "<=" else max(-d, F(0)))
            out.append((a, abs(self.b[i])))
        for j in range(self.n):
            if j in self.free:
                continue
            a = max(x[j], F(0)) if j in self.neg else max(-x[j], F(0))
            out.append((a, F(0)))
        return out

    def feasible(self, x):
        return all(a == 0 for a, _ in self.violations(x))


def feasible_tol(lp, x, tol=1e-6):
    """Feasible up to rounding: tolerance relative to the magnitudes that occur in each row."""
    xs = [fr(v) for v in x]
    for i in range(lp.m):
        v = dot(lp.A[i], xs)
        sc = 1 + abs(float(lp.b[i])) + sum(abs(float(a * t)) for a, t in zip(lp.A[i], xs))
        d = float(v - lp.b[i])
        q = lp.ineq[i]
        if (q == "=" and abs(d) > tol * sc) or (q == "<=" and d > tol * sc) or (q == ">=" and d < -tol * sc):
            return f"row {i + 1}: {float(v)} {q} {float(lp.b[i])} fails"
    for j in range(lp.n):
        t = float(xs[j])
        if j in lp.free:
            continue
        if (j in lp.neg and t > tol) or (j not in lp.neg and t < -tol):
            return f"sign restriction of variable {j + 1} fails: {t}"
    return None


def solve_ip(lp, integral):
    """Exact optimum over points whose `integral` (0-based set) entries are whole, by branch and
    bound over the exact LP.  The region must be bounded.  ('optimal', value, x) | ('infeasible',)"""
    sg = 1 if lp.obj == "max" else -1
    best = [None, None]

    def rec(p):
        r = p.solve()
        if r[0] == "infeasible":
            return
        if r[0] == "unbounded":
            raise AssertionError("unbounded relaxation")
        if best[0] is not None and sg * r[1] <= sg * best[0]:
            return
        x = r[2]
        k = next((j for j in sorted(integral) if x[j].denominator != 1), None)
        if k is None:
            best[0], best[1] = r[1], x
            return
        fl = x[k].numerator // x[k].denominator
        for q, v in (("<=", fl), (">=", fl + 1)):
            p2 = p.clone()
            p2.A.append([F(int(j == k)) for j in range(p.n)])
            p2.b.append(F(v))
            p2.ineq.append(q)
            rec(p2)
    rec(lp)
    if best[0] is None:
        return ("infeasible",)
    return ("optimal", best[0], best[1])
