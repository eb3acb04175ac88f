"""D01..D04: directed graphs and maximum flows."""
import collections
import itertools
from fractions import Fraction as F

from core import Skip, Violation, prop, short
from lpio import num, snap, truth
from props.undirected import POOLS, UNIT, names, query_args, weight

from pytimize.graphs import DirectedGraph


class Model:
    """Reference: nodes -> demand, arcs (ordered pairs) -> weight."""

    def __init__(self):
        self.v = {}
        self.a = {}

    def clone(self):
        m = Model()
        m.v, m.a = dict(self.v), dict(self.a)
        return m

    def add(self, arc, w=0):
        assert arc[0] != arc[1] and arc not in self.a
        for t in arc:
            self.v.setdefault(t, 0)
        self.a[arc] = w


def private(g, name, like):
    """A private dictionary of the graph when it is there in the expected form (extra look, never required)."""
    d = getattr(g, name, None)
    return d if isinstance(d, dict) and set(d) == set(like) and \
        all(isinstance(w, (int, float)) for w in d.values()) else None


def has_weight(ctx, g, m, arc, w, what):
    """The weight of an arc, through the flow it admits: a flow of exactly the weight is within capacity,
    a little more is not.  (Residuals need non-negative weights everywhere.)"""
    if any(t < 0 for t in m.a.values()):
        return
    ok, r = ctx.attempt("create_residual", g.create_residual, {arc: w})
    ctx.check(ok, lambda: f"{what}: arc {arc} does not admit its weight {w}: {type(r).__name__} {r}")
    d = max(1e-6, abs(w) * 1e-6)
    ok, r = ctx.attempt("create_residual", g.create_residual, {arc: w + d})
    ctx.check(not ok, lambda: f"{what}: arc {arc} of weight {w} admits more flow than that")
    ctx.count("weights probed")


def agree(ctx, g, m, what, probes=(), weights=True):
    nodes = list(ctx.must("nodes", lambda: g.nodes))
    arcs = list(ctx.must("arcs", lambda: g.arcs))
    ctx.check(sorted(nodes) == sorted(m.v), lambda: f"{what}: nodes {short(sorted(nodes))}, expected {sorted(m.v)}")
    ctx.check(sorted(map(tuple, arcs)) == sorted(m.a), lambda: f"{what}: arcs {short(sorted(map(tuple, arcs)))}, expected {sorted(m.a)}")
    for arc in m.a:
        ctx.check(truth(ctx.must("has_arc", g.has_arc, arc), "has_arc") is True, lambda: f"{what}: has_arc({arc}) is False")
        back = arc[::-1]
        ctx.check(truth(ctx.must("has_arc", g.has_arc, back), "has_arc") == (back in m.a),
                  lambda: f"{what}: has_arc({back}) is wrong")
    for v in m.v:
        ctx.check(truth(ctx.must("has_node", g.has_node, v), "has_node") is True, lambda: f"{what}: has_node({v!r}) is False")
    for a in probes:
        ctx.check(truth(ctx.must("has_node", g.has_node, a), "has_node") == (a in m.v), lambda: f"{what}: has_node({a!r}) is wrong")
        for b in probes:
            ctx.check(truth(ctx.must("has_arc", g.has_arc, (a, b)), "has_arc") == ((a, b) in m.a),
                      lambda: f"{what}: has_arc({(a, b)}) is wrong")
    if weights:
        d = private(g, "_arcs", m.a)
        if d is not None:
            ctx.check(all(d[k] == w for k, w in m.a.items()), lambda: f"{what}: arc weights {short(d)}, expected {m.a}")
        d = private(g, "_nodes", m.v)
        if d is not None:
            ctx.check(all(d[k] == w for k, w in m.v.items()), lambda: f"{what}: node weights {short(d)}, expected {m.v}")
            ctx.count("node weights read")
    ctx.count("digraphs compared with the history")


def build(ctx, m, how=None, verify=True):
    rng = ctx.rng
    how = how or rng.choice(["ops", "ctor", "ctor"])
    arcs = list(m.a.items())
    verts = list(m.v.items())
    rng.shuffle(arcs)
    rng.shuffle(verts)
    if how == "ops":
        g = ctx.must("DirectedGraph()", DirectedGraph)
        for v, w in verts:
            if rng.random() < 0.5 or not any(v in a for a in m.a):
                ctx.must("add_node", g.add_node, v, w)
        for a, w in arcs:
            new = [t for t in a if not g.has_node(t)]
            if len(new) == 2:
                ctx.must("add_arc", g.add_arc, a, w, (m.v[a[0]], m.v[a[1]]))
            elif len(new) == 1:
                ctx.must("add_arc", g.add_arc, a, w, m.v[new[0]])
            else:
                ctx.must("add_arc", g.add_arc, a, w)
    else:
        kw = {}
        if rng.random() < 0.5:
            adj = {}
            for v, _ in verts:
                out = {b for a, b in m.a if a == v}
                if out and rng.random() < 0.7:
                    adj[v] = out
                elif not any(v in a for a in m.a):
                    adj[v] = set()
            kw["graph"] = adj
        kw["arcs"] = dict(arcs)
        kw["nodes"] = dict(verts)
        if rng.random() < 0.6:
            # what another dictionary names already, with the default weight, need not be repeated
            adj = kw.get("graph", {})
            kw["arcs"] = {e: w for e, w in arcs if w != 0 or e[1] not in adj.get(e[0], ())}
            named = set(adj) | {t for v in adj.values() for t in v} | {t for e in kw["arcs"] for t in e}
            kw["nodes"] = {v: w for v, w in verts if w != 0 or v not in named}
            for k in ("graph", "arcs", "nodes"):
                if k in kw and not kw[k]:
                    del kw[k]
        lent = snap(kw)
        g = ctx.must("DirectedGraph(...)", lambda: DirectedGraph(**kw))
        ctx.check(snap(kw) == lent, "the constructor changed the caller's dictionaries")
    if verify:
        agree(ctx, g, m, f"built by {how}")
    return g


def random_model(rng, kmax=7, kmin=2, wmode=None):
    k = rng.randint(kmin, kmax)
    if kmax == 7 and rng.random() < 0.04:
        k = rng.randint(8, 14)
    vs = names(rng, k)
    m = Model()
    for v in vs:
        m.v[v] = rng.choice([0, 0, 1, 2, -1, 3.5, 10 ** 9, 1e-4])
    shape = rng.choice(["random", "random", "dense", "sparse", "layers", "layers", "path", "cycle", "anti", "complete"])
    prs = list(itertools.permutations(vs, 2))
    rng.shuffle(prs)
    if shape in ("random", "dense", "sparse"):
        d = {"dense": 0.7, "sparse": 0.2, "random": rng.random()}[shape]
        pick = [e for e in prs if rng.random() < d]
    elif shape == "complete":
        pick = prs
    elif shape == "anti":
        pick = []
        for a, b in itertools.combinations(vs, 2):
            if rng.random() < 0.5:
                pick += [(a, b), (b, a)]
            elif rng.random() < 0.3:
                pick.append((a, b) if rng.random() < 0.5 else (b, a))
    elif shape == "layers":
        pick = [(vs[i], vs[j]) for i in range(k) for j in range(k)
                if i != j and ((0 < j - i <= 2 and rng.random() < 0.75) or rng.random() < 0.1)]
    else:
        pick = [(vs[i - 1], vs[i]) for i in range(1, k)]
        if shape == "cycle" and k > 2:
            pick.append((vs[-1], vs[0]))
        pick += [e for e in prs if e not in pick and rng.random() < 0.1]
    wm = wmode or rng.choice(["int", "int", "half", "float", "unit", None, "tiny", "near", "huge", "exact"])
    for e in pick:
        m.add(e, weight(rng, wm))
    m.order = vs
    m.shape = shape
    return m


def note_graph(ctx, m, **kw):
    ctx.note(nodes={k: m.v[k] for k in sorted(m.v)}, arcs={f"{a}->{b}": w for (a, b), w in sorted(m.a.items())}, **kw)
    ctx.sig(tuple(sorted(m.v.items())), tuple(sorted(m.a.items())), tuple(sorted((k, repr(v)) for k, v in kw.items())))
    ctx.nontrivial = True


# -------------------------------------------------------------------- D01
@prop("D01", quick=36000, rule="Histories of up to 25 edits (arcs with and without demands, nodes, weights, removals with "
      "and without removing nodes left alone; allowed and refused ones; antiparallel arcs; names of one and several "
      "characters) over digraphs built by the constructor or by operations; every view compared with a reference after "
      "every step, arc weights probed by the largest flow they admit.  Distinct by start and history.",
      floors=[("digraphs compared with the history", 185450), ("refused edits", 42340), ("removals", 30290),
              ("weights probed", 95110), ("nodes removed with an arc", 14670), ("refused constructions", 4250)])
def d01(ctx):
    rng = ctx.rng
    wm = "signed" if rng.random() < 0.12 else None
    if wm is None and rng.random() < 0.15:
        wm0 = "zero"
    else:
        wm0 = wm
    m = random_model(rng, rng.choice([4, 4, 6]), kmin=1, wmode=wm0) if rng.random() < 0.7 else Model()
    pool = names(rng, 6) if not m.v else list(m.v) + [t for t in names(rng, 8) if t not in m.v][:3]
    note_graph(ctx, m)
    g = build(ctx, m)
    hist = []

    def step():
        op = rng.choice(["arc"] * 4 + ["remove"] * 3 + ["node", "aw", "nw", "bad", "bad", "bad", "lend", "query", "flow"])
        a, b = rng.choice(pool), rng.choice(pool)
        w = weight(rng, wm)
        q = rng.choice([0, 1, 2.5, -3, -0.5, 4])
        q2 = rng.choice([0, 1, 2.5, -3, 7])
        known_a, known_v = sorted(m.a), sorted(m.v)
        if op == "arc":
            if a == b or (a, b) in m.a:
                return None
            new = [t for t in (a, b) if t not in m.v]
            form = rng.choice(["plain", "weight", "demand", "demand"])
            if form == "plain":
                w, ds = 0, {t: 0 for t in new}
                ctx.must(f"add_arc({(a, b)})", g.add_arc, (a, b))
            elif form == "weight" or not new:
                ds = {t: 0 for t in new}
                ctx.must(f"add_arc({(a, b)}, {w})", g.add_arc, (a, b), w)
            elif len(new) == 1 and rng.random() < 0.3:
                ds = {new[0]: q if new[0] == a else q2}
                ctx.must(f"add_arc({(a, b)}, {w}, {(q, q2)})", g.add_arc, (a, b), w, (q, q2))
                ctx.count("pairs of demands for one new node")
            elif len(new) == 1:
                ds = {new[0]: q}
                ctx.must(f"add_arc({(a, b)}, {w}, {q})", g.add_arc, (a, b), w, q)
                ctx.count("single demands")
            else:
                ds = {a: q, b: q2}
                ctx.must(f"add_arc({(a, b)}, {w}, {(q, q2)})", g.add_arc, (a, b), w, (q, q2))
                ctx.count("pairs of demands")
            m.a[(a, b)] = w
            m.v.update(ds)
            return ("arc", a, b, w, ds)
        if op == "remove":
            if not known_a:
                return None
            e = rng.choice(known_a)
            rm = rng.choice([None, False, True, True])
            if rm is None:
                ctx.must(f"remove_arc({e})", g.remove_arc, e)
            else:
                ctx.must(f"remove_arc({e}, {rm})", g.remove_arc, e, rm)
            del m.a[e]
            if rm:
                for t in e:
                    if not any(t in f for f in m.a):
                        del m.v[t]
                        ctx.count("nodes removed with an arc")
            ctx.count("removals")
            return ("remove", e, rm)
        if op == "node":
            if a in m.v:
                return None
            if rng.random() < 0.4:
                q = 0
                ctx.must(f"add_node({a!r})", g.add_node, a)
            else:
                ctx.must(f"add_node({a!r}, {q})", g.add_node, a, q)
            m.v[a] = q
            return ("node", a, q)
        if op == "aw":
            if not known_a:
                return None
            e = rng.choice(known_a)
            ctx.must(f"set_arc_weight({e}, {w})", g.set_arc_weight, e, w)
            m.a[e] = w
            return ("aw", e, w)
        if op == "nw":
            if not known_v:
                return None
            v = rng.choice(known_v)
            ctx.must(f"set_node_weight({v!r}, {q})", g.set_node_weight, v, q)
            m.v[v] = q
            return ("nw", v, q)
        if op == "lend":
            arcs, nodes = g.arcs, g.nodes
            if isinstance(arcs, list):
                arcs.append(("q", "r"))
                arcs[:1] = []
            if isinstance(nodes, list):
                nodes.append("q")
                nodes[:1] = []
            return ("lend",)
        if op == "query":
            want = (sum(1 for x, y in m.a if y == a), sum(1 for x, y in m.a if x == a))
            got = (ctx.must("indegree", g.indegree, a), ctx.must("outdegree", g.outdegree, a))
            ctx.check(got == want, lambda: f"in/out degree of {a!r} are {got}, expected {want} after {hist[-4:]}")
            ctx.check(ctx.must("connections", g.connections, a) == sum(want), lambda: f"connections({a!r}) is wrong")
            return None
        if op == "flow":
            if len(known_v) < 2 or any(w < 0 for w in m.a.values()) or not sums_close(m.a.values()):
                return None
            s, t = rng.sample(known_v, 2)
            want = max_flow(m, s, t)
            fn = rng.choice(["ford_fulkerson", "preflow_push"])
            value, _ = ctx.must(f"{fn}({s!r}, {t!r})", getattr(g, fn), s, t)
            ctx.check(abs(num(value, "flow value") - float(want)) <= 1e-6 * (1 + float(want)),
                      lambda: f"{fn}({s!r}, {t!r}) after {hist[-5:]} has value {value}, expected {float(want)}")
            ctx.count("flows after edits")
            return ("flow", fn, s, t)
        tries = [("loop", g.add_arc, ((a, a),)), ("unknown arc", g.remove_arc, (("unknown", a),)),
                 ("unknown arc", g.set_arc_weight, ((a, "unknown"), 1)), ("unknown node", g.set_node_weight, ("unknown", 1)),
                 ("loop", g.add_arc, (("new", "new"), 1)),
                 ("three demands", g.add_arc, (("new1", "new2"), 1, (1, 2, 3))),
                 ("one demand for two nodes", g.add_arc, (("new1", "new2"), 1, 5)),
                 ("one demand for two nodes", g.add_arc, (("new1", "new2"), 1, 2.5)),
                 ("a one-tuple of demands", g.add_arc, (("new1", "new2"), 1, (1,)))]
        if a in m.v:
            tries += [("three demands", g.add_arc, ((a, "new2"), 1, (1, 2, 3)))]
        if (a, b) not in m.a:
            tries += [("unknown arc", g.remove_arc, ((a, b), rng.random() < 0.5)),
                      ("unknown arc", g.set_arc_weight, ((a, b), 1))] * 2
        for e in known_a:
            if e[::-1] not in m.a:
                tries += [("reversed arc", g.remove_arc, (e[::-1], True)), ("reversed arc", g.set_arc_weight, (e[::-1], 3))]
        if known_a:
            e = rng.choice(known_a)
            tries += [("duplicate arc", g.add_arc, (e, rng.choice([0, w])))] * 3
        if known_v:
            tries += [("duplicate node", g.add_node, (rng.choice(known_v), rng.choice([0, q])))] * 3
        if rng.random() < 0.1:
            kw = rng.choice([{"arcs": {("a", "b"): 1, ("b", "b"): 1}}, {"graph": {"a": {"a", "b"}}}, {"graph": {"a": {"b"}, "b": {"b"}}}])
            ctx.refuse(f"DirectedGraph({kw})", lambda: DirectedGraph(**kw))
            ctx.count("refused constructions")
        what, fn, args = rng.choice(tries)
        ctx.refuse(f"{fn.__name__}{args} ({what})", fn, *args)
        ctx.count("refused edits")
        return ("bad", what, fn.__name__, args)

    for _ in range(rng.randint(3, 25)):
        s = step()
        if s is None:
            continue
        hist.append(s)
        agree(ctx, g, m, f"after {hist[-6:]}", pool if rng.random() < 0.15 else ())
        if s[0] in ("arc", "aw"):
            e = (s[1], s[2]) if s[0] == "arc" else s[1]
            has_weight(ctx, g, m, e, m.a[e], f"after {hist[-3:]}")
    for e, w in m.a.items():
        has_weight(ctx, g, m, e, w, f"at the end, after {hist[-3:]}")
    ctx.note(history=hist)
    ctx.sig(tuple(map(repr, hist)))


# -------------------------------------------------------------------- D02
def max_flow(m, s, t):
    """Exact maximum flow value (augmenting paths over exact capacities)."""
    res = collections.defaultdict(dict)
    for (a, b), w in m.a.items():
        res[a][b] = res[a].get(b, F(0)) + F(w)
        res[b].setdefault(a, F(0))
    total = F(0)
    while True:
        par = {s: None}
        queue = collections.deque([s])
        while queue and t not in par:
            u = queue.popleft()
            for v, c in res[u].items():
                if c > 0 and v not in par:
                    par[v] = u
                    queue.append(v)
        if t not in par:
            return total
        path = []
        v = t
        while par[v] is not None:
            path.append((par[v], v))
            v = par[v]
        d = min(res[a][b] for a, b in path)
        for a, b in path:
            res[a][b] -= d
            res[b][a] += d
        total += d


def sums_exact(weights):
    """No sum or difference of these capacities is rounded."""
    ws = [F(w) for w in weights]
    return all((w / F(UNIT)).denominator == 1 for w in ws) and 1 + sum(map(abs, ws)) < 2 ** 38


def sums_close(weights):
    """Sums of these capacities are exact or rounded by far less than what the library treats as zero (1e-10)."""
    return sums_exact(weights) or sum(map(abs, weights)) < 2 ** 14


def dm(arcs, nodes=()):
    m = Model()
    for n in nodes:
        m.v[n] = 0
    for (a, b), w in arcs.items():
        m.add((a, b), w)
    m.order = list(m.v)
    return m


DIRECTED_FLOW = [
    (dm({("s", "t"): 4}), "s", "t"), (dm({("t", "s"): 4}), "s", "t"), (dm({}, ["s", "t"]), "s", "t"),
    (dm({("s", "a"): 3, ("a", "s"): 2, ("a", "t"): 3, ("t", "a"): 1}), "s", "t"),
    (dm({("s", "a"): 3, ("s", "b"): 2, ("a", "b"): 5, ("b", "a"): 5, ("a", "t"): 2, ("b", "t"): 3}), "s", "t"),
    (dm({("s", "a"): 10, ("a", "b"): 1, ("b", "t"): 10, ("s", "b"): 10, ("a", "t"): 10}), "s", "t"),
    (dm({("s1", "n10"): 0.1, ("s1", "n1"): 0.2, ("n10", "t1"): 0.3, ("n1", "t1"): 0.1, ("n1", "n10"): 0.7}), "s1", "t1"),
    (dm({("s", "a"): 0, ("a", "t"): 5}), "s", "t"),
    (dm({("a", "s"): 5, ("s", "t"): 1, ("t", "a"): 5}), "s", "t"),
    (dm({("s", "a"): 5, ("a", "b"): 5, ("b", "a"): 5}, ["t"]), "s", "t"),
    (dm({("s", "a"): 1000000, ("s", "b"): 1000000, ("a", "b"): 1, ("a", "t"): 1000000, ("b", "t"): 1000000}), "s", "t"),
]


@prop("D02", quick=42000, rule="Capacitated digraphs with 2..7 nodes (sometimes 8 to 14) of every shape: antiparallel arcs, "
      "arcs into the source and out of the sink, zero capacities, disconnected, integral and fractional capacities, every "
      "naming; both algorithms on the same graph; the flow is audited arc by arc and node by node and the value compared "
      "with an exact maximum flow.  Distinct by graph and end nodes.",
      floors=[("flows audited", 37200), ("positive maximum", 12850), ("antiparallel arcs", 11420), ("fractional", 10270),
              ("arithmetic without rounding", 15520)],
      directed=DIRECTED_FLOW)
def d02(ctx):
    rng = ctx.rng
    if ctx.directed is not None:
        m, s, t = ctx.directed
        m = m.clone()
    else:
        if rng.random() < 0.08:
            k = rng.randint(8, 14)
            m = Model()
            for i in range(k):
                m.v[f"n{i}"] = 0
            wm = rng.choice(["int", "half", "float", "exact", "near"])
            d = rng.choice([0.15, 0.3, 0.5])
            for a, b in itertools.permutations(sorted(m.v), 2):
                if rng.random() < d:
                    m.add((a, b), weight(rng, wm))
            m.order = sorted(m.v)
        else:
            m = random_model(rng)
            if rng.random() < 0.1:
                f = rng.choice([100, 1000, 0.01])
                m.a = {e: w * f for e, w in m.a.items()}
        if rng.random() < 0.5:
            s, t = m.order[0], m.order[-1]
        else:
            s, t = rng.sample(m.order, 2)
    if not sums_close(m.a.values()):
        raise Skip("capacities of mixed magnitude: rounding is not negligible")
    note_graph(ctx, m, ends=(s, t))
    if any((b, a) in m.a for a, b in m.a):
        ctx.count("antiparallel arcs")
    if any(w != int(w) for w in m.a.values()):
        ctx.count("fractional")
    want = max_flow(m, s, t)
    if want > 0:
        ctx.count("positive maximum")
    g = build(ctx, m, verify=False)
    algs = ["ford_fulkerson", "preflow_push"]
    rng.shuffle(algs)
    scale = 1 + sum(abs(w) for w in m.a.values())
    exact = sums_exact(m.a.values())
    if exact:
        ctx.count("arithmetic without rounding")
    for name in algs:
        r = ctx.must(f"{name}({s!r}, {t!r})", getattr(g, name), s, t)
        ctx.check(isinstance(r, tuple) and len(r) == 2, lambda: f"{name} gave {short(r)}")
        value, flow = r
        value = num(value, f"{name} value")
        ctx.check(set(flow) == set(m.a), lambda: f"{name}: flow is given on {short(sorted(flow))}, the arcs are {sorted(m.a)}")
        net = collections.Counter()
        tol = 1e-9 if exact else 1e-8 * scale
        for (a, b), w in m.a.items():
            f = num(flow[(a, b)], f"{name} flow")
            ctx.check(-tol <= f <= w + tol, lambda: f"{name}: flow {f} on arc {(a, b)} of capacity {w}")
            net[a] += f
            net[b] -= f
        for v in m.v:
            if v not in (s, t):
                ctx.check(abs(net[v]) <= tol, lambda: f"{name}: flow is not conserved at {v!r}: net outflow {net[v]}, flow {flow}")
        ctx.check(abs(net[s] - value) <= tol, lambda: f"{name}: value {value} but the source sends {net[s]}")
        ctx.check(abs(value - float(want)) <= tol, lambda: f"{name}: value {value}, the maximum is {float(want)}")
        ctx.count("flows audited")
        agree(ctx, g, m, f"after {name}")
    if rng.random() < 0.2:
        for name in algs:
            fn = getattr(g, name)
            ctx.refuse(f"{name} from an unknown node", fn, "unknown", t, kinds=(ValueError,))
            ctx.refuse(f"{name} to an unknown node", fn, s, "unknown", kinds=(ValueError,))
            ctx.refuse(f"{name} from a node to itself", fn, s, s, kinds=(ValueError,))
            ctx.count("bad ends refused", 3)
        agree(ctx, g, m, "after refused flows")


# -------------------------------------------------------------------- D03
@prop("D03", quick=30000, rule="Capacitated digraphs (antiparallel arcs included) with exactly representable capacities and "
      "partial or complete random flows, often saturating or zero; the residual's arcs and weights compared with exact "
      "sums, and flows over capacity, negative or on unknown arcs refused.  Distinct by graph and flow.",
      floors=[("residual arcs compared", 188600), ("refused flows", 25770), ("both directions combined", 59830),
              ("weights probed", 94260), ("capacities of extreme size", 3310)])
def d03(ctx):
    rng = ctx.rng
    m = random_model(rng, 6, wmode=rng.choice(["int", "int", "half", "unit"]) if rng.random() < 0.6 else "int")
    grid = 8
    r = rng.random()
    if r < 0.4:
        m.a = {e: F(rng.randint(0, 40), 8) for e in m.a}
        m.a = {e: float(w) for e, w in m.a.items()}
    elif r < 0.65:
        mode = rng.choice(["tiny", "near", "exact", "huge"])
        m.a = {e: weight(rng, mode) for e in m.a}
        grid = 2 ** 14
        ctx.count("capacities of extreme size")
    else:
        m.a = {e: F(str(w)).limit_denominator(8) for e, w in m.a.items()}
        m.a = {e: (int(w) if w.denominator == 1 else float(F(round(w * 8), 8))) for e, w in m.a.items()}
    g = build(ctx, m, verify=False)
    for _ in range(rng.randint(1, 3)):
        flow = {}
        for e, w in m.a.items():
            r = rng.random()
            if r < 0.25:
                continue
            f = w if r < 0.45 else 0 if r < 0.6 else float(F(rng.randint(0, int(w * grid)), grid))
            if r > 0.85 and w > 0:          # all but a hair, or a hair
                f = float(F(w) - F(1, grid)) if r > 0.92 else float(F(1, grid))
            flow[e] = f
        keys = list(flow)
        rng.shuffle(keys)
        flow = {k: flow[k] for k in keys}
        note_graph(ctx, m, flow=sorted(flow.items()))
        before = snap(flow)
        r = ctx.must("create_residual", g.create_residual, flow)
        ctx.check(snap(flow) == before, "create_residual changed the given flow")
        ctx.check(isinstance(r, DirectedGraph), lambda: f"create_residual gave {short(r)}")
        want = {}
        for a, b in itertools.permutations(sorted(m.v), 2):
            c = F(m.a.get((a, b), 0)) - F(flow.get((a, b), 0)) + F(flow.get((b, a), 0))
            if c > 0:
                want[(a, b)] = c
                if (a, b) in m.a and flow.get((b, a), 0):
                    ctx.count("both directions combined")
        got = sorted(map(tuple, ctx.must("arcs of the residual", lambda: r.arcs)))
        ctx.check(got == sorted(want), lambda: f"residual arcs {got}, expected {sorted(want)}; arcs {m.a}, flow {flow}")
        rm = Model()
        rm.a = {e: float(w) for e, w in want.items()}
        for e, w in rm.a.items():
            ctx.count("residual arcs compared")
            if rng.random() < 0.5:
                has_weight(ctx, r, rm, e, w, f"residual of arcs {m.a} under flow {flow}")
        d = private(r, "_arcs", rm.a)
        if d is not None:
            ctx.check(all(abs(d[k] - w) <= 1e-9 * (1 + w) for k, w in rm.a.items()),
                      lambda: f"residual weights {short(d)}, expected {rm.a}; arcs {m.a}, flow {flow}")
        agree(ctx, g, m, "after create_residual")
        # the residual is a graph of its own
        if rm.a and rng.random() < 0.3:
            e = rng.choice(sorted(rm.a))
            ctx.must("remove_arc on the residual", r.remove_arc, e, True)
            agree(ctx, g, m, "after editing the residual")
        # bad flows
        bad = dict(flow)
        kind = rng.choice(["over", "over", "negative", "unknown", "reversed", "inner"])
        if kind in ("over", "negative", "inner") and m.a:
            e = rng.choice(sorted(m.a))
            if kind == "over":
                bad[e] = m.a[e] + rng.choice([0.125, 1, 100, UNIT])
            elif kind == "negative":
                bad[e] = -rng.choice([0.125, 1, 100, UNIT])
            else:
                bad[(e[0], "nowhere")] = rng.choice([1, 1, 0, 0.0, 1e-12])
        elif kind == "reversed":
            rev = [e[::-1] for e in m.a if e[::-1] not in m.a]
            if not rev:
                continue
            bad[rng.choice(sorted(rev))] = rng.choice([1, 0.5, 0, 1e-12])
        else:
            bad[("unknown", "nowhere")] = rng.choice([1, 1, 0])
        ctx.refuse(f"create_residual({short(bad)}) ({kind})", g.create_residual, bad)
        ctx.count("refused flows")
        agree(ctx, g, m, "after a refused flow")


# -------------------------------------------------------------------- D04
@prop("D04", quick=48000, rule="Random digraphs with names of one and several characters (concatenations and substrings of "
      "others included); random node subsets given as set, list, tuple or frozenset, single names, and names outside the "
      "graph, against the definition.  Distinct by graph and subset.",
      floors=[("cuts compared", 342670), ("single names of several characters", 50350),
              ("digraphs with negative weights", 3150)])
def d04(ctx):
    rng = ctx.rng
    m = random_model(rng, kmin=1, wmode="signed" if rng.random() < 0.2 else None)
    g = build(ctx, m, verify=False)
    if any(w < 0 for w in m.a.values()):
        ctx.count("digraphs with negative weights")
    vs = sorted(m.v)
    extra = [t for t in names(rng, 8) + ["", "ab", "zz"] if t not in m.v]
    note_graph(ctx, m)

    def judge(desc, arg, chosen):
        out = {e for e in m.a if e[0] in chosen and e[1] not in chosen}
        inn = {e for e in m.a if e[1] in chosen and e[0] not in chosen}
        before = snap(arg)
        for name, want in (("cut", out), ("ncut", inn)):
            got = list(ctx.must(f"{name}({desc} {short(arg)})", getattr(g, name), arg))
            ctx.check(len(got) == len(set(got)) and set(got) == want,
                      lambda: f"{name}({short(arg)}) is {short(sorted(got))}, expected {sorted(want)}")
        for name, want in (("outdegree", len(out)), ("indegree", len(inn)), ("connections", len(out) + len(inn))):
            got = ctx.must(f"{name}({desc})", getattr(g, name), arg)
            ctx.check(got == want, lambda: f"{name}({short(arg)}) is {got}, expected {want}")
        ctx.check(snap(arg) == before, lambda: f"a query changed the given {desc}")
        ctx.count("cuts compared")

    for _ in range(rng.randint(1, 3)):
        chosen = {v for v in vs if rng.random() < rng.choice([0.2, 0.5, 0.8])}
        odd = {t for t in extra if rng.random() < 0.2}
        ctx.sig(tuple(sorted(chosen | odd)))
        for desc, arg in query_args(rng, vs, chosen | odd):
            judge(desc, arg, chosen)
    for v in vs:
        judge("name", v, {v})
        if len(v) > 1:
            ctx.count("single names of several characters")
    for t in extra[:3]:
        judge("unknown name", t, set())
    agree(ctx, g, m, "after the queries")
