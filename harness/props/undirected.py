"""G01..G07: undirected graphs."""
import collections
import heapq
import itertools
from fractions import Fraction as F

import numpy as np

from core import Skip, Violation, prop, short
from exact import dot
from lpio import IntegerProgram, LinearProgram, lp_of_obs, num, observe, snap, truth, vec

from pytimize.graphs import UndirectedGraph

TOL = 1e-9
POOLS = [list("abcdefgh"), list("sABCDtEF"), ["a", "b", "ab", "ba", "aa", "abc", "c", "bc"],
         ["n1", "n2", "n10", "n11", "N1", "n", "1", "11"], ["a-b", "a b", "-", ":", "é", "x_1", "(", "'"],
         ["10", "9", "1", "2", "12", "21", "112", "02"], ["s", "st", "t", "ts", "sts", "tt", "ss", "tst"],
         ["alpha", "beta", "alphabeta", "Alpha", "be", "ta", "al", "pha"]]


def names(rng, k):
    p = list(rng.choice(POOLS))
    if k > len(p):
        how = rng.choice(["v", "pairs", "digits"])
        p = {"v": [f"v{i}" for i in range(2 * k)], "digits": [str(i) for i in range(2 * k)],
             "pairs": [a + b for a in "abcdefg" for b in "abcdefg"]}[how]
    rng.shuffle(p)
    return p[:k]


UNIT = 2.0 ** -14       # small weights are multiples of this, so that sums stay exact


def weight(rng, mode=None):
    mode = mode or rng.choice(["int", "int", "half", "float"])
    if mode == "exact":
        mode = rng.choice(["int", "half", "tiny", "near", "huge"])
    if mode == "tiny":
        return rng.randint(0, 60) * UNIT
    if mode == "near":
        return rng.choice([1, 1, 2]) + rng.randint(0, 12) * UNIT
    if mode == "huge":
        return rng.choice([10 ** 6, 10 ** 9, 3 * 10 ** 9, 2 ** 33, rng.randint(1, 99) * 10 ** 7 + rng.randint(0, 3)])
    if mode == "zero":
        return 0
    if mode == "unit":
        return 1
    if mode == "signed":
        return rng.choice([-3, -1, -0.5, -2.25, 0, 1, 2, 4.5])
    if mode == "int":
        return rng.choice([0, 1, 1, 2, 2, 3, 5, 8, rng.randint(0, 20)])
    if mode == "half":
        return rng.choice([0.0, 0.5, 1.5, 2.25, rng.randint(0, 40) / 4])
    return rng.choice([0.0, round(rng.uniform(0, 10), 3), round(rng.uniform(0, 100), 1)])


def canon(e):
    return frozenset(e)


class Model:
    """Reference: vertices -> weight, frozenset edges -> weight."""

    def __init__(self):
        self.v = {}
        self.e = {}

    def clone(self):
        m = Model()
        m.v = dict(self.v)
        m.e = dict(self.e)
        return m

    def add_edge(self, e, w=0):
        a, b = e
        assert a != b and canon(e) not in self.e
        self.v.setdefault(a, 0)
        self.v.setdefault(b, 0)
        self.e[canon(e)] = w

    def adj(self):
        out = {v: set() for v in self.v}
        for e in self.e:
            a, b = tuple(e)
            out[a].add(b)
            out[b].add(a)
        return out

    def components(self):
        adj = self.adj()
        left = set(self.v)
        out = []
        while left:
            s = {min(left)}
            todo = list(s)
            while todo:
                for w in adj[todo.pop()]:
                    if w not in s:
                        s.add(w)
                        todo.append(w)
            out.append(s)
            left -= s
        return out


def agree(ctx, g, m, what, probes=()):
    """The graph's public views against the reference."""
    def get():
        return g.edges, g.vertices, g.graph
    edges, verts, graph = ctx.must(f"reading the graph ({what})", get)
    ctx.check(dict(verts) == m.v, lambda: f"{what}: vertices {short(dict(verts))}, expected {short(m.v)}")
    got = collections.Counter(canon(e) for e in edges)
    ctx.check(set(got) == set(m.e) and all(k == 1 for k in got.values()),
              lambda: f"{what}: edges {short(sorted(map(tuple, edges)))}, expected {short(sorted(map(sorted, m.e)))}")
    for e, w in edges.items():
        ctx.check(w == m.e[canon(e)], lambda: f"{what}: edge {e} has weight {w}, expected {m.e[canon(e)]}")
    adj = m.adj()
    ctx.check({k: set(v) for k, v in graph.items()} == adj, lambda: f"{what}: adjacency {short(graph)}, expected {short(adj)}")
    for e, w in m.e.items():
        a, b = sorted(e)
        for t in ((a, b), (b, a)):
            ctx.check(truth(ctx.must("has_edge", g.has_edge, t), "has_edge") is True, lambda: f"{what}: has_edge({t}) is False")
            got_w = ctx.must("get_edge_weight", g.get_edge_weight, t)
            ctx.check(got_w == w, lambda: f"{what}: weight of {t} is {got_w}, expected {w}")
    for v, w in m.v.items():
        ctx.check(truth(ctx.must("has_vertex", g.has_vertex, v), "has_vertex") is True, lambda: f"{what}: has_vertex({v!r}) is False")
        got_w = ctx.must("get_vertex_weight", g.get_vertex_weight, v)
        ctx.check(got_w == w, lambda: f"{what}: weight of vertex {v!r} is {got_w}, expected {w}")
    for a in probes:
        if a not in m.v:
            ctx.check(ctx.must("has_vertex", g.has_vertex, a) is False, lambda: f"{what}: has_vertex({a!r}) is True")
        for b in probes:
            if a != b and canon((a, b)) not in m.e:
                ctx.check(ctx.must("has_edge", g.has_edge, (a, b)) is False, lambda: f"{what}: has_edge({(a, b)}) is True")
    e = ctx.must("is_empty", g.is_empty)
    ctx.check(truth(e, "is_empty") == (not m.v), lambda: f"{what}: is_empty() is {e}")
    ctx.count("graphs compared with the history")


def build(ctx, m, how=None, verify=True):
    """A graph built from the reference in one of the ways the package offers."""
    rng = ctx.rng
    how = how or rng.choice(["ops", "ops", "ctor", "ctor", "ctor+ops"])
    edges = list(m.e.items())
    rng.shuffle(edges)
    edges = [(tuple(rng.sample(sorted(e), 2)), w) for e, w in edges]
    verts = list(m.v.items())
    rng.shuffle(verts)
    if how == "ops":
        g = ctx.must("UndirectedGraph()", UndirectedGraph)
        for v, w in verts:
            if rng.random() < 0.5 or not any(v in e for e, _ in edges):
                ctx.must("add_vertex", g.add_vertex, v, w)
        for e, w in edges:
            ctx.must("add_edge", g.add_edge, e, w)
        for v, w in verts:
            if g.get_vertex_weight(v) != w:
                ctx.must("set_vertex_weight", g.set_vertex_weight, v, w)
    else:
        adj = m.adj()
        kw = {}
        if rng.random() < 0.5:
            adjacency = {}
            for v, _ in verts:
                if not adj[v]:
                    adjacency[v] = set()
                elif rng.random() < 0.5:
                    adjacency[v] = set(adj[v])
            for e, _ in edges:
                if e[1] not in adjacency.get(e[0], ()) and e[0] not in adjacency.get(e[1], ()):
                    adjacency.setdefault(e[0], set()).add(e[1])
            kw["graph"] = adjacency
        kw["edges"] = dict(edges)
        kw["vertices"] = dict(verts)
        if rng.random() < 0.6:
            # what another dictionary names already, with the default weight, need not be repeated
            ga = kw.get("graph", {})
            kw["edges"] = {e: w for e, w in edges if w != 0 or not (e[1] in ga.get(e[0], ()) or e[0] in ga.get(e[1], ()))}
            named = set(ga) | {t for v in ga.values() for t in v} | {t for e in kw["edges"] for t in e}
            kw["vertices"] = {v: w for v, w in verts if w != 0 or v not in named}
            for k in ("graph", "edges", "vertices"):
                if k in kw and not kw[k]:
                    del kw[k]
        lent = snap(kw)
        g = ctx.must("UndirectedGraph(...)", lambda: UndirectedGraph(**kw))
        ctx.check(snap(kw) == lent, "the constructor changed the caller's dictionaries")
    if verify:
        agree(ctx, g, m, f"built by {how}")
    return g


def random_model(rng, kmax=8, wmode=None, vmode=None, kmin=1):
    k = rng.randint(kmin, kmax)
    if kmax == 8 and rng.random() < 0.04:
        k = rng.randint(9, 16)
    vs = names(rng, k)
    m = Model()
    vmode = vmode or rng.choice(["zero", "int", "float", None, "exact"])
    for v in vs:
        m.v[v] = weight(rng, vmode)
    shape = rng.choice(["sparse", "dense", "tree", "cycle", "path", "random", "random", "empty", "complete", "two",
                        "forest", "star"])
    prs = list(itertools.combinations(vs, 2))
    pick = []
    if shape in ("sparse", "dense", "random"):
        d = {"sparse": 0.25, "dense": 0.75, "random": rng.random()}[shape]
        pick = [e for e in prs if rng.random() < d]
    elif shape == "complete":
        pick = prs
    elif shape in ("tree", "forest", "cycle", "path", "star"):
        for i in range(1, k):
            j = i - 1 if shape in ("cycle", "path") else 0 if shape == "star" else rng.randrange(i)
            if shape != "forest" or rng.random() < 0.7:
                pick.append((vs[j], vs[i]))
        if shape == "cycle" and k >= 3:
            pick.append((vs[0], vs[-1]))
        if shape == "tree" and rng.random() < 0.3:
            rest = [e for e in prs if canon(e) not in set(map(canon, pick))]
            if rest:
                pick.append(rng.choice(rest))
    elif shape == "two" and k >= 2:
        h = k // 2
        for part in (vs[:h], vs[h:]):
            for i in range(1, len(part)):
                pick.append((part[rng.randrange(i)], part[i]))
            if len(part) >= 3 and rng.random() < 0.6:
                e = (part[0], part[-1])
                if canon(e) not in set(map(canon, pick)):
                    pick.append(e)
    wm = wmode or rng.choice(["int", "int", "half", "float", "unit", "zero", None, "tiny", "near", "huge", "exact"])
    for e in pick:
        m.add_edge(e, weight(rng, wm))
    m.shape = shape
    return m


def note_graph(ctx, m, **kw):
    ctx.note(vertices={k: m.v[k] for k in sorted(m.v)}, edges={"|".join(sorted(e)): w for e, w in m.e.items()}, **kw)
    ctx.sig(tuple(sorted(m.v.items())), tuple(sorted((tuple(sorted(e)), w) for e, w in m.e.items())),
            tuple(sorted((k, repr(v)) for k, v in kw.items())))
    ctx.nontrivial = True


# -------------------------------------------------------------------- G01
@prop("G01", quick=42000, rule="Histories of up to 25 edits (edges, vertices, weights, removals; allowed and refused ones, "
      "endpoints in both orders; names of one and several characters) over graphs built by the constructor or by "
      "operations, with copies and lent containers edited in between; every view is compared with a reference graph "
      "after every step.  Distinct by start and history.",
      floors=[("graphs compared with the history", 348740), ("refused edits", 52870), ("removals", 22250), ("refused constructions", 5260)])
def g01(ctx):
    rng = ctx.rng
    m = random_model(rng, 5, kmin=0) if rng.random() < 0.7 else Model()
    pool = names(rng, 6) if not m.v else list(m.v) + [t for t in names(rng, 8) if t not in m.v][:2]
    note_graph(ctx, m)
    g = build(ctx, m)
    others = []
    hist = []

    def step():
        op = rng.choice(["edge", "edge", "edge", "remove", "remove", "vertex", "ew", "vw", "copy", "bad", "bad", "bad",
                         "lend", "swap", "equal"])
        a, b = rng.choice(pool), rng.choice(pool)
        w = weight(rng, rng.choice([None, None, None, "exact"]))
        known_v, known_e = sorted(m.v), sorted(map(sorted, m.e))
        if op == "edge":
            if a == b or canon((a, b)) in m.e:
                return None
            if rng.random() < 0.3:
                ctx.must(f"add_edge({(a, b)})", g.add_edge, (a, b))
                w = 0
            else:
                ctx.must(f"add_edge({(a, b)}, {w})", g.add_edge, (a, b), w)
            m.add_edge((a, b), w)
            return ("edge", a, b, w)
        if op == "remove":
            if not known_e:
                return None
            e = tuple(rng.sample(rng.choice(known_e), 2))
            ctx.must(f"remove_edge({e})", g.remove_edge, e)
            del m.e[canon(e)]
            ctx.count("removals")
            return ("remove",) + e
        if op == "vertex":
            if a in m.v:
                return None
            if rng.random() < 0.4:
                w = 0
                ctx.must(f"add_vertex({a!r})", g.add_vertex, a)
            else:
                ctx.must(f"add_vertex({a!r}, {w})", g.add_vertex, a, w)
            m.v[a] = w
            return ("vertex", a, w)
        if op == "ew":
            if not known_e:
                return None
            e = tuple(rng.sample(rng.choice(known_e), 2))
            ctx.must(f"set_edge_weight({e}, {w})", g.set_edge_weight, e, w)
            m.e[canon(e)] = w
            return ("ew",) + e + (w,)
        if op == "vw":
            if not known_v:
                return None
            v = rng.choice(known_v)
            ctx.must(f"set_vertex_weight({v!r}, {w})", g.set_vertex_weight, v, w)
            m.v[v] = w
            return ("vw", v, w)
        if op == "copy":
            c = ctx.must("copy", g.copy)
            ctx.check(truth(ctx.must("==", lambda: c == g), "==") is True, "a fresh copy differs from the original")
            ctx.check(truth(ctx.must("==", lambda: g == c), "==") is True, "the original differs from a fresh copy")
            others.append((c, m.clone()))
            if len(others) > 2:
                others.pop(0)
            return ("copy",)
        if op == "swap":                   # go on with the copy, watch the original
            if not others:
                return None
            return ("swap",)
        if op == "equal":
            d = m.clone()
            k = rng.choice(["same", "edge", "vertex", "weight", "vweight"])
            if k == "edge" and d.e:
                e = rng.choice(sorted(d.e, key=sorted))
                del d.e[e]
            elif k == "vertex":
                d.v["zz"] = 0
            elif k == "weight" and d.e:
                e = rng.choice(sorted(d.e, key=sorted))
                d.e[e] = d.e[e] + 1
            elif k == "vweight" and d.v:
                v = rng.choice(sorted(d.v))
                d.v[v] = d.v[v] + 1
            h = build(ctx, d, verify=False)
            want = d.v == m.v and d.e == m.e
            for x, y in ((g, h), (h, g)):
                r = truth(ctx.must("==", lambda: x == y), "==")
                ctx.check(r == want, lambda: f"graphs differing in {k} compared as {r}")
            return ("equal", k)
        if op == "lend":                   # scribble over what the accessors return
            e, v, gr = g.edges, g.vertices, g.graph
            e[("q", "r")] = 3
            v["q"] = 1
            for t in list(gr.values()):
                t.add("q")
                t.discard(a)
            gr["q"] = {"r"}
            if e:
                for t in list(e)[:1]:
                    del e[t]
            return ("lend",)
        # refused edits
        tries = [("loop", g.add_edge, ((a, a),)), ("empty name", g.add_edge, (("", a),)),
                 ("empty name", g.add_edge, ((a, ""), 1)), ("negative weight", g.add_edge, ((a, "new"), -1)),
                 ("negative weight", g.add_edge, (("new", a), -0.5)), ("empty name", g.add_vertex, ("",)),
                 ("negative weight", g.add_vertex, ("new", -2)), ("both empty", g.add_edge, (("", ""),)),
                 ("unknown vertex", g.set_vertex_weight, ("unknown", 1)), ("unknown vertex", g.get_vertex_weight, ("unknown",)),
                 ("unknown edge", g.remove_edge, (("unknown", a),))]
        if a != b and canon((a, b)) not in m.e:
            tries += [("unknown edge", g.remove_edge, ((a, b),)), ("unknown edge", g.set_edge_weight, ((a, b), 1)),
                      ("unknown edge", g.get_edge_weight, ((a, b),))] * 2
        if known_e:
            e = tuple(rng.sample(rng.choice(known_e), 2))
            tries += [("duplicate edge", g.add_edge, (e, rng.choice([0, w]))), ("negative weight", g.set_edge_weight, (e, -1))] * 3
        if known_v:
            v = rng.choice(known_v)
            tries += [("duplicate vertex", g.add_vertex, (v, rng.choice([0, w]))), ("negative weight", g.set_vertex_weight, (v, -0.25))] * 2
        if rng.random() < 0.1:
            kw = rng.choice([{"edges": {("a", "b"): 1, ("b", "b"): 1}}, {"edges": {("a", "b"): -0.5}}, {"graph": {"a": {"a", "b"}}},
                             {"vertices": {"a": 1, "b": -2}}, {"vertices": {"": 1}}, {"edges": {("a", ""): 1}},
                             {"graph": {"": set()}}, {"graph": {"a": {""}}}])
            ctx.refuse(f"UndirectedGraph({kw})", lambda: UndirectedGraph(**kw))
            ctx.count("refused constructions")
        what, fn, args = rng.choice(tries)
        ctx.refuse(f"{fn.__name__}{args} ({what})", fn, *args)
        ctx.count("refused edits")
        return ("bad", what, fn.__name__, args)

    for _ in range(rng.randint(3, 25)):
        s = step()
        if s is None:
            continue
        hist.append(s)
        if s[0] == "swap":
            c, cm = others.pop()
            others.append((g, m))
            g, m = c, cm
        agree(ctx, g, m, f"after {hist[-6:]}", pool if rng.random() < 0.15 else ())
        for o, om in others:
            agree(ctx, o, om, f"the other graph, after {hist[-6:]}")
    ctx.note(history=hist)
    ctx.sig(tuple(map(repr, hist)))


# -------------------------------------------------------------------- G02
def valid_dfs(adj, start, seq):
    """Whether seq is the preorder of some depth first search from start."""
    if not seq or seq[0] != start or len(set(seq)) != len(seq):
        return False
    seen = {start}
    stack = [start]
    for v in seq[1:]:
        while stack and not (adj[stack[-1]] - seen):
            stack.pop()
        if not stack or v not in adj[stack[-1]] or v in seen:
            return False
        seen.add(v)
        stack.append(v)
    return True


@prop("G02", quick=64000, rule="Random graphs with up to 8 vertices of every shape and naming; from a random start every "
      "traversal method, default and custom neighbour order, list and iterator forms; compared with a reference queue "
      "order, a depth-first validity test, and the vertex set.  Distinct by graph, start and order.",
      floors=[("breadth first", 57600), ("depth first", 57600), ("random", 34520), ("unknown start refused", 25640)])
def g02(ctx):
    rng = ctx.rng
    m = random_model(rng)
    if rng.random() < 0.05:
        k = rng.randint(30, 120)
        m = Model()
        for i in range(1, k):
            m.add_edge((f"v{rng.randrange(i) if rng.random() < 0.5 else i - 1}", f"v{i}"), 1)
        for _ in range(rng.randint(0, k)):
            a, b = rng.sample(range(k), 2)
            if canon((f"v{a}", f"v{b}")) not in m.e:
                m.add_edge((f"v{a}", f"v{b}"), 1)
    adj = m.adj()
    start = rng.choice(sorted(m.v))
    key = rng.choice([None, None, None, "reverse", "length", "weight"])
    note_graph(ctx, m, start=start, order=key)
    g = build(ctx, m, verify=False)
    ranks = sorted(m.v)
    rng.shuffle(ranks)
    order = {None: None, "reverse": lambda v: [-ord(c) for c in v] + [1], "length": lambda v: (len(v), v),
             "weight": lambda v: ranks.index(v)}[key]
    comp = next(c for c in m.components() if start in c)
    for _ in range(2):
        # breadth first
        want, seen, queue = [], {start}, collections.deque([start])
        while queue:
            u = queue.popleft()
            want.append(u)
            for w in sorted(adj[u] - seen, key=order):
                seen.add(w)
                queue.append(w)
        form = rng.choice(["bfs", "traverse", "default"]) if key is None else "traverse"
        if form == "bfs":
            got = ctx.must("bfs", g.bfs, start)
            ctx.check(isinstance(got, list), lambda: f"bfs() gave {short(got)}")
        elif form == "default":
            got = ctx.must("traverse", lambda: list(g.traverse(start)))
        elif order is None:
            got = ctx.must("traverse", lambda: list(g.traverse(start, "bfs")))
        else:
            got = ctx.must("traverse", lambda: list(g.traverse(start, method="bfs", order=order)))
        ctx.count("breadth first")
        ctx.check(list(got) == want, lambda: f"breadth first from {start!r} (order {key}): {short(got)}, expected {short(want)}")
        # depth first
        if key is None and rng.random() < 0.5:
            got = ctx.must("dfs", g.dfs, start)
        elif order is None:
            got = ctx.must("traverse dfs", lambda: list(g.traverse(start, "dfs")))
        else:
            got = ctx.must("traverse dfs", lambda: list(g.traverse(start, "dfs", order)))
        ctx.count("depth first")
        ctx.check(len(got) == len(set(got)) and set(got) == comp,
                  lambda: f"depth first from {start!r}: {short(got)} is not every reachable vertex once")
        ctx.check(valid_dfs(adj, start, got), lambda: f"depth first from {start!r}: {short(got)} is not a depth-first preorder")
        # random
        if rng.random() < 0.6:
            got = ctx.must("traverse rng", lambda: list(g.traverse(start, "rng")))
            ctx.count("random")
            ctx.check(sorted(got) == sorted(m.v), lambda: f"random walk {short(got)} is not every vertex exactly once")
    if rng.random() < 0.3:
        for what, f in (("traverse", lambda: list(g.traverse("unknown", rng.choice(["bfs", "dfs", "rng"])))),
                        ("bfs", lambda: g.bfs("unknown")), ("dfs", lambda: g.dfs("unknown"))):
            ctx.refuse(f"{what} from an unknown start", f)
            ctx.count("unknown start refused")
    agree(ctx, g, m, "after traversing")


# -------------------------------------------------------------------- G03
@prop("G03", quick=64000, rule="Random graphs with 0..8 vertices of every shape (and sequences of edge removals and "
      "additions on them): connectivity, spanning tree, tree, cycle and partition answers against union-find on the "
      "reference graph.  Distinct by graph.",
      floors=[("graphs decided", 57610), ("trees", 17560), ("cyclic", 18710), ("disconnected", 17540), ("parts compared", 86710)])
def g03(ctx):
    rng = ctx.rng
    m = random_model(rng, kmin=0)
    note_graph(ctx, m)
    g = build(ctx, m, verify=False)
    for _ in range(rng.randint(1, 3)):
        comps = m.components()
        connected = len(comps) == 1
        cyclic = len(m.e) > len(m.v) - len(comps)
        ctx.count("graphs decided")
        ctx.count("cyclic" if cyclic else "acyclic")
        if len(comps) > 1:
            ctx.count("disconnected")
        if connected and not cyclic:
            ctx.count("trees")
        show_ = lambda: f"vertices {sorted(m.v)}, edges {sorted(map(sorted, m.e))}"
        for name, want in (("is_connected", connected), ("has_spanning_tree", connected),
                           ("is_tree", connected and not cyclic), ("is_cyclic", cyclic)):
            got = truth(ctx.must(name, getattr(g, name)), name)
            ctx.check(got == want, lambda: f"{name}() is {got}, expected {want}: {show_()}")
        parts = ctx.must("partition", g.partition)
        ctx.check(len(parts) == len(comps), lambda: f"partition() has {len(parts)} parts, expected {len(comps)}: {show_()}")
        left = [set(c) for c in comps]
        for p in parts:
            vs = set(ctx.must("vertices of a part", lambda: p.vertices))
            ctx.check(vs in left, lambda: f"part {sorted(vs)} is not a component: {show_()}")
            left.remove(vs)
            sub = Model()
            sub.v = {v: w for v, w in m.v.items() if v in vs}
            sub.e = {e: w for e, w in m.e.items() if set(e) <= vs}
            agree(ctx, p, sub, "part of the partition")
            ctx.count("parts compared")
        agree(ctx, g, m, "after the queries")
        if parts and rng.random() < 0.3:       # parts are graphs of their own
            p = rng.choice(parts)
            v = sorted(p.vertices)[0]
            ctx.must("set_vertex_weight on a part", p.set_vertex_weight, v, 99)
            ctx.must("add_edge on a part", p.add_edge, (v, "newcomer"), 1)
            for e in list(p.edges)[:1]:
                ctx.must("remove_edge on a part", p.remove_edge, e)
            agree(ctx, g, m, "after editing a part")
        # change one edge and ask again
        vs = sorted(m.v)
        if len(vs) >= 2:
            a, b = rng.sample(vs, 2)
            if canon((a, b)) in m.e:
                ctx.must("remove_edge", g.remove_edge, (a, b))
                del m.e[canon((a, b))]
            else:
                w = weight(rng)
                ctx.must("add_edge", g.add_edge, (a, b), w)
                m.add_edge((a, b), w)


# -------------------------------------------------------------------- G04
def distances(m, s):
    adj = m.adj()
    dist = {s: F(0)}
    heap = [(F(0), s)]
    done = set()
    while heap:
        d, u = heapq.heappop(heap)
        if u in done:
            continue
        done.add(u)
        for v in adj[u]:
            t = d + F(m.e[canon((u, v))])
            if v not in dist or t < dist[v]:
                dist[v] = t
                heapq.heappush(heap, (t, v))
    return dist


@prop("G04", quick=48000, rule="Random weighted graphs (up to 8 vertices, sometimes 15 to 30; zero, tied, integral and "
      "fractional weights, every naming) and up to six vertex pairs each, against exact Dijkstra; unconnected and unknown "
      "pairs have to be refused.  Distinct by graph and pairs.",
      floors=[("weights a billionth apart", 1660), ("paths compared", 104750), ("unreachable refused", 24600), ("paths of several edges", 34060),
              ("shortest path is not the one with fewest edges", 10950), ("heavy edges", 2170),
              ("nearly tied weights", 570)])
def g04(ctx):
    rng = ctx.rng
    if rng.random() < 0.06:
        k = rng.randint(15, 30)
        m = Model()
        for i in range(k):
            m.v[f"v{i}"] = 0
        wm = rng.choice(["int", "float", "half", "near", "tiny", "exact"])
        for a, b in itertools.combinations(sorted(m.v), 2):
            if rng.random() < 0.15:
                m.add_edge((a, b), weight(rng, wm))
    else:
        m = random_model(rng)
    if rng.random() < 0.08:          # weights that differ by a billionth; sums are still exact
        base = rng.choice([0, 1, 1])
        for e in m.e:
            m.e[e] = base + rng.randint(0, 40) * 2.0 ** -rng.choice([24, 30])
        ctx.count("weights a billionth apart")
    vs = sorted(m.v)
    pairs = [(rng.choice(vs), rng.choice(vs)) for _ in range(6)]
    note_graph(ctx, m, pairs=pairs)
    g = build(ctx, m, verify=False)
    if rng.random() < 0.2 and m.e:          # a reweighted or cut graph is a different problem
        e = rng.choice(sorted(map(sorted, m.e)))
        if rng.random() < 0.5:
            w = weight(rng)
            ctx.must("set_edge_weight", g.set_edge_weight, tuple(e), w)
            m.e[canon(e)] = w
        else:
            ctx.must("remove_edge", g.remove_edge, tuple(e))
            del m.e[canon(e)]
    hops_m = m.clone()
    hops_m.e = {e: 1 for e in m.e}
    heaviest = max([F(w) for w in m.e.values()], default=F(0))
    if heaviest >= 10 ** 6:
        ctx.count("heavy edges")
    if any(w == 1 + UNIT for w in m.e.values()):
        ctx.count("nearly tied weights")
    for s, t in pairs:
        dist = distances(m, s)
        if t not in dist:
            ctx.refuse(f"shortest_path({s!r}, {t!r}), unconnected", g.shortest_path, s, t, kinds=(ValueError,))
            ctx.count("unreachable refused")
            continue
        path = ctx.must(f"shortest_path({s!r}, {t!r})", g.shortest_path, s, t)
        path = [tuple(e) for e in path]
        at, total = s, F(0)
        for e in path:
            ctx.check(len(e) == 2 and canon(e) in m.e, lambda: f"path from {s!r} to {t!r}: {e} is not an edge: {path}")
            ctx.check(at in e, lambda: f"path from {s!r} to {t!r} is not a chain at {e}: {path}")
            at = e[1] if e[0] == at else e[0]
            total += F(m.e[canon(e)])
        ctx.check(at == t, lambda: f"path from {s!r} to {t!r} ends at {at!r}: {path}")
        ctx.check(s != t or not path, lambda: f"path from {s!r} to itself is {path}")
        ctx.check(total <= dist[t] + F(1, 10 ** 11) * heaviest,
                  lambda: f"path from {s!r} to {t!r} weighs {float(total)}, the minimum is {float(dist[t])}: {path}")
        ctx.count("paths compared")
        if len(path) >= 2:
            ctx.count("paths of several edges")
            if distances(hops_m, s)[t] < len(path):
                ctx.count("shortest path is not the one with fewest edges")
    if rng.random() < 0.3:
        ctx.refuse("shortest_path from an unknown vertex", g.shortest_path, "unknown", vs[0], kinds=(ValueError,))
        ctx.refuse("shortest_path to an unknown vertex", g.shortest_path, vs[0], "unknown", kinds=(ValueError,))
        ctx.refuse("shortest_path between unknown vertices", g.shortest_path, "unknown", "unknown", kinds=(ValueError,))
    agree(ctx, g, m, "after shortest_path")


# -------------------------------------------------------------------- G05
def simple_paths(m, s, t):
    adj = m.adj()
    out = []

    def rec(u, path, seen):
        if u == t:
            out.append(list(path))
            return
        for v in sorted(adj[u] - seen):
            rec(v, path + [canon((u, v))], seen | {v})
    rec(s, [], {s})
    return out


def nested_cuts(m, dist, want, edges, o):
    """Whether the rows for the cuts {distance < d} prove that no solution is cheaper than the distance: each
    level of the distances pays its difference, and no edge is paid more than its weight."""
    rows = {tuple(r): i for i, r in enumerate(o["A"].tolist()) if o["inequalities"][i] == ">=" and o["b"][i] >= 1}
    levels = sorted({d for d in dist.values() if d <= want})
    paid = collections.defaultdict(F)
    for lo, hi in zip(levels, levels[1:]):
        inside = {v for v, d in dist.items() if d <= lo}
        cut = {e for e in edges if len(e & inside) == 1}
        if tuple(1.0 if e in cut else 0.0 for e in edges) not in rows:
            return False
        for e in cut:
            paid[e] += hi - lo
    return all(paid[e] <= F(m.e[e]) for e in paid)


@prop("G05", quick=4000, rule="Random weighted graphs with 2..6 vertices and a random connected pair (6 % with 7..9 vertices and at most 12 edges): shape and costs of the "
      "formulated program, its exact optimum against exact Dijkstra, and the indicator vector of every simple path "
      "against every row.  The column of an edge is identified up to permutation by matching costs and rows (a search "
      "over the assignments consistent with the order of the edges view first).  Distinct by graph and pair.",
      floors=[("programs solved exactly", 1380), ("path indicators checked", 5510), ("solved by the package", 490),
              ("large programs bounded by nested cuts", 90)])
def g05(ctx):
    rng = ctx.rng
    if rng.random() < 0.06:
        while True:
            m = random_model(rng, 9, kmin=7)
            if len(m.e) <= 12:
                break
    else:
        m = random_model(rng, 6, kmin=2)
    comps = [c for c in m.components() if len(c) >= 2]
    if not comps:
        raise Skip("no connected pair")
    s, t = rng.sample(sorted(rng.choice(comps)), 2)
    note_graph(ctx, m, pair=(s, t))
    g = build(ctx, m, verify=False)
    p = ctx.must("formulate_shortest_path", g.formulate_shortest_path, s, t)
    agree(ctx, g, m, "after formulating")
    ctx.check(isinstance(p, LinearProgram), lambda: f"formulate_shortest_path() gave {short(p)}")
    o = observe(ctx, p)
    n = len(m.e)
    ctx.check(o["objective"] == "min", "the shortest path program is not a minimization")
    ctx.check(o["A"].shape[1] == n and len(o["c"]) == n, lambda: f"{o['A'].shape[1]} variables for {n} edges")
    ctx.check(sorted(o["pos"]) == list(range(1, n + 1)), lambda: f"not all variables non-negative: {o['pos']}")
    ctx.check(np.allclose(sorted(o["c"]), sorted(float(w) for w in m.e.values()), rtol=1e-12, atol=0),
              lambda: f"costs {sorted(o['c'])} are not the edge weights")
    lp = lp_of_obs(o)
    dist = distances(m, s)
    want = dist[t]
    if len(m.v) >= 7 and nested_cuts(m, dist, want, [canon(e) for e in g.edges], o):
        ctx.count("large programs bounded by nested cuts")
    else:
        r = lp.solve()
        ctx.count("programs solved exactly")
        ctx.check(r[0] == "optimal", lambda: f"the shortest path program is {r[0]}, the distance is {float(want)}")
        ctx.check(abs(r[1] - want) <= F(1, 10 ** 9) * (1 + want),
                  lambda: f"the program's optimum is {float(r[1])}, the shortest distance is {float(want)}")
    # columns <-> edges: the order of the edges view is the natural one; accept any consistent order
    paths = simple_paths(m, s, t)[:60]
    edges = [canon(e) for e in g.edges]

    def fits(order):
        col = {e: j for j, e in enumerate(order)}
        for e, j in col.items():
            if abs(o["c"][j] - float(m.e[e])) > 1e-12 * (1 + abs(o["c"][j])):
                return False
        for path in paths:
            x = [F(0)] * n
            for e in path:
                x[col[e]] = F(1)
            if not lp.feasible(x):
                return False
        return True

    ok = fits(edges) or fits(sorted(edges, key=sorted))
    if not ok and n <= 7:
        ok = any(fits(list(q)) for q in itertools.permutations(edges))
    elif not ok:
        ctx.count("edge order not identified")
        ok = True
    ctx.check(ok, lambda: f"some path between {s!r} and {t!r} breaks a row of the program, in every assignment of edges "
              f"to columns; rows {o['A'].tolist()} {o['inequalities']} {o['b'].tolist()}, paths {[sorted(map(sorted, q)) for q in paths]}")
    ctx.count("path indicators checked", len(paths))
    if o["A"].shape[0] <= 8 and rng.random() < 0.6 and all(w == 0 or 0.01 <= w <= 10 ** 4 for w in m.e.values()):
        v = ctx.must("optimal_value", p.optimal_value)
        ctx.check(v is not None and abs(num(v, "optimal_value") - float(want)) <= 1e-6 * (1 + float(want)),
                  lambda: f"the program's optimal_value() is {v}, the shortest distance is {float(want)}")
        ctx.count("solved by the package")


# -------------------------------------------------------------------- G06
@prop("G06", quick=450, rule="Random vertex-weighted graphs with 1..6 vertices, edgeless ones included: every point of "
      "{0,1,2}^n is tested against the rows and the definition of a stable set, the objective against the weights, and "
      "branch and bound against enumeration.  Distinct by graph.",
      floors=[("points enumerated", 34470), ("solved by branch and bound", 140), ("graphs without edges", 60)],
      step_limit=60_000_000)
def g06(ctx):
    rng = ctx.rng
    m = random_model(rng, 6, vmode=rng.choice(["int", "half", "unit", "int", "zero", "near"]))
    note_graph(ctx, m)
    g = build(ctx, m, verify=False)
    if not m.e:
        ctx.count("graphs without edges")
    r = ctx.must("formulate_max_stable_set", g.formulate_max_stable_set)
    agree(ctx, g, m, "after formulating")
    ctx.check(isinstance(r, tuple) and len(r) == 2, lambda: f"formulate_max_stable_set() gave {short(r)}")
    p, mapping = r
    ctx.check(isinstance(p, IntegerProgram), lambda: f"the program is a {type(p).__name__}")
    n = len(m.v)
    ctx.check(set(mapping) == set(m.v), lambda: f"mapping {short(mapping)} does not cover the vertices {sorted(m.v)}")
    cols = sorted(int(j) for j in mapping.values())
    ctx.check(cols == list(range(n)), lambda: f"mapping {short(mapping)} is not one-to-one onto the columns")
    o = observe(ctx, p)
    ctx.check(o["A"].shape[1] == n, lambda: f"{o['A'].shape[1]} variables for {n} vertices")
    ctx.check(o["objective"] == "max", "not a maximization")
    lp = lp_of_obs(o)
    best = None
    order = sorted(m.v, key=lambda v: mapping[v])
    for x in itertools.product((0, 1, 2), repeat=n):
        chosen = {v for v, k in zip(order, x) if k}
        stable = max(x) <= 1 and not any(set(e) <= chosen for e in m.e)
        ok = lp.feasible([F(k) for k in x])
        ctx.check(ok == stable, lambda: f"point {dict(zip(order, x))} {'satisfies' if ok else 'breaks'} the rows but "
                  f"{'is' if stable else 'is not'} a stable set")
        if stable:
            w = sum((F(m.v[v]) for v in chosen), F(0))
            got = lp.value([F(k) for k in x])
            ctx.check(abs(got - w) <= F(1, 10 ** 9) * (1 + w), lambda: f"stable set {sorted(chosen)} has objective {float(got)}, weight {float(w)}")
            best = w if best is None or w > best else best
    ctx.count("points enumerated", 3 ** n)
    if n <= 4 or (n == 5 and rng.random() < 0.4):
        x = ctx.must("branch_and_bound", p.branch_and_bound)
        ctx.check(x is not None, "branch_and_bound() returned nothing for a stable set program")
        x = vec(x, n, "stable set solution")
        ctx.check(all(abs(t - round(t)) <= 1e-6 for t in x), lambda: f"solution {x.tolist()} is not whole")
        k = [int(round(t)) for t in x]
        ctx.check(lp.feasible([F(t) for t in k]), lambda: f"solution {k} is not feasible")
        got = lp.value([F(t) for t in k])
        ctx.check(abs(got - best) <= F(1, 10 ** 8) * (1 + abs(best)), lambda: f"solution {k} weighs {float(got)}, the maximum is {float(best)}")
        ctx.count("solved by branch and bound")


# -------------------------------------------------------------------- G07
def query_args(rng, pool, chosen):
    """The same vertex set in different clothes: [(description, argument)]."""
    lst = sorted(chosen)
    rng.shuffle(lst)
    out = [("set", set(chosen)), ("list", list(lst)), ("tuple", tuple(lst)), ("frozenset", frozenset(chosen))]
    if lst and rng.random() < 0.3:
        out.append(("list with repeats", lst + lst[:1]))
    return out


@prop("G07", quick=90000, rule="Random graphs with names of one and several characters (names that are concatenations or "
      "substrings of others included); random vertex subsets given as set, list, tuple or frozenset, single names, and "
      "names outside the graph, against the definition.  Distinct by graph and subset.",
      floors=[("cuts compared", 726580), ("single names of several characters", 97850)])
def g07(ctx):
    rng = ctx.rng
    m = random_model(rng, kmin=0)
    g = build(ctx, m, verify=False)
    vs = sorted(m.v)
    extra = [t for t in names(rng, 8) + ["", "ab", "zz"] if t not in m.v]
    note_graph(ctx, m)

    def judge(desc, arg, chosen):
        want = {e for e in m.e if len(set(e) & chosen) == 1}
        before = snap(arg)
        got = ctx.must(f"cut({desc} {short(arg)})", g.cut, arg)
        ctx.check(snap(arg) == before, lambda: f"cut changed the given {desc}")
        seen = [canon(e) for e in got]
        ctx.check(len(seen) == len(set(seen)) and set(seen) == want,
                  lambda: f"cut({short(arg)}) is {short(sorted(map(tuple, got)))}, expected {sorted(map(sorted, want))}")
        d = ctx.must("degree", g.degree, arg)
        ctx.check(snap(arg) == before, lambda: f"degree changed the given {desc}")
        ctx.check(d == len(want), lambda: f"degree({short(arg)}) is {d}, expected {len(want)}")
        ctx.count("cuts compared")

    for _ in range(rng.randint(1, 3)):
        chosen = {v for v in vs if rng.random() < rng.choice([0.2, 0.5, 0.8])}
        odd = {t for t in extra if rng.random() < 0.2}
        ctx.sig(tuple(sorted(chosen | odd)))
        for desc, arg in query_args(rng, vs, chosen | odd):
            judge(desc, arg, chosen)
        judge("complement", set(vs) - chosen, chosen)
    for v in vs:
        judge("name", v, {v})
        if len(v) > 1:
            ctx.count("single names of several characters")
    for t in extra[:3]:
        judge("unknown name", t, set())
    agree(ctx, g, m, "after cut and degree")


# -------------------------------------------------------------------- G08
@prop("G08", quick=48000, rule="Graphs with 0..8 (sometimes up to 16) vertices of every shape and naming, isolated vertices "
      "included, built in every way and then edited; the text printed before, between and after the edits, and by copies "
      "and parts, against the reference.  Distinct by graph and history.",
      floors=[("texts compared", 90820), ("isolated vertices", 27050), ("empty graphs", 3960), ("prints after edits", 38910)])
def g08(ctx):
    rng = ctx.rng
    m = random_model(rng, kmin=0)
    note_graph(ctx, m)
    g = build(ctx, m, verify=False)
    pool = list(m.v) + [t for t in names(rng, 8) if t not in m.v][:2]

    def read(h, hm, what):
        for fn in (repr, str)[:rng.choice([1, 1, 2])]:
            text = ctx.must(f"{fn.__name__} ({what})", fn, h)
            adj = hm.adj()
            want = "\n".join(sorted(f"{v}: {'-'.join(sorted(adj[v]))}" for v in hm.v))
            ctx.check(text == want, lambda: f"{what}: the graph prints as {text!r}, expected {want!r}")
            ctx.count("texts compared")
        if any(not t for t in hm.adj().values()):
            ctx.count("isolated vertices")
        if not hm.v:
            ctx.count("empty graphs")

    read(g, m, "fresh")
    agree(ctx, g, m, "after printing")
    hist = []
    for _ in range(rng.randint(0, 5)):
        op = rng.choice(["edge", "edge", "vertex", "remove", "weight", "copy", "refused"])
        known = sorted(map(sorted, m.e))
        a, b = rng.choice(pool), rng.choice(pool)
        if op == "edge" and a != b and canon((a, b)) not in m.e:
            ctx.must("add_edge", g.add_edge, (a, b), 2)
            m.add_edge((a, b), 2)
        elif op == "vertex" and a not in m.v:
            ctx.must("add_vertex", g.add_vertex, a, 1)
            m.v[a] = 1
        elif op == "remove" and known:
            e = tuple(rng.sample(rng.choice(known), 2))
            ctx.must("remove_edge", g.remove_edge, e)
            del m.e[canon(e)]
        elif op == "weight" and known:
            e = tuple(rng.sample(rng.choice(known), 2))
            ctx.must("set_edge_weight", g.set_edge_weight, e, 7)
            m.e[canon(e)] = 7
        elif op == "copy":
            h = g
            g = ctx.must("copy", g.copy)
            read(h, m, "the original of a copy")
        elif op == "refused":
            ctx.refuse("add_edge of a loop", g.add_edge, (a, a))
        else:
            continue
        hist.append((op, a, b))
        read(g, m, f"after {hist}")
        ctx.count("prints after edits")
    ctx.sig(tuple(hist))
    agree(ctx, g, m, "after the prints")
    if rng.random() < 0.3:
        parts = ctx.must("partition", g.partition)
        comps = m.components()
        lines = sorted(l for p in parts for l in ctx.must("repr of a part", repr, p).split("\n"))
        adj = m.adj()
        want = sorted(f"{v}: {'-'.join(sorted(adj[v]))}" for v in m.v)
        ctx.check(lines == want and len(parts) == len(comps), lambda: f"the parts print {lines}, expected {want}")
