"""Recorders and generators for plain graphs (C01, C02) - public API only."""


def enc_v(x):
    return x if type(x) is int and 0 <= x < 2 ** 30 else 2 ** 30


class Keys:
    """Distinguishers -> small integers."""
    def __init__(self):
        self.t = {}

    def __call__(self, k):
        return self.t.setdefault((type(k).__name__, k), len(self.t))


def listing(it, limit=100000):
    out = []
    for x in it:
        out.append(x)
        if len(out) > limit:
            raise RuntimeError("listing does not end")
    return out


def num(x):
    return x if type(x) is int and abs(x) < 2 ** 30 else -2 ** 30


def boolean(x):
    return 1 if x is True else 0 if x is False else 2


class GraphRec:
    """Drives a graph with explicit operations and records what it answers."""
    def __init__(self, g, t, api, has_in):
        import pybgl.graph as G
        self.g, self.t, self.G, self.api, self.has_in = g, t, G, api, has_in
        self.keys = Keys()
        self.edge_of = {}          # our name -> descriptor
        self.live_v = []
        self.dead = []
        self.n = 0

    def fn(self, name, *args):
        """Alternate between the method and the free function."""
        self.n += 1
        if self.api == 0 or (self.api == 2 and self.n % 2):
            return getattr(self.g, name)(*args)
        return getattr(self.G, name)(*args, self.g)

    def enc(self, e):
        return [enc_v(self.fn("source", e)), enc_v(self.fn("target", e)), self.keys(e.distinguisher)]

    def q(self, name, *args):
        g = self
        if name in ("vertices",):
            return dict(op=name, r=[enc_v(v) for v in listing(g.fn(name))])
        if name in ("num_vertices", "num_edges"):
            return dict(op=name, r=num(g.fn(name)))
        if name in ("has_vertex", "has_edge", "is_directed"):
            r = self.G.is_directed(self.g) if name == "is_directed" else g.fn(name)
            return dict(op=name, r=boolean(r))
        if name == "edges":
            return dict(op=name, r=[g.enc(e) for e in listing(g.fn(name))])
        if name in ("out_edges", "in_edges"):
            return dict(op=name, u=args[0], r=[g.enc(e) for e in listing(g.fn(name, args[0]))])
        if name in ("out_degree", "in_degree"):
            return dict(op=name, u=args[0], r=num(g.fn(name, args[0])))
        if name == "edge":
            r = g.fn("edge", *args)
            e, found = r
            return dict(op="edge", q=[args[0], args[1], boolean(found), g.enc(e) if e is not None else [0, 0, 0]])
        if name == "ends":
            e = args[0]
            return dict(op="ends", e=g.enc(e), s=enc_v(self.G.source(e, self.g)), t=enc_v(self.g.target(e)))
        if name == "cmp":
            a, b = args
            return dict(op="cmp", a=g.enc(a), b=g.enc(b), eq=boolean(a == b), hash=boolean(hash(a) == hash(b)),
                        inset=boolean(a in {b}), lt=boolean(a < b), gt=boolean(b < a))
        raise KeyError(name)

    def full(self, pairs=None, rng=None):
        qs = [self.q(x) for x in ("vertices", "num_vertices", "has_vertex", "edges", "num_edges", "has_edge", "is_directed")]
        for u in self.live_v:
            qs.append(self.q("out_edges", u))
            qs.append(self.q("out_degree", u))
            if self.has_in:
                qs.append(self.q("in_edges", u))
                qs.append(self.q("in_degree", u))
        prs = [(u, v) for u in self.live_v for v in self.live_v]
        es = list(self.edge_of.values())
        cmps = [(a, b) for a in es for b in es]
        if rng is not None:
            prs = rng.sample(prs, min(20, len(prs)))
            cmps = rng.sample(cmps, min(12, len(cmps)))
            es = rng.sample(es, min(8, len(es)))
        elif len(cmps) > 16:
            cmps = cmps[:16]
        for u, v in prs:
            qs.append(self.q("edge", u, v))
        for e in es:
            qs.append(self.q("ends", e))
        for a, b in cmps:
            qs.append(self.q("cmp", a, b))
        self.t.ev.append(dict(op="all", qs=qs))

    def do(self, op):
        t, k = self.t, op[0]
        if k == "av":
            u = self.fn("add_vertex")
            t.e("add_vertex", u=enc_v(u))
            self.live_v.append(u)
        elif k == "ae":
            u, v, name = op[1], op[2], op[3]
            e, added = self.fn("add_edge", u, v)
            t.e("add_edge", u=u, v=v, e=self.enc(e), added=boolean(added))
            self.edge_of[name] = e
        elif k == "re":
            e = self.edge_of.pop(op[1])
            enc = self.enc(e)
            if len(op) > 2 and op[2]:      # hand in the same edge from its other end
                from pybgl.graph import EdgeDescriptor
                e = EdgeDescriptor(e.target, e.source, e.distinguisher)
            self.fn("remove_edge", e)
            t.e("remove_edge", e=enc)
            self.dead.append(e)
        elif k == "rv":
            u = op[1]
            self.fn("remove_vertex", u)
            self.live_v.remove(u)
            for n, e in list(self.edge_of.items()):
                if e.source == u or e.target == u:
                    del self.edge_of[n]
            t.e("remove_vertex", u=u)
        elif k == "clear":
            self.g.clear()
            self.live_v.clear()
            self.edge_of.clear()
            self.dead.clear()
            t.e("clear")
        elif k == "full":
            self.full()
        else:
            raise KeyError(k)


def make(kind, n):
    from pybgl.graph import DirectedGraph, UndirectedGraph, Graph
    from pybgl.incidence_graph import IncidenceGraph
    if kind == "Graph":
        return Graph(True, n)
    c = dict(D=DirectedGraph, U=UndirectedGraph, I=IncidenceGraph)[kind]
    return c(n) if n else c()


def record(case, t):
    """case: kind, n, ops, api (0 methods, 1 free functions, 2 alternate), every (full observation period), seed"""
    import random
    g = make(case["kind"], case["n"])
    t.init = dict(dir=case["kind"] != "U", n=case["n"])
    r = GraphRec(g, t, case["api"], case["kind"] in ("I", "U"))
    r.live_v = list(range(case["n"]))
    rng = random.Random(case["seed"]) if case.get("sample") else None
    every = case["every"]
    if case["n"]:
        r.full(rng=rng)
    for i, op in enumerate(case["ops"]):
        r.do(op)
        if i % every == every - 1:
            r.full(rng=rng)
    r.full(rng=rng)


def random_ops(rng, kind, n0, n_ops, max_v, max_e, p_clear=0.01, p_remove=0.4):
    """Explicit operations; edges are named by integers, vertices by the identifiers they must get."""
    live, nxt, edges, ops, cnt = list(range(n0)), n0, {}, [], 0
    und = kind == "U"
    while len(ops) < n_ops:
        x = rng.random()
        if x < p_clear:
            ops.append(["clear"])
            live, nxt, edges = [], 0, {}
        elif x < p_remove * 0.35 and live:
            u = rng.choice(live)
            live.remove(u)
            edges = {k: e for k, e in edges.items() if u not in e}
            ops.append(["rv", u])
        elif x < p_remove and edges:
            k = rng.choice(sorted(edges))
            del edges[k]
            ops.append(["re", k, 1 if und and rng.random() < .5 else 0])
        elif x < p_remove + 0.15 and len(live) < max_v or not live:
            ops.append(["av"])
            live.append(nxt)
            nxt += 1
        elif len(edges) < max_e:
            if edges and rng.random() < .4:          # parallel or opposite edge
                u, v = edges[rng.choice(sorted(edges))]
                if rng.random() < .4:
                    u, v = v, u
            else:
                u, v = rng.choice(live), rng.choice(live)
            ops.append(["ae", u, v, cnt])
            edges[cnt] = (u, v)
            cnt += 1
    return ops


def history_cases(ctx, kinds, counts):
    """Random histories of several profiles."""
    cases = []
    for kind in kinds:
        for _ in range(counts[0]):       # tiny graphs, dense histories
            n0 = ctx.rng.choice([0, 0, 1, 2, 3])
            ops = random_ops(ctx.rng, kind, n0, 45, 4, 8, p_clear=.03, p_remove=.45)
            cases.append(dict(kind=kind, n=n0, ops=ops, api=ctx.rng.randrange(3), every=1, seed=0))
        for _ in range(counts[1]):       # medium
            n0 = ctx.rng.choice([0, 5])
            ops = random_ops(ctx.rng, kind, n0, 120, 10, 25, p_clear=.005, p_remove=.38)
            cases.append(dict(kind=kind, n=n0, ops=ops, api=ctx.rng.randrange(3), every=6, seed=ctx.rng.randrange(1 << 30), sample=1))
        for _ in range(counts[2]):       # large
            n0 = ctx.rng.choice([0, 30])
            ops = random_ops(ctx.rng, kind, n0, 500, 60, 200, p_clear=.0005, p_remove=.25)
            cases.append(dict(kind=kind, n=n0, ops=ops, api=ctx.rng.randrange(3), every=60, seed=ctx.rng.randrange(1 << 30), sample=1))
    return cases


INV = ("TypeOK", "IncidenceOK", "HandshakeOK", "ReprOK")
PROPS = ("NoReuse", "Frame")


def model_walks(ctx, consts, kinds, directed, label, max_len=40):
    """Every transition of the abstract graph at a small scope, as replayable histories."""
    from vlib.walks import read_transitions, covering_walks
    r = ctx.model("MultigraphModel", consts, view="AbsView", action_constraint="Emit", workers=1, invariants=("TypeOK",))
    tr = read_transitions(r)
    import json
    n0 = int(consts["N0"])
    init = json.dumps([list(range(n0)), n0, []])
    walks = covering_walks(tr, init, max_len, ctx.rng)
    cases = []
    for i, w in enumerate(walks):
        ops, names, cnt = [], {}, 0
        for a in w:
            if a[0] == "ae":
                names[tuple(a[1:])] = cnt
                u, v = a[1], a[2]
                if not directed and ctx.rng.random() < .5:
                    u, v = v, u
                ops.append(["ae", u, v, cnt])
                cnt += 1
            elif a[0] == "re":
                ops.append(["re", names.pop(tuple(a[1:])), 0 if directed else ctx.rng.randrange(2)])
            elif a[0] == "rv":
                names = {k: n for k, n in names.items() if a[1] not in k[:2]}
                ops.append(["rv", a[1]])
            elif a[0] == "clear":
                names = {}
                ops.append(["clear"])
            else:
                ops.append(["av"])
        kind = kinds[i % len(kinds)]
        cases.append(dict(kind=kind, n=n0, ops=ops, api=i % 3, every=1, seed=0))
    ctx.exhaustive_notes.append("%s: %d transitions of the abstract state machine replayed in %d histories" % (label, len(tr), len(walks)))
    return cases
