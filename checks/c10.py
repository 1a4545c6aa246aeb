"""C10: Dijkstra's shortest paths."""
import itertools
from . import gen
from .graphs import enc_v

INF = 100000000
# name -> algebra of the specification; how the real call is made is in algebra()
HOWS = ["default", "less", "lex", "float", "prob", "minimax", "widest_gt", "widest_ge", "minimax_le"]


def algebra(how):
    """spec algebra, keyword arguments, weight encoding, distance decoding"""
    import operator, math, sys
    from pybgl.algebra import Less, GreaterThan, ClosedPlus, ClosedMax, ClosedMin, ClosedTime
    big = sys.maxsize
    ident = lambda w: w
    dec = lambda d: INF if d == big else d if type(d) is int and abs(d) < INF else -1
    if how == "default":
        return "plus", {}, ident, dec
    if how == "less":
        return "plus", dict(compare=Less(), combine=ClosedPlus(10 ** 9), infty=10 ** 9, zero=0), ident, lambda d: INF if d == 10 ** 9 else d if type(d) is int and abs(d) < INF else -1
    if how == "lex":        # pairs compared lexicographically
        comb = lambda a, b: (a[0] + b[0], a[1] + b[1])
        return "plus", dict(compare=lambda a, b: a < b, combine=comb, zero=(0, 0), infty=(10 ** 9, 0)), lambda w: divmod(w, 1000), \
            lambda d: INF if d[0] >= 10 ** 9 else d[0] * 1000 + d[1]
    if how == "float":
        return "plus", dict(compare=Less(), combine=operator.add, zero=0.0, infty=float("inf")), lambda w: w / 8, lambda d: INF if d == float("inf") else int(d * 8) if d * 8 == int(d * 8) else -1
    if how == "prob":       # most reliable path: products of powers of 1/2
        return "plus", dict(compare=GreaterThan(), combine=ClosedTime(0), zero=1.0, infty=0.0), lambda w: 0.5 ** w, lambda d: INF if d == 0 else int(-math.log2(d))
    if how in ("minimax", "minimax_le"):
        c = Less() if how == "minimax" else (lambda a, b: a <= b)
        return "max", dict(compare=c, combine=ClosedMax(), zero=0, infty=big), ident, dec
    c = GreaterThan() if how == "widest_gt" else (lambda a, b: a >= b)
    return "min", dict(compare=c, combine=ClosedMin(0) if how == "widest_gt" else min, zero=big, infty=0), ident, dec


@gen.unchanged
def record(case, t):
    import random, sys
    from collections import defaultdict
    import pybgl
    J = sys.modules["pybgl.dijkstra_shortest_paths"]
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    b = gen.Built(case)
    g, enc = b.g, b.enc
    rng = random.Random(case["seed"])
    alg, kw, we, dd = algebra(case["how"])
    ws = case["ws"]
    s = b.id[case["s"]]
    t.init = b.init(ws=ws, alg=alg, s=s)
    weight = make_func_property_map(lambda e: we(ws[b.name(e)]))
    if b.dir and rng.random() < .5:
        d = defaultdict(int)
        for e, w in zip(b.desc, ws):
            d[e] = we(w)
        weight = make_assoc_property_map(d)
    exam = []

    class V(J.DijkstraVisitor):
        def examine_vertex(self, u, h):
            exam.append(u)
            if len(exam) > 20 * (len(b.id) + 2):
                raise RuntimeError("examines for ever")

    def maps():
        return defaultdict(set), defaultdict(lambda: -5), ({} if rng.random() < .5 else dict(pmap_vcolor=make_assoc_property_map(defaultdict(int))))

    def log():
        for u in exam:
            t.e("exam", u=enc_v(u))
    pr, di, kc = maps()
    if case["p2p"]:
        tt = b.id[case["t"]]
        try:
            r = J.dijkstra_shortest_path(g, s, tt, weight, make_assoc_property_map(pr), make_assoc_property_map(di), **({} if rng.random() < .3 else dict(vis=V())), **kc, **kw)
        finally:
            full = exam[:]
        if not full:        # no visitor: replay the order from a full run
            pr2, di2, _ = maps()
            J.dijkstra_shortest_paths(g, s, weight, make_assoc_property_map(pr2), make_assoc_property_map(di2), vis=V(), **kw)
            full = exam[:]
            if r is not None and tt in full:
                full = full[:full.index(tt) + 1]
        exam[:] = full
        settled = b.id if r is None else sorted(set(full) | {tt})
        if r is not None and exam and exam[-1] == tt:
            exam.pop()      # announced, but the search stops there
        log()
        t.e("p2p", t=tt, found=0 if r is None else 1, r=[] if r is None else [enc(e) for e in r])
        t.e("dist", r=[[u, dd(di[u])] for u in settled])
        return
    try:
        J.dijkstra_shortest_paths(g, s, weight, make_assoc_property_map(pr), make_assoc_property_map(di), vis=V(), **kc, **kw)
    finally:
        log()
    t.e("end")
    t.e("dist", r=[[u, dd(di[u])] for u in b.id])
    t.e("preds", r=[[u, [enc(e) for e in pr[u]]] for u in b.id if u != s])
    pmap = make_assoc_property_map(pr)
    worst = 0 if alg == "min" else INF
    ts = b.id if len(b.id) <= 4 else rng.sample(b.id, 4)
    for u in ts:
        ok = dd(di[u]) != worst
        if ok:
            t.e("path", t=u, r=[enc(e) for e in J.make_shortest_path(g, s, u, pmap)])
        if alg == "plus" and 0 not in ws:
            t.e("dag", t=u, r=[enc(e) for e in J.make_shortest_paths_dag(g, s, u, pmap)])
        t.e("single", t=u, r=[enc(e) for e in J.make_shortest_paths_dag(g, s, u, pmap, single_path=True)])


def small(ctx):
    cases, i = [], 0
    pairs = [(u, v) for u in range(3) for v in range(3) if u != v]
    for ws in itertools.product((None, 1, 2), repeat=len(pairs)):
        for how in (HOWS[i % len(HOWS)], HOWS[(i * 5 + 3) % len(HOWS)]):
            es = [(p, w) for p, w in zip(pairs, ws) if w is not None]
            cases.append(dict(kind="DIA"[i % 3], n=3, edges=[p for p, _ in es], ws=[w for _, w in es], s=0, t=i % 3, p2p=i % 4 == 0, how=how, seed=i))
            i += 1
    ctx.exhaustive_notes.append("every loop-free digraph on 3 vertices with weights 1 and 2: %d runs over %d algebras" % (len(cases), len(HOWS)))
    return cases


def random_case(rng, max_n, max_m, wmax):
    c = gen.random_graph(rng, max_n, max_m)
    n = c["n"]
    lo = rng.choice([0, 1, 1])
    how = rng.choice(HOWS)
    hi = 3 if rng.random() < .4 else min(wmax, 30) if how == "prob" else wmax
    if how.startswith("widest"):
        lo = 1
    c.update(ws=[rng.randrange(lo, hi + 1) for _ in c["edges"]], s=rng.randrange(n), t=rng.randrange(n), p2p=rng.random() < .3,
             how=how, seed=rng.randrange(1 << 30))
    return c


def run(ctx):
    big = ctx.tier == "thorough"
    kw = dict(invariants=("EndOK", "NotStuck"), properties=("Settled",))
    ctx.models_parallel([
        dict(module="DijkstraModel", constants=dict(N=3, Ws="{1,2}", MaxE=4 if not big else 6, Algs='{"plus","min","max"}', Loops="FALSE"), workers=4, **kw),
        dict(module="DijkstraModel", constants=dict(N=3, Ws="{0,1}", MaxE=3 if not big else 4, Algs='{"plus","max"}', Loops="TRUE"), workers=4, **kw),
        dict(module="DijkstraModel", constants=dict(N=4, Ws="{1}" if not big else "{1,3}", MaxE=4, Algs='{"plus","min"}', Loops="FALSE"), workers=4, **kw)])
    ctx.conform("DijkstraTrace", record, small(ctx), "small-graphs")
    n = ctx.scale((400, 100, 10), (6000, 1500, 150))
    cases = [random_case(ctx.rng, 6, 14, 6) for _ in range(n[0])] + [random_case(ctx.rng, 20, 60, 50) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 80, 250, 1000) for _ in range(n[2])]
    ctx.conform("DijkstraTrace", record, cases, "random-graphs")
    cases = []
    for kind in ctx.rng.sample("DUIAVWR", 6 if big else 1):
        c, s = gen.deep_graph(ctx.rng, kinds=kind)
        cases.append(dict(c, ws=[ctx.rng.randrange(1, 4) for _ in c["edges"]], s=s, t=c["edges"][1060][1], p2p=kind == "D", how="plus", seed=ctx.rng.randrange(1 << 30)))
    ctx.conform("DijkstraTrace", record, cases, "deep-graphs")
    ctx.assumptions.append("weights are finite and at least zero (for widest paths, positive); sums stay far from the absorbing value; floating-point weights are multiples of 1/8, products powers of 1/2, hence exact")
    ctx.assumptions.append("an undirected edge weighs the same from both ends; maps are fresh")
