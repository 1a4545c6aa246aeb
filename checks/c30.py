"""C30: what the visitor of Dijkstra's algorithm sees."""
from . import gen
from .c10 import INF, algebra, random_case, small
from .graphs import enc_v


@gen.unchanged
def record(case, t):
    import random, sys
    from collections import defaultdict
    import pybgl
    J = sys.modules["pybgl.dijkstra_shortest_paths"]
    from pybgl.graph_traversal import BLACK, GRAY
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    b = gen.Built(case)
    g, enc = b.g, b.enc
    rng = random.Random(case["seed"])
    alg, kw, we, dd = algebra(case["how"])
    ws, s = case["ws"], b.id[case["s"]]
    t.init = b.init(ws=ws, alg=alg, s=s)
    weight = make_func_property_map(lambda e: we(ws[b.name(e)]))
    count = [0]

    class V(J.DijkstraVisitor):
        def see(self, k, x, h):
            if h is not g:
                t.e("exc", what="visitor given another graph")
            count[0] += 1
            if count[0] > 40 * (len(b.id) + len(ws) + 2):
                raise RuntimeError("goes on for ever")
            # what can be seen, at that time, of the vertex or of the target: colour and distance
            v = x[1] if isinstance(x, list) else x
            t.e(k, x=x, c=self.co[v] if k != "init" and case["seed"] % 3 else -1, d=dd(self.di[v]) if k != "init" else -1,
                p=[enc(e) for e in self.pr[v]] if k == "rel" else [])

        def initialize_vertex(self, u, h): self.see("init", enc_v(u), h)
        def discover_vertex(self, u, h): self.see("disc", enc_v(u), h)
        def examine_vertex(self, u, h): self.see("exam", enc_v(u), h)
        def examine_edge(self, e, h): self.see("edge", enc(e), h)
        def edge_relaxed(self, e, h): self.see("rel", enc(e), h)
        def edge_not_relaxed(self, e, h): self.see("norel", enc(e), h)
        def finish_vertex(self, u, h): self.see("fin", enc_v(u), h)

    def call(vis):
        pr, di, co = defaultdict(set), defaultdict(lambda: -5), defaultdict(int)
        if vis:
            vis.pr, vis.di, vis.co = pr, di, co
        k = dict(kw, vis=vis) if vis or rng.random() < .5 else dict(kw)
        if case["seed"] % 3:
            k["pmap_vcolor"] = make_assoc_property_map(co)
        maps = [weight, make_assoc_property_map(pr), make_assoc_property_map(di)]
        if case["p2p"]:
            r = J.dijkstra_shortest_path(g, s, b.id[case["t"]], *maps, **k)
        else:
            r = J.dijkstra_shortest_paths(g, s, *maps, **k)
        return r, pr, di, co
    r, pr, di, co = call(V())
    if r is not None and t.ev and t.ev[-1]["op"] == "exam":
        t.ev[-1]["op"] = "stop"     # at the target
        if t.ev[-1]["x"] != b.id[case["t"]]:
            t.e("exc", what="stopped at another vertex")
    else:
        t.e("end", x=[])
    if case["seed"] % 3:
        t.e("colours", black=[u for u in b.id if co[u] == BLACK], gray=[u for u in b.id if co[u] == GRAY])
    r2, pr2, di2, co2 = call(None)
    cut = lambda d: {u: x for u, x in d.items() if x}
    t.e("silent", same=int((r is None) == (r2 is None) and cut(pr) == cut(pr2) and di == di2 and cut(co) == cut(co2)))


def run(ctx):
    big = ctx.tier == "thorough"
    kw = dict(invariants=("Refines", "Once", "Discovered", "LastRelaxed", "NotStuck"), properties=("Coarse",), workers=3)
    m = lambda n, ws, e, a: dict(module="DijkstraStepsModel", constants=dict(N=n, Ws=ws, MaxE=e, Algs=a, Lazy="FALSE"), **kw)
    jobs = [m(3, "{1,2}", 3, '{"plus","max","min"}'), m(3, "{0,1}", 3, '{"plus","max"}')]
    if big:
        jobs = [m(3, "{1,2}", 5, '{"plus","min"}'), m(3, "{0,1,3}", 4, '{"plus","max"}'), m(4, "{1}", 5, '{"plus"}')]
    ctx.models_parallel(jobs, timeout=840)
    ctx.conform("DijkstraStepsTrace", record, small(ctx)[:: 1 if big else 2], "small-graphs")
    n = ctx.scale((500, 150, 10), (7000, 2000, 150))
    cases = [random_case(ctx.rng, 6, 14, 6) for _ in range(n[0])] + [random_case(ctx.rng, 20, 60, 50) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 60, 180, 1000) for _ in range(n[2])]
    ctx.conform("DijkstraStepsTrace", record, cases, "random-graphs")
    cases = []
    for kind in ctx.rng.sample("DUIAVWR", 3):
        c, s = gen.deep_graph(ctx.rng, kinds=kind)
        cases.append(dict(c, ws=[ctx.rng.randrange(1, 4) for _ in c["edges"]], s=s, t=c["edges"][1060][1], p2p=kind == "D", how="plus", seed=ctx.rng.randrange(1 << 30)))
    ctx.conform("DijkstraStepsTrace", record, cases, "deep-graphs")
    ctx.assumptions.append("as for C10; an edge that only equals the best cost so far may be reported either way")
