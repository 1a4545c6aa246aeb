"""C13: graph_copy, automaton_copy, graph_extract, cut."""
import itertools
from . import gen
from .graphs import Keys, enc_v, listing


def record(case, t):
    from collections import defaultdict
    from pybgl.automaton import Automaton
    from pybgl.automaton_copy import automaton_copy
    from pybgl.cut import cut
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graph_copy import graph_copy
    from pybgl.graph_extract import graph_extract
    from pybgl.graph_view import GraphView
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    b = gen.Built(case)
    g = b.g
    src = b.id[case["s"]]
    vrel = {b.id[i] for i in case["vrel"]} | {src}
    erel = set(case["erel"])
    t.init = dict(dir=b.dir, vs=list(b.id), es=[e[:2] for e in b.es], s=src, vrel=sorted(vrel), erel=[i + 1 for i in sorted(erel)])
    if case["mode"] == 1:          # maps that answer for what exists only
        mv, rel = {u: u in vrel for u in b.id}, {}
        for i, e in enumerate(b.desc):
            rel[b.ck(e)] = i in erel
        pv, pe = make_func_property_map(lambda u: mv[u]), make_func_property_map(lambda e: rel[b.ck(e)])
    else:
        pv, pe = make_func_property_map(lambda u: u in vrel), make_func_property_map(lambda e: b.name(e) in erel)
    kw = dict(pmap_vrelevant=pv, pmap_erelevant=pe)
    gg = g
    if case["mode"] == 2:          # the part is shown by a view
        gg, kw = GraphView(g, pv, pe), {}
    elif len(vrel) == len(b.id) and case["gseed"] % 2:
        del kw["pmap_vrelevant"]
        if len(erel) == len(b.es):
            del kw["pmap_erelevant"]

    def orig():
        return dict(ovs=[enc_v(u) for u in listing(g.vertices())], oes=[b.name(e) + 1 for e in listing(g.edges())])

    keys = Keys()

    def enc_dup(e, d):
        a, c = d.source(e), d.target(e)
        if not b.dir and a > c:
            a, c = c, a
        return [enc_v(a), enc_v(c), keys((type(e.distinguisher).__name__, e.distinguisher))]
    for ways in case["ways"]:
        if b.kind == "A":
            d, fn = Automaton(0), automaton_copy
        else:
            d, fn = (UndirectedGraph if not b.dir else [DirectedGraph, IncidenceGraph][case["gseed"] // 2 % 2])(0), graph_copy
        if ways == "plain":
            fn(src, gg, d, **kw)
            t.e("copynocb", dvs=[enc_v(u) for u in listing(d.vertices())], des=[enc_dup(e, d) for e in listing(d.edges())], **orig())
            continue
        cv, ce, lab, args = [], [], [], [1]

        def on_v(u, g_, ud, d_):
            cv.append([enc_v(u), enc_v(ud)])
            if g_ is not gg or d_ is not d:
                args[0] = 0

        def on_e(e, g_, ed, d_):
            ce.append([b.name(e) + 1, enc_dup(ed, d)])
            if b.kind == "A":
                lab.append([keys(g.label(e)), keys(d.label(ed))])
            if g_ is not gg or d_ is not d:
                args[0] = 0
        pre = {}
        if ways == "into":      # the receiving graph has its own vertices and edges, the maps answers of their own
            for _ in range(1 + case["gseed"] % 4):
                d.add_vertex()
            ws = listing(d.vertices())
            for i in range(case["gseed"] // 4 % 5):
                x, y = ws[i % len(ws)], ws[i * i % len(ws)]
                d.add_edge(x, y, "pre%d" % i) if b.kind == "A" else d.add_edge(x, y)
            if len(ws) > 2 and case["gseed"] % 3 == 0:
                d.remove_vertex(ws[1])
            pre = dict(dvs0=[enc_v(u) for u in listing(d.vertices())], des0=[enc_dup(e, d) for e in listing(d.edges())])
        m, me = defaultdict(lambda: None), defaultdict(lambda: None)
        k2 = dict(kw)
        if ways == "into":
            for i, u in enumerate(b.id):
                if i % 2:
                    m[u] = ws[0] if i % 4 == 1 else 10 ** 6
            pre.update(pv0=[[enc_v(u), enc_v(w)] for u, w in m.items()], pe0=[])
        if ways != "cb":
            k2.update(pmap_vertices=make_assoc_property_map(m), pmap_edges=make_assoc_property_map(me))
        fn(src, gg, d, callback_dup_vertex=on_v, callback_dup_edge=on_e, **k2)
        t.e("copyinto" if pre else "copy", cv=cv, ce=ce, lab=lab, args=args[0], maps=int(ways != "cb"), **pre,
            pv=[[enc_v(u), enc_v(w)] for u, w in m.items()], pe=[[b.name(e) + 1, enc_dup(x, d)] for e, x in me.items()],
            dvs=[enc_v(u) for u in listing(d.vertices())], des=[enc_dup(e, d) for e in listing(d.edges())], **orig())
        # writing to the copy must not reach the original
        d.remove_vertex(listing(d.vertices())[0])
    xv, xe, ok = [], [], [1]

    def on_xv(u, g_):
        xv.append(enc_v(u))
        ok[0] &= g_ is gg

    def on_xe(e, g_):
        xe.append(b.name(e) + 1)
        ok[0] &= g_ is gg
    graph_extract(src, gg, callback_vertex_extract=on_xv, callback_edge_extract=on_xe, **kw)
    t.e("extract", v=xv, e=xe, args=int(ok[0]), **orig())
    if b.dir:
        for c in [erel] + [set(x) for x in case["cuts"]]:
            r = cut(src, g, lambda e, g_: b.name(e) in c)
            t.e("cut", c=[i + 1 for i in sorted(c)], r=[enc_v(u) for u in r], **orig())


def subset(rng, n, p):
    return [i for i in range(n) if rng.random() < p]


def mk(rng, base):
    n, m = base["n"], len(base["edges"])
    p = rng.choice([.5, .8, .9, 1, 1])
    q = rng.choice([.5, .8, .9, 1, 1])
    return dict(base, s=rng.randrange(n), vrel=subset(rng, n, p), erel=subset(rng, m, q), mode=rng.choice([0, 0, 1, 2]),
                ways=rng.choice([["maps", "plain"], ["cb", "maps"], ["maps"], ["into"], ["maps", "into"]]), cuts=[subset(rng, m, .15), subset(rng, m, .4)])


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="CopyModel", constants=dict(N=3, MaxE=3 if big else 2, Dir="TRUE"), invariants=("CopyOK", "CutOK"), properties=("Ends",), workers=4),
        dict(module="CopyModel", constants=dict(N=3, MaxE=3 if big else 2, Dir="FALSE"), invariants=("CopyOK",), properties=("Ends",), workers=4)])
    cases, i = [], 0
    for kind in "DUA":
        for n in (1, 2, 3):
            gs = list(gen.all_graphs(n, max_m=9 if big else 5, undirected=kind == "U"))
            for es in gs if n < 3 or big else ctx.rng.sample(gs, min(len(gs), 260)):
                m = len(es)
                subs = itertools.product(*[(0, 1)] * (m + n - 1)) if n < 3 and m < 4 else [[ctx.rng.randrange(4) > 0 for _ in range(m + n - 1)] for _ in range(2)]
                for sub in subs:
                    cases.append(dict(kind="I" if kind == "D" and i % 2 else kind, n=n, edges=es, gseed=i, s=0, vrel=[j + 1 for j in range(n - 1) if sub[j]],
                                      erel=[j for j in range(m) if sub[n - 1 + j]], mode=i % 3, ways=[["maps"], ["plain", "maps"], ["cb"], ["into"]][i // 3 % 4], cuts=[]))
                    i += 1
    ctx.exhaustive_notes.append("every simple graph on at most 2 vertices with every choice of relevant vertices and edges (up to 3 edges), graphs on 3 vertices with two choices each: %d cases" % len(cases))
    ctx.conform("CopyTrace", record, cases, "small-graphs")
    k = ctx.scale((700, 400, 60), (10000, 6000, 800))
    cases = [mk(ctx.rng, gen.random_graph(ctx.rng, nv, m, "DUIAVWR")) for c, (nv, m) in zip(k, ((6, 14), (20, 50), (80, 200))) for _ in range(c)]
    ctx.conform("CopyTrace", record, cases, "random-graphs")
    cases = []
    for kind in ctx.rng.sample("DUIAVWR", 7 if big else 4):
        c, s = gen.deep_graph(ctx.rng, kinds=kind)
        m = len(c["edges"])
        cases.append(dict(c, s=s, vrel=list(range(c["n"])), erel=list(range(m)), mode=0, ways=["maps"], cuts=[subset(ctx.rng, m, .01)]))
    ctx.conform("CopyTrace", record, cases, "deep-graphs")
    ctx.assumptions += ["the source is relevant", "whether an undirected edge is relevant does not depend on the end it is looked at from"]
