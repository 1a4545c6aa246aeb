"""C06: views over graphs."""
import json
from vlib.walks import read_transitions, covering_walks
from .graphs import enc_v, listing, num, Keys

# combinations used with two base views (1-based indices)
SMALL = [("or", 1, 2), ("and", 1, 2), ("sub", 1, 2)]
NESTED = SMALL + [("sub", 3, 4), ("or", 5, 2), ("and", 3, 1)]


def record(case, t):
    import random
    import pybgl.graph as G
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.automaton import Automaton
    from pybgl.graph_view import GraphView
    from pybgl.property_map import make_func_property_map, make_assoc_property_map
    from pybgl.breadth_first_search import breadth_first_search, breadth_first_search_graph
    from pybgl.depth_first_search import depth_first_search, depth_first_search_graph
    from collections import defaultdict
    rng = random.Random(case["seed"])
    kind, n = case["kind"], case["n"]
    g = dict(D=DirectedGraph, U=UndirectedGraph, I=IncidenceGraph, A=Automaton)[kind](n)
    has_in = kind in "UI"
    und = kind == "U"
    keys = Keys()
    ck = lambda e: (min(e.source, e.target), max(e.source, e.target), e.distinguisher) if und else (e.source, e.target, e.distinguisher)
    relv, rele, views, decl = [], [], [], []
    for allv, alle, vs in case["bases"]:
        rv, re = defaultdict(bool), defaultdict(bool)
        for u in vs:
            rv[u] = True
        relv.append(rv)
        rele.append(re)
        kw = {}
        if not allv:
            kw["pmap_vrelevant"] = make_assoc_property_map(rv) if rng.random() < .5 else make_func_property_map(lambda u, rv=rv: rv[u])
        if not alle:
            kw["pmap_erelevant"] = make_func_property_map(lambda e, re=re: re[ck(e)])
        views.append(GraphView(g, **kw))
        decl.append(dict(k="base", allv=bool(allv), alle=bool(alle), v=vs, i=0, j=0))
    for k, i, j in case["combos"]:
        a, b = views[i - 1], views[j - 1]
        views.append(a | b if k == "or" else a & b if k == "and" else a - b)
        decl.append(dict(k=k, i=i, j=j, allv=False, alle=False, v=[]))
    t.init = dict(dir=not und, n=n, ws=decl)
    enc = lambda e: [enc_v(g.source(e)), enc_v(g.target(e)), keys(e.distinguisher)]
    live, edge_of, cnt = list(range(n)), {}, [0]

    def fn(w, name, *a):
        return getattr(w, name)(*a) if rng.random() < .5 else getattr(G, name)(*a, w)

    def full():
        qs = []
        idx = range(len(views)) if not case.get("sample") else sorted(rng.sample(range(len(views)), min(3, len(views))))
        for i in idx:
            w, k = views[i], i + 1
            shown = [enc_v(u) for u in listing(fn(w, "vertices"))]
            qs += [dict(op="vertices", w=k, r=shown), dict(op="num_vertices", w=k, r=num(fn(w, "num_vertices"))),
                   dict(op="edges", w=k, r=[enc(e) for e in listing(fn(w, "edges"))]), dict(op="num_edges", w=k, r=num(fn(w, "num_edges")))]
            for u in (live if len(live) <= 3 else rng.sample(live, 3)):
                qs += [dict(op="out_edges", w=k, u=u, r=[enc(e) for e in listing(fn(w, "out_edges", u))]),
                       dict(op="out_degree", w=k, u=u, r=num(fn(w, "out_degree", u)))]
                if has_in:
                    qs += [dict(op="in_edges", w=k, u=u, r=[enc(e) for e in listing(fn(w, "in_edges", u))]),
                           dict(op="in_degree", w=k, u=u, r=num(fn(w, "in_degree", u)))]
            ok = [u for u in shown if u in live]
            if ok:
                u = rng.choice(ok)
                f = rng.choice((breadth_first_search, depth_first_search))
                seen = []
                from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor
                from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor
                base = DefaultBreadthFirstSearchVisitor if f is breadth_first_search else DefaultDepthFirstSearchVisitor

                class V(base):
                    def discover_vertex(self, x, _):
                        seen.append(enc_v(x))
                f(u, w, vis=V())
                qs.append(dict(op="search", w=k, u=u, r=list(seen)))
                if f is depth_first_search:
                    seen.clear()
                    depth_first_search_graph(w, vis=V())
                    qs.append(dict(op="searchall", w=k, r=list(seen)))
        t.ev.append(dict(op="all", qs=qs))
    full()
    for x, op in enumerate(case["ops"]):
        k = op[0]
        if k == "av":
            u = g.add_vertex()
            live.append(u)
            t.e("av")
        elif k == "ae":
            u, v, name = op[1:]
            cnt[0] += 1
            e, _ = g.add_edge(u, v, "l%d" % cnt[0]) if kind == "A" else g.add_edge(u, v)
            edge_of[name] = e
            for re in rele:
                re.pop(ck(e), None)
            t.e("ae", e=enc(e))
            for i, re in enumerate(rele):      # a reused descriptor starts undeclared
                t.e("de", i=i + 1, e=enc(e), b=False)
        elif k == "re":
            e = edge_of.pop(op[1])
            g.remove_edge(e)
            t.e("re", e=enc(e))
        elif k == "rv":
            u = op[1]
            g.remove_vertex(u)
            live.remove(u)
            edge_of = {m: e for m, e in edge_of.items() if u not in (e.source, e.target)}
            t.e("rv", u=u)
        elif k == "dv":
            i, u, b = op[1:]
            relv[i - 1][u] = bool(b)
            t.e("dv", i=i, u=u, b=bool(b))
        elif k == "de":
            i, name, b = op[1:]
            rele[i - 1][ck(edge_of[name])] = bool(b)
            t.e("de", i=i, e=enc(edge_of[name]), b=bool(b))
        if x % case["every"] == case["every"] - 1:
            full()
    full()


def walks(ctx, consts, kinds, combos, label):
    r = ctx.model("ViewModel", consts, view="AbsView", action_constraint="Emit", workers=1, invariants=("ViewOK",))
    tr = read_transitions(r)
    ws = covering_walks(tr, json.dumps([[], 0, [], [], [], [], []]), 40, ctx.rng)
    cases = []
    for i, w in enumerate(ws):
        ops = []
        for a in w:
            if a[0] == "ae":
                ops.append(["ae", a[1], a[2], str(a[1:])])
            elif a[0] == "re":
                ops.append(["re", str(a[1:])])
            elif a[0] == "de":
                ops.append(["de", a[1], str(a[2:5]), a[5]])
            else:
                ops.append(a)
        cases.append(dict(kind=kinds[i % len(kinds)], n=0, bases=[[0, 0, []], [0, 0, []]], combos=combos, ops=ops, every=1, seed=i, sample=1))
    ctx.exhaustive_notes.append("%s: %d transitions of ViewModel replayed in %d histories" % (label, len(tr), len(ws)))
    return cases


def random_case(rng, n_ops, max_v, every, grow=0):
    """grow: the share of the operations that are edge additions, on top of the usual mix (many edges, on few vertices)."""
    kind = rng.choice("DUIA")
    n = rng.randrange(0, max_v)
    live, nxt, edges, ops, cnt = list(range(n)), n, {}, [], 0
    bases = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        allv, alle = rng.random() < .2, rng.random() < .2
        bases.append([int(allv), int(alle), [u for u in range(max_v * 2) if rng.random() < .6] if not allv else []])
    combos, k = [], len(bases)
    for _ in range(rng.randrange(0, 5)):
        combos.append([rng.choice(["or", "and", "sub", "sub"]), rng.randrange(1, k + 1), rng.randrange(1, k + 1)])
        k += 1
    while len(ops) < n_ops:
        x = rng.random()
        if grow and live and x < .15 and rng.random() < .9:
            x = .5
        if x < .05 and live:
            u = rng.choice(live)
            live.remove(u)
            edges = {m: e for m, e in edges.items() if u not in e}
            ops.append(["rv", u])
        elif x < .15 and edges:
            m = rng.choice(sorted(edges))
            del edges[m]
            ops.append(["re", m])
        elif x < .3 and len(live) < max_v or not live:
            ops.append(["av"])
            live.append(nxt)
            nxt += 1
        elif x < .6 or rng.random() < grow:
            u, v = rng.choice(live), rng.choice(live)
            if grow and rng.random() < .4:
                u, v = live[0], live[-1]
            elif edges and rng.random() < .25:
                u, v = edges[rng.choice(sorted(edges))]
            edges[cnt] = (u, v)
            ops.append(["ae", u, v, cnt])
            for i in range(len(bases)):
                if rng.random() < .65:
                    ops.append(["de", i + 1, cnt, 1])
            cnt += 1
        elif x < .8:
            ops.append(["dv", rng.randrange(len(bases)) + 1, rng.choice(live), rng.randrange(2)])
        elif edges:
            ops.append(["de", rng.randrange(len(bases)) + 1, rng.choice(sorted(edges)), rng.randrange(2)])
    return dict(kind=kind, n=n, bases=bases, combos=combos, ops=ops, every=every, seed=rng.randrange(1 << 30))


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="ViewModel", constants=dict(Dir="TRUE", MaxId=2, MaxEdges=2 if not big else 3, Keys="{0}", Combos="TRUE"), view="AbsView",
             invariants=("ViewOK", "CombosOK"), workers=4),
        dict(module="ViewModel", constants=dict(Dir="FALSE", MaxId=2 if not big else 3, MaxEdges=2, Keys="{0,1}", Combos="TRUE"), view="AbsView",
             invariants=("ViewOK", "CombosOK"), workers=4)])
    cases = walks(ctx, dict(Dir="TRUE", MaxId=2, MaxEdges=1 if not big else 2, Keys="{0}", Combos="FALSE"), "DIA", NESTED, "directed")
    cases += walks(ctx, dict(Dir="FALSE", MaxId=2, MaxEdges=1, Keys="{0}", Combos="FALSE"), "U", NESTED, "undirected")
    ctx.conform("ViewTrace", record, cases, "model-histories")
    n = ctx.scale((200, 60), (3000, 800))
    cases = [random_case(ctx.rng, 40, 5, 2) for _ in range(n[0])] + [random_case(ctx.rng, 150, 14, 10) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 160, m, 60, .8) for m in (2, 3, 30) for _ in range(ctx.scale(10, 120))]
    ctx.conform("ViewTrace", record, cases, "random-histories")
    ctx.assumptions.append("an edge's declared relevance does not depend on the end it is listed from (undirected graphs)")
    ctx.assumptions.append("edge() and is_directed() of a view are those of the underlying graph")
