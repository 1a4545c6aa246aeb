"""C34: histories of changes and algorithms on a collection of graphs and live views."""
import random
from .graphs import enc_v, listing, num


def record(case, t):
    from collections import defaultdict
    from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search, breadth_first_search_graph
    from pybgl.cut import cut
    from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search_graph
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_path, dijkstra_shortest_paths, make_shortest_path
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graph_copy import graph_copy
    from pybgl.graph_extract import graph_extract
    from pybgl.graph_view import GraphView
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    from pybgl.reverse import reverse_graph
    from pybgl.strong_components import strong_components
    from pybgl.topological_sort import topological_sort
    amap = lambda f: make_assoc_property_map(defaultdict(f))
    CLS = {0: DirectedGraph, 1: IncidenceGraph, 2: UndirectedGraph}
    rng = random.Random(case["seed"])
    kinds = list(case["kinds"])        # 3: a view on the first graph
    hidden = lambda: (set(rng.sample(range(6), rng.randrange(0, 3))), set(rng.sample(range(1, 25), rng.randrange(0, 9))))
    first = hidden()                   # they may hide what does not exist yet
    t.init = dict(new=kinds, hv=sorted(first[0]), he=sorted(first[1]))
    # per graph: the object, its own table of edges, whether it is reversed; per view: base, hidden vertices and edges
    slots, serial = [], [0]

    class Own:
        def __init__(self, g, kind):
            self.g, self.kind, self.dir, self.back, self.names, self.desc = g, kind, kind != 2, False, {}, {}

        def key(self, e):
            a, b = e.source, e.target
            return (min(a, b), max(a, b), e.distinguisher) if not self.dir else (a, b, e.distinguisher)

        def add(self, e):
            serial[0] += 1
            self.names[self.key(e)] = serial[0]
            self.desc[serial[0]] = e
            return serial[0]

        def forget(self, live):
            for n in list(self.desc):
                if n not in live:
                    del self.names[self.key(self.desc.pop(n))]

    class Over:
        def __init__(self, base, hv, he):
            self.base, self.hv, self.he = base, hv, he
            self.make()

        def make(self):
            o, hv, he = slots[self.base], self.hv, self.he
            self.g = GraphView(o.g, make_func_property_map(lambda u: u not in hv), make_func_property_map(lambda e: o.names.get(o.key(e)) not in he))

    for k in kinds:
        slots.append(Own(CLS[k](case["n0"]), k) if k != 3 else Over(0, *first))
    own = lambda i: slots[i] if kinds[i] != 3 else slots[slots[i].base]
    name = lambda i, e: own(i).names.get(own(i).key(e), -1)
    vs = lambda i: listing(slots[i].g.vertices())
    directed = lambda i: own(i).dir

    def enc(i, full, blind):
        """Vertices, edges, numbers of vertices and edges; not always looked at, so that what was asked before may be out of date."""
        g = slots[i].g
        if blind:
            return [[], [], -1, -1, 0]
        nv, ne = (num(g.num_vertices()), num(g.num_edges())) if full or rng.random() < .5 else (-1, -1)
        if not full and rng.random() < .4:
            return [[], [], nv, ne, 0]
        return [[enc_v(v) for v in listing(g.vertices())], [[name(i, e), enc_v(g.source(e)), enc_v(g.target(e))] for e in listing(g.edges())], nv, ne, 1]

    def see(op, i, full=False, **kw):
        blind = not full and rng.random() < .3
        t.e(op, i=i + 1, all=[enc(j, full, blind) for j in range(len(slots))], **kw)

    for i, k in enumerate(kinds):      # the vertices that a graph is created with
        if k != 3:
            for v in range(case["n0"]):
                t.e("addv0", i=i + 1, v=v)
    see("same", 0)
    for op, i, j, r, x in case["ops"]:
        kind, g = kinds[i], slots[i].g
        here = vs(i)
        pick = lambda q, n: q[n % len(q)]
        if op == "swap" and kind != 3 and not slots[i].back and slots[i].desc:
            o = slots[i]
            n = pick(sorted(o.desc), r)
            g.remove_edge(o.desc[n])
            del o.names[o.key(o.desc.pop(n))]
            t.e("dele", i=i + 1, n=n, all=[enc(z, False, True) for z in range(len(slots))])
            u, v = pick(here, x), pick(here, x // 64)
            e, new = g.add_edge(u, v)
            see("adde", i, x=[o.add(e), enc_v(u), enc_v(v)])
        elif kind != 3 and not slots[i].back and op in ("addv", "adde", "dele", "delv", "clear"):
            o = slots[i]
            if op == "addv":
                see("addv", i, v=enc_v(g.add_vertex()))
            elif op == "adde" and here:
                u, v = pick(here, r), pick(here, x)
                e, new = g.add_edge(u, v)
                see("adde", i, x=[o.add(e), enc_v(u), enc_v(v)])
            elif op == "dele" and o.desc:
                n = pick(sorted(o.desc), r)
                g.remove_edge(o.desc[n])
                del o.names[o.key(o.desc.pop(n))]
                see("dele", i, n=n)
            elif op == "delv" and here:
                v = pick(here, r)
                g.remove_vertex(v)
                o.forget({n for n, e in o.desc.items() if v not in (e.source, e.target)})
                see("delv", i, v=enc_v(v))
            elif op == "clear" and x % 4 < 2:      # that graph, or all of them, and start again
                empty = [z for z in range(len(slots)) if kinds[z] != 3 and not slots[z].back and (z == i or x % 4)]
                for z in empty:
                    slots[z].g.clear()
                    slots[z].forget(())
                    see("clear", z)
                for z in empty * 2:
                    see("addv", z, v=enc_v(slots[z].g.add_vertex()))
                for z in empty:
                    u, v = pick(vs(z), r), pick(vs(z), x // 4)
                    see("adde", z, x=[slots[z].add(slots[z].g.add_edge(u, v)[0]), enc_v(u), enc_v(v)])
        elif op == "reverse" and kind == 1:
            reverse_graph(g)
            slots[i].back = not slots[i].back
            see("reverse", i)
        elif op == "view" and kind == 3 and kinds[j] != 3:
            o = slots[j]
            hv, he = hidden()
            hv |= set(v for v in vs(j) if rng.random() < .1)
            he |= set(n for n in o.desc if rng.random() < .2)
            slots[i] = Over(j, hv, he)
            see("view", i, j=j + 1, hv=sorted(hv), he=sorted(he))
        elif op in ("join", "meet") and kind == 3 and kinds[j] == 3 and slots[i].base == slots[j].base:
            a, b = slots[i], slots[j]
            z = Over(a.base, a.hv & b.hv if op == "join" else a.hv | b.hv, a.he & b.he if op == "join" else a.he | b.he)
            z.g = a.g | b.g if op == "join" else a.g & b.g
            slots[i] = z
            see(op, i, j=j + 1)
        elif op == "copy" and kind != 3 and i != j and vs(j) and directed(i) == directed(j) and not (kinds[j] == 3 and slots[j].base == i):
            u = pick(vs(j), r)
            d = CLS[kind](0)
            mv, me = {}, []
            new = Own(d, kind)
            kw = {}
            if x % 2:
                kw = dict(pmap_vertices=amap(lambda: None), pmap_edges=amap(lambda: None))
            graph_copy(u, slots[j].g, d, callback_dup_vertex=lambda a, h, b, h2: mv.__setitem__(a, b), callback_dup_edge=lambda e, h, f, h2: me.append((name(j, e), f)), **kw)
            em = [[n, new.add(f)] for n, f in me]
            slots[i] = new
            for z in slots:
                if isinstance(z, Over) and z.base == i:
                    z.make()
            see("copy", i, j=j + 1, u=enc_v(u), vm=[[enc_v(a), enc_v(b)] for a, b in mv.items()], em=em)
        elif not here:
            continue
        elif op == "bfs":
            got = []

            class B(DefaultBreadthFirstSearchVisitor):
                def discover_vertex(self, u, h):
                    got.append(enc_v(u))
            u = pick(here, r)
            if x % 2:
                breadth_first_search(u, g, amap(int), B())
            else:
                breadth_first_search_graph(g, {u}, amap(int), B())
            t.e("bfs", i=i + 1, u=enc_v(u), r=got)
        elif op == "dfs":
            got, back = [], []

            class D(DefaultDepthFirstSearchVisitor):
                def discover_vertex(self, u, h):
                    got.append(enc_v(u))

                def back_edge(self, e, h):
                    back.append(e)
            depth_first_search_graph(g, pmap_vcolor=amap(int), vis=D())
            t.e("dfs", i=i + 1, r=got, back=len(back))
        elif op == "dij":
            u, v = pick(here, r), pick(here, x)
            w = {name(i, e): 1 + (name(i, e) * (r + 1)) % 7 for e in listing(g.edges())}
            dist, preds = defaultdict(int), defaultdict(set)
            weight = make_func_property_map(lambda e: w[name(i, e)])
            dijkstra_shortest_paths(g, u, weight, make_assoc_property_map(preds), make_assoc_property_map(dist))
            far = lambda d: num(d) if type(d) is int and d < 10 ** 8 else -1
            d = [[enc_v(q), far(dist[q])] for q in here]
            to, path = -1, []
            if far(dist[v]) >= 0:
                to = v
                if r % 2:
                    path = make_shortest_path(g, u, v, make_assoc_property_map(preds))
                else:
                    path = dijkstra_shortest_path(g, u, v, weight, amap(set), amap(int))
            t.e("dij", i=i + 1, u=enc_v(u), w=[[n, c] for n, c in w.items()], d=d, to=to, path=[name(i, e) for e in path])
        elif op == "scc" and directed(i):
            c = defaultdict(int)
            n = strong_components(g, make_assoc_property_map(c))
            t.e("scc", i=i + 1, n=num(n), c=[[enc_v(q), num(c[q])] for q in here])
        elif op == "topo" and directed(i):
            try:
                q = listing(topological_sort(g))
            except Exception:
                t.e("refused", i=i + 1)
            else:
                t.e("topo", i=i + 1, r=[enc_v(u) for u in q])
        elif op == "part":
            pv, pe = [], []
            u = pick(here, r)
            graph_extract(u, g, callback_vertex_extract=lambda q, h: pv.append(enc_v(q)), callback_edge_extract=lambda e, h: pe.append(name(i, e)))
            t.e("part", i=i + 1, u=enc_v(u), vs=pv, es=pe)
        elif op == "cut" and directed(i):
            u = pick(here, r)
            es = {name(i, e) for e in listing(g.edges()) if rng.random() < .3}
            t.e("cut", i=i + 1, u=enc_v(u), es=sorted(es), r=[enc_v(v) for v in cut(u, g, lambda e, h: name(i, e) in es)])
        elif op == "near":
            u = pick(here, r)
            has = own(i).kind == 1 or not directed(i) and kind != 3
            t.e("near", i=i + 1, u=enc_v(u), out=[name(i, e) for e in listing(g.out_edges(u))], nout=num(g.out_degree(u)), has=int(has),
                nin=num(g.in_degree(u)) if has else 0, nv=num(g.num_vertices()), ne=num(g.num_edges()),
                **{"in": [name(i, e) for e in listing(g.in_edges(u))] if has else []})
            if kind != 3:
                qs = []
                for v in here[:8]:
                    for a, b in {(u, v), (v, u)}:
                        e, found = g.edge(a, b)
                        qs.append(dict(op="between", i=i + 1, u=enc_v(a), v=enc_v(b), r=name(i, e) if found else 0))
                t.e("all", qs=qs)
        elif op == "dot":
            g.to_dot()
        if rng.random() < .3:
            see("same", i)
    see("same", 0, full=True)


CHANGES = ["addv", "adde", "adde", "adde", "adde", "adde", "swap", "swap", "dele", "delv", "clear", "reverse", "view", "join", "meet", "copy"]
ASKS = ["bfs", "dfs", "dij", "dij", "scc", "scc", "topo", "topo", "part", "cut", "near", "near", "dot"]


def random_case(rng, ops):
    n = rng.randrange(2, 5)
    kinds = [rng.choice([0, 1, 1, 2])] + [rng.choice([0, 1, 2, 3, 3, 3]) for _ in range(n - 1)]
    steps = []
    for _ in range(ops):
        i, j = rng.randrange(n), rng.randrange(n)
        ask = [rng.choice(ASKS), i, j, rng.randrange(1 << 16), rng.randrange(1 << 16)]
        if rng.random() < .3 and steps:            # the same question before and after
            steps.append(ask)
        steps.append([rng.choice(CHANGES), i if rng.random() < .7 else rng.randrange(n), j, rng.randrange(1 << 16), rng.randrange(1 << 16)])
        if rng.random() < .8:
            steps.append(ask)
    return dict(kinds=kinds, n0=rng.choice([0, 2, 3, 4]), ops=steps, seed=rng.randrange(1 << 30))


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("ShapeOK", "ViewOK", "BackOK", "DistOK", "LevelOK", "OrderOK", "CutOK", "JoinOK")
    m = lambda **c: dict(module="AtlasModel", constants=c, invariants=inv, properties=("Apart",), workers=4)
    if big:
        jobs = [m(V="{1,2,3}", MaxE=2, Steps=7, Dir="TRUE"), m(V="{1,2,3}", MaxE=2, Steps=7, Dir="FALSE"),
                m(V="{1,2}", MaxE=3, Steps=7, Dir="TRUE"), m(V="{1,2}", MaxE=3, Steps=6, Dir="FALSE")]
    else:
        jobs = [m(V="{1,2}", MaxE=2, Steps=6, Dir="TRUE"), m(V="{1,2}", MaxE=2, Steps=6, Dir="FALSE")]
    ctx.models_parallel(jobs, timeout=840)
    n = ctx.scale((1500, 250), (18000, 4000))
    ctx.conform("AtlasTrace", record, [random_case(ctx.rng, 12) for _ in range(n[0])] + [random_case(ctx.rng, 40) for _ in range(n[1])], "histories")
    ctx.assumptions.append("a graph is changed only while it is not reversed; each algorithm gets fresh property maps")
