"""C08: breadth-first search."""
import itertools
from . import gen
from .graphs import enc_v


@gen.unchanged
def record(case, t):
    import random
    from collections import defaultdict
    from pybgl import breadth_first_search as _b
    import sys
    B = sys.modules["pybgl.breadth_first_search"]
    from pybgl.graph_traversal import bfs_tree, DefaultTreeTraversalVisitor, WHITE, GRAY, BLACK
    from pybgl.property_map import make_assoc_property_map
    b = gen.Built(case)
    g, enc = b.g, b.enc
    rng = random.Random(case["seed"])
    src = [b.id[i] for i in case["src"]]
    mode = case["mode"]
    refused = []
    if case.get("refuse"):
        for i in case["refuse"]:
            if i < len(b.es):
                s, d, k = b.es[i]
                both = [[s, d, k], [d, s, k]] if not b.dir else [[s, d, k]]
                refused += both if not case["oneway"] else [rng.choice(both)]
    # colours given beforehand (forgotten by the search from a single source)
    given = {b.id[i]: c for i, c in case.get("given", []) if mode == "graph" and i not in case["src"]}
    t.init = b.init(src=src, mode=mode, refused=refused, pre=[u for u, c in given.items() if c == BLACK], gray=[u for u, c in given.items() if c == GRAY])
    if mode == "tree":
        class T(DefaultTreeTraversalVisitor):
            def start_vertex(self, s, _): t.e("start", x=enc_v(s))
            def discover_vertex(self, u, _): t.e("disc", x=enc_v(u))
            def examine_edge(self, e, _): t.e("edge", x=enc(e))
            def finish_vertex(self, u, _): t.e("fin", x=enc_v(u))
        if case["seed"] % 3 == 0:
            bfs_tree(src[0], g)      # without visitor
        bfs_tree(src[0], g, vis=T())
        t.e("end", x=[])
        return

    class V(B.DefaultBreadthFirstSearchVisitor):
        def same(self, h):
            if h is not g:
                t.e("exc", what="visitor given another graph")

        def initialize_vertex(self, u, h):
            self.same(h)
            t.e("init", x=enc_v(u))

        def discover_vertex(self, u, h):
            self.same(h)
            self.vertex("disc", u, h)

        # c: the colour, at that time, of the vertex or of the target
        def vertex(self, k, u, h): t.e(k, x=enc_v(u), c=col[u] if "pmap_vcolor" in kw else -1)
        def edge(self, k, e, h): t.e(k, x=enc(e), c=col[h.target(e)] if "pmap_vcolor" in kw else -1)
        def examine_vertex(self, *a): self.vertex("exam", *a)
        def examine_edge(self, *a): self.edge("edge", *a)
        def tree_edge(self, *a): self.edge("tree", *a)
        def non_tree_edge(self, *a): self.edge("nontree", *a)
        def gray_target(self, *a): self.edge("gray", *a)
        def black_target(self, *a): self.edge("black", *a)
        def finish_vertex(self, *a): self.vertex("fin", *a)
    kw = {}
    col = defaultdict(int)
    if case["pmap"] or mode == "graph":
        if mode == "single":
            for u in b.id:
                col[u] = rng.choice([WHITE, GRAY, BLACK])     # forgotten by initialization
        kw["pmap_vcolor"] = make_assoc_property_map(col)
    if case.get("refuse") is not None:
        kw["if_push"] = lambda e, h: enc(e) not in refused
    if mode == "single":
        B.breadth_first_search(src[0], g, vis=V(), **kw)
    else:
        col.update(given)
        if case["pmap"] == 0 and not given:
            kw.pop("pmap_vcolor", None)
        s = [lambda: list(src), lambda: set(src), lambda: iter(src), lambda: tuple(src)][case["seed"] % 4]()
        if case.get("default"):
            B.breadth_first_search_graph(g, vis=V(), **kw)
        else:
            B.breadth_first_search_graph(g, s, vis=V(), **kw)
    t.e("end", x=[])
    if "pmap_vcolor" in kw:
        t.e("colours", black=[u for u in b.id if col[u] == BLACK], white=[u for u in b.id if col[u] == WHITE])
    if case["seed"] % 5 == 0:      # default visitor: same colours, no event
        c2 = defaultdict(int, given)
        if mode == "single":
            B.breadth_first_search(src[0], g, make_assoc_property_map(c2), **{k: v for k, v in kw.items() if k == "if_push"})
        else:
            B.breadth_first_search_graph(g, list(src), make_assoc_property_map(c2), **{k: v for k, v in kw.items() if k == "if_push"})
        t.e("colours", black=[u for u in b.id if c2[u] == BLACK], white=[u for u in b.id if c2[u] == WHITE])


def small(ctx):
    cases, i = [], 0
    for und in (False, True):
        for n in (1, 2, 3):
            for es in gen.all_graphs(n, undirected=und):
                for s in range(n):
                    cases.append(dict(kind="U" if und else "DIA"[i % 3], n=n, edges=es, src=[s], mode="single", pmap=i % 2, seed=i))
                    i += 1
    ctx.exhaustive_notes.append("every digraph and every undirected graph with at most 3 vertices (loops allowed), every source: %d searches" % len(cases))
    for es in gen.all_graphs(3, max_m=3):
        for k in (0, 2, 3):
            for src in itertools.combinations(range(3), k):
                cases.append(dict(kind="DIA"[i % 3], n=3, edges=es, src=list(src), mode="graph", pmap=i % 2, seed=i, given=[[i // 5 % 3, 1 + i // 2 % 2]] if i % 3 == 0 else []))
                i += 1
    return cases


def random_case(rng, max_n, max_m):
    c = gen.random_graph(rng, max_n, max_m)
    mode = rng.choice(["single", "graph", "graph"])
    n = c["n"]
    c.update(mode=mode, pmap=rng.randrange(2), seed=rng.randrange(1 << 30), oneway=rng.randrange(2),
             src=[rng.randrange(n)] if mode == "single" else rng.sample(range(n), rng.randrange(0, min(n, 4) + 1)))
    if mode == "graph" and rng.random() < .15:
        c.update(src=list(range(n)), default=1)
    if rng.random() < .4:
        c["refuse"] = [i for i in range(len(c["edges"])) if rng.random() < .3]
    if rng.random() < .25 and not c.get("default"):
        c["given"] = [[u, rng.choice([1, 2])] for u in rng.sample(range(n), min(n, 3))]
    return c


def tree_case(rng, max_n):
    n = rng.randrange(1, max_n + 1)
    es = [(rng.randrange(max(0, v - rng.choice([1, 3, 100])), v), v) for v in range(1, n)]
    p = list(range(n))
    rng.shuffle(p)
    es = [(p[u], p[v]) for u, v in es]
    rng.shuffle(es)
    return dict(kind=rng.choice("DIA"), n=n, edges=es, src=[p[0]], mode="tree", gaps=rng.choice([0, 2]), gseed=rng.randrange(1 << 30), seed=rng.randrange(1 << 30))


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("NotStuck", "AtEnd", "LevelOK", "TreeOK", "OneParent", "Monotone")
    ctx.models_parallel([
        dict(module="BfsModel", constants=dict(N=3, MaxE=3 if not big else 5, Loops="TRUE", Single="FALSE", Pre="TRUE" if not big else "FALSE"), invariants=inv, properties=("Terminates",) if not big else (), workers=4),
        dict(module="BfsModel", constants=dict(N=4, MaxE=3 if not big else 5, Loops="FALSE", Single="FALSE", Pre="FALSE"), invariants=inv, workers=4)])
    ctx.conform("BfsTrace", record, small(ctx), "small-graphs")
    n = ctx.scale((250, 60, 10), (4000, 900, 120))
    cases = [random_case(ctx.rng, 6, 14) for _ in range(n[0])] + [random_case(ctx.rng, 25, 60) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 150, 400) for _ in range(n[2])]
    cases += [tree_case(ctx.rng, ctx.rng.choice([4, 8, 30])) for _ in range(n[1])]
    ctx.conform("BfsTrace", record, cases, "random-graphs")
    cases = []
    for kind in ctx.rng.sample("DUIAVWR", 4):
        c, s = gen.deep_graph(ctx.rng, kinds=kind)
        cases.append(dict(c, src=[s], mode=ctx.rng.choice(["single", "graph"]), pmap=0, seed=ctx.rng.randrange(1 << 30)))
    es = [(v, v + 1) for v in range(1200)]
    cases.append(dict(kind="D", n=1201, edges=es, src=[0], mode="tree", seed=1))
    ctx.conform("BfsTrace", record, cases, "deep-graphs")
    ctx.assumptions.append("the push filter is a pure function of the edge; sources are distinct vertices of the graph; the tree variant is given a tree")
