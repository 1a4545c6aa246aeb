"""C09: depth-first search."""
import itertools
from . import gen
from .c08 import tree_case
from .graphs import enc_v


@gen.unchanged
def record(case, t):
    import random, sys
    from collections import defaultdict
    import pybgl
    D = sys.modules["pybgl.depth_first_search"]
    from pybgl.graph_traversal import dfs_tree, DefaultTreeTraversalVisitor, WHITE, GRAY, BLACK
    from pybgl.property_map import make_assoc_property_map
    b = gen.Built(case)
    g, enc = b.g, b.enc
    rng = random.Random(case["seed"])
    src = [b.id[i] for i in case["src"]]
    pre = [b.id[i] for i in case.get("pre", [])]
    gray = [b.id[i] for i in case.get("gray", []) if b.id[i] not in pre]
    mode = case["mode"]
    refused = []
    for i in case.get("refuse") or []:
        s, d, k = b.es[i]
        both = [[s, d, k], [d, s, k]] if not b.dir else [[s, d, k]]
        refused += both if not case["oneway"] else [rng.choice(both)]
    style = case["seed"] % 4
    t.init = b.init(src=src, mode=mode, refused=refused, pre=pre, gray=gray, ordered=not (case.get("default") or style == 1))
    if mode == "tree":
        class T(DefaultTreeTraversalVisitor):
            def start_vertex(self, s, _): t.e("start", x=enc_v(s))
            def discover_vertex(self, u, _): t.e("disc", x=enc_v(u))
            def examine_edge(self, e, _): t.e("edge", x=enc(e))
            def finish_vertex(self, u, _): t.e("fin", x=enc_v(u))
        if case["seed"] % 3 == 0:
            dfs_tree(src[0], g)      # without visitor
        dfs_tree(src[0], g, vis=T())
        t.e("end", x=[])
        return

    class V(D.DefaultDepthFirstSearchVisitor):
        def start_vertex(self, u, h):
            if h is not g:
                t.e("exc", what="visitor given another graph")
            t.e("start", x=enc_v(u))

        # c: the colour, at that time, of the vertex or of the target
        def vertex(self, k, u, h): t.e(k, x=enc_v(u), c=self.col[u] if self.seen else -1)
        def edge(self, k, e, h): t.e(k, x=enc(e), c=self.col[h.target(e)] if self.seen else -1)
        def discover_vertex(self, *a): self.vertex("disc", *a)
        def examine_edge(self, *a): self.edge("edge", *a)
        def tree_edge(self, *a): self.edge("tree", *a)
        def back_edge(self, *a): self.edge("back", *a)
        def forward_or_cross_edge(self, *a): self.edge("foc", *a)
        def finish_vertex(self, *a): self.vertex("fin", *a)

    def run(vis):
        kw = {} if vis is None else dict(vis=vis)
        col = defaultdict(int)
        if vis is not None:
            vis.col, vis.seen = col, bool(case["pmap"] or pre or gray)
        for u in pre:
            col[u] = BLACK
        for u in gray:
            col[u] = GRAY
        if case["pmap"] or pre or gray or vis is None:
            kw["pmap_vcolor"] = make_assoc_property_map(col)
        if case.get("refuse") is not None:
            kw["if_push"] = lambda e, h: enc(e) not in refused
        if mode == "single":
            D.depth_first_search(src[0], g, **kw)
        elif case.get("default"):
            D.depth_first_search_graph(g, **kw)
        else:
            s = [lambda: list(src), lambda: set(src), lambda: iter(src), lambda: tuple(src)][style]()
            D.depth_first_search_graph(g, s, **kw)
        if vis is not None:
            t.e("end", x=[])
        if "pmap_vcolor" in kw:
            t.e("colours", black=[u for u in b.id if col[u] == BLACK], white=[u for u in b.id if col[u] == WHITE])
    run(V())
    if case["seed"] % 5 == 0:
        run(None)


def small(ctx):
    cases, i = [], 0
    for und in (False, True):
        for n in (1, 2, 3):
            for es in gen.all_graphs(n, undirected=und):
                for s in range(n):
                    cases.append(dict(kind="U" if und else "DIA"[i % 3], n=n, edges=es, src=[s], mode="single", pmap=i % 2, seed=i))
                    i += 1
                cases.append(dict(kind="U" if und else "DIA"[i % 3], n=n, edges=es, src=list(range(n)), mode="graph", pmap=i % 2, seed=i, default=1))
                i += 1
    ctx.exhaustive_notes.append("every digraph and every undirected graph with at most 3 vertices (loops allowed), every source and all sources: %d searches" % len(cases))
    for es in gen.all_graphs(3, max_m=3):
        for k in (0, 2, 3):
            for src in itertools.permutations(range(3), k):
                if i % 2 or k == 0:
                    cases.append(dict(kind="DIA"[i % 3], n=3, edges=es, src=list(src), mode="graph", pmap=i % 2, seed=i, pre=[i % 3] if i % 7 == 0 else [], gray=[i // 3 % 3] if i % 7 in (0, 4) else []))
                i += 1
    return cases


def random_case(rng, max_n, max_m):
    c = gen.random_graph(rng, max_n, max_m)
    mode = rng.choice(["single", "graph", "graph"])
    n = c["n"]
    c.update(mode=mode, pmap=rng.randrange(2), seed=rng.randrange(1 << 30), oneway=rng.randrange(2),
             src=[rng.randrange(n)] if mode == "single" else rng.sample(range(n), rng.randrange(0, min(n, 4) + 1)))
    if mode == "graph" and rng.random() < .3:
        c.update(src=list(range(n)), default=1)
    if rng.random() < .3:
        c["refuse"] = [i for i in range(len(c["edges"])) if rng.random() < .3]
    if rng.random() < .25:
        given = [u for u in rng.sample(range(n), min(n, 3)) if mode == "graph" or u not in c["src"]]
        k = rng.randrange(len(given) + 1)
        c.update(pre=given[:k], gray=given[k:])
    return c


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("NotStuck", "AtEnd", "StackOK", "OneParent", "BlackOK", "CycleOK", "BackOK")
    ctx.models_parallel([
        dict(module="DfsModel", constants=dict(N=3, MaxE=3 if not big else 5, Loops="TRUE", Pre="TRUE" if not big else "FALSE"), invariants=inv, properties=("Terminates",) if not big else (), workers=4),
        dict(module="DfsModel", constants=dict(N=4, MaxE=3 if not big else 5, Loops="FALSE", Pre="FALSE"), invariants=inv, workers=4)])
    ctx.conform("DfsTrace", record, small(ctx), "small-graphs")
    n = ctx.scale((250, 60, 10), (4000, 900, 120))
    cases = [random_case(ctx.rng, 6, 14) for _ in range(n[0])] + [random_case(ctx.rng, 25, 60) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 150, 400) for _ in range(n[2])]
    cases += [tree_case(ctx.rng, ctx.rng.choice([4, 8, 30])) for _ in range(n[1])]
    ctx.conform("DfsTrace", record, cases, "random-graphs")
    cases = []
    for kind in ctx.rng.sample("DUIAVWR", 4):
        c, s = gen.deep_graph(ctx.rng, kinds=kind)
        cases.append(dict(c, src=[s], mode=ctx.rng.choice(["single", "graph"]), pmap=0, seed=ctx.rng.randrange(1 << 30)))
    ctx.conform("DfsTrace", record, cases, "deep-graphs")
    ctx.assumptions.append("the push filter is a pure function of the edge; the tree variant is given a tree")
