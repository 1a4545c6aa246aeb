"""C29: parallel breadth-first search."""
from . import autom
from .c14 import cases_deep, cases_random, cases_small, pair


def record(case, t):
    import random
    from collections import defaultdict
    from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search
    from pybgl.property_map import make_assoc_property_map
    g1, g2, codes = pair(case)
    m1, m2 = autom.encode(g1, codes), autom.encode(g2, codes)
    n1, n2 = autom.renumber(g1), autom.renumber(g2)
    rng = random.Random(case["k"] * 7 + 1)
    qs1, qs2 = sorted(n1) + [None], sorted(n2) + [None]
    if case["k"] % 3 == 0:
        srcs, kw = [(g1.initial(), g2.initial())], {}
    else:
        srcs = []
        for _ in range(rng.randrange(1, 4)):
            p = (rng.choice(qs1), rng.choice(qs2))
            if p not in srcs and p != (None, None):
                srcs.append(p)
        srcs = srcs or [(g1.initial(), g2.initial())]
        kw = dict(source_pairs=srcs if case["k"] % 2 else iter(srcs))
    refused = set()
    if case["k"] % 4 >= 2:
        for q1 in qs1:
            for q2 in qs2:
                for a in (g1.sigma(q1) if q1 is not None else set()) | (g2.sigma(q2) if q2 is not None else set()):
                    if rng.random() < .3:
                        refused.add((q1, q2, codes(a)))

    def st(n, q):
        return 0 if q is None else n.get(q, 99)

    def pr(q1, q2):
        return [st(n1, q1), st(n2, q2)]

    def mv(n, e):
        return [] if e is None else [st(n, e.source), codes(e.distinguisher), st(n, e.target)]
    t.init = dict(m1=m1, m2=m2, srcs=[pr(*p) for p in srcs], refused=[pr(*x[:2]) + [x[2]] for x in sorted(refused, key=repr)])

    class Vis(ParallelBreadthFirstSearchVisitor):
        def v(self, op, q1, h1, q2, h2, a=None):
            t.e(op, x=pr(q1, q2), a=codes(a) if a is not None else 0, e1=[], e2=[], ok=int(h1 is g1 and h2 is g2), c=col[q1, q2] if given and op != "start" else -1)

        def m(self, op, e1, h1, e2, h2, a):
            t.e(op, x=[], a=codes(a), e1=mv(n1, e1), e2=mv(n2, e2), ok=int(h1 is g1 and h2 is g2),
                c=col[tuple(None if e is None else e.target for e in (e1, e2))] if given else -1)

        def start_vertex(self, *a): self.v("start", *a)
        def examine_vertex(self, *a): self.v("exam", *a)
        def discover_vertex(self, *a): self.v("disc", *a)
        def finish_vertex(self, *a): self.v("fin", *a)
        def examine_symbol(self, q1, h1, q2, h2, a): self.v("sym", q1, h1, q2, h2, a)
        def examine_edge(self, *a): self.m("edge", *a)
        def tree_edge(self, *a): self.m("tree", *a)
        def gray_target(self, *a): self.m("gray", *a)
        def black_target(self, *a): self.m("black", *a)
    col = defaultdict(int)
    given = case["k"] % 5 < 2
    if given:
        kw["pmap_vcolor"] = make_assoc_property_map(col)
    if refused:
        def if_push(e1, h1, e2, h2):
            q1, q2 = e1.source if e1 is not None else None, e2.source if e2 is not None else None
            return (q1, q2, codes((e1 if e1 is not None else e2).distinguisher)) not in refused
        kw["if_push"] = if_push
    quiet = not case["k"] % 7      # once without a visitor, before: the colors are all there is to see
    if quiet:
        c2 = defaultdict(int)
        k2 = dict(kw, pmap_vcolor=make_assoc_property_map(c2))
        if "source_pairs" in k2:
            k2["source_pairs"] = list(srcs)
        parallel_breadth_first_search(g1, g2, **k2)
    r = parallel_breadth_first_search(g1, g2, vis=Vis(), **kw)
    t.e("end", col=[[pr(*p), c] for p, c in col.items() if c] if given else [])
    if quiet:
        t.e("quiet", col=[[pr(*p), c] for p, c in c2.items() if c])
    t.e("after", same=int(r is None and m1 == autom.encode(g1, codes) and m2 == autom.encode(g2, codes)))


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("PairsOK", "LevelOK", "NotStuck")
    ctx.models_parallel([
        dict(module="ParallelModel", constants=dict(N1=1, N2=2, L="{1,2}", Inis="{1}"), invariants=inv, properties=("Terminates",), workers=4),
        dict(module="ParallelModel", constants=dict(N1=2, N2=2, L="{1}", Inis="{0,1}") if not big else dict(N1=3, N2=3, L="{1}", Inis="{1}"), invariants=inv, workers=4)], timeout=840)
    ctx.conform("ParallelTrace", record, cases_small(ctx, ctx.scale(700, 12000)), "small-automata")
    ctx.conform("ParallelTrace", record, cases_random(ctx, ctx.scale((500, 120), (8000, 2000))), "random-automata")
    if big:
        ctx.conform("ParallelTrace", record, cases_deep(ctx, 4), "deep-automata")
    ctx.assumptions.append("start pairs are distinct; a refused pair is never expanded and stays gray")
