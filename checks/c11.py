"""C11: strong components."""
from . import gen
from .graphs import num


@gen.unchanged
def record(case, t):
    from collections import defaultdict
    from pybgl.strong_components import strong_components
    from pybgl.property_map import make_assoc_property_map
    b = gen.Built(case)
    t.init = b.init()
    for d in (defaultdict(int), defaultdict(lambda: 3)) if case["gseed"] % 2 else (defaultdict(lambda: None),):
        n = strong_components(b.g, make_assoc_property_map(d))
        t.e("scc", n=num(n), r=[[u, num(d[u]) if u in d else -99] for u in b.id])


def small(ctx, loops=True):
    cases, i = [], 0
    for n in (1, 2, 3):
        for es in gen.all_graphs(n, loops=loops):
            cases.append(dict(kind="DIA"[i % 3], n=n, edges=es, gseed=i))
            i += 1
    allg = list(gen.all_graphs(4, loops=False, max_m=None if ctx.tier == "thorough" else 5))
    if ctx.tier != "thorough":
        allg += ctx.rng.sample([e for e in gen.all_graphs(4, loops=False) if len(e) > 5], 500)
    for es in allg:
        es = list(es)
        ctx.rng.shuffle(es)
        cases.append(dict(kind="DIA"[i % 3], n=4, edges=es, gseed=i))
        i += 1
    ctx.exhaustive_notes.append("every digraph on at most 3 vertices (with loops), %s on 4 vertices without loops: %d graphs" %
                                ("every digraph" if ctx.tier == "thorough" else "every digraph of at most 5 arcs and 500 others", len(cases)))
    return cases


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="TarjanModel", constants=dict(N=3, MaxE=9, Loops="TRUE") if big else dict(N=3, MaxE=4, Loops="TRUE"), invariants=("SccOK", "TopoOK", "DefsAgree"), workers=4),
        dict(module="TarjanModel", constants=dict(N=4, MaxE=4 if not big else 6, Loops="FALSE"), invariants=("SccOK", "TopoOK"), workers=4)])
    ctx.conform("ComponentsTrace", record, small(ctx), "small-graphs")
    n = ctx.scale((500, 300, 60), (8000, 4000, 600))
    cases = [gen.random_graph(ctx.rng, 8, 20, "DIAVR") for _ in range(n[0])] + [gen.random_graph(ctx.rng, 25, 60, "DIAVR") for _ in range(n[1])]
    cases += [gen.random_graph(ctx.rng, 100, 250, "DIAVR") for _ in range(n[2])]
    cases.append(dict(kind="D", n=0, edges=[], gseed=0))
    ctx.conform("ComponentsTrace", record, cases, "random-graphs")
    cases = [gen.deep_graph(ctx.rng, kinds=kind, cyclic=True)[0] for kind in "DIAVR"]
    ctx.conform("ComponentsTrace", record, cases, "deep-graphs")
