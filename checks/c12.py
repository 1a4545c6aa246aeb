"""C12: topological sort."""
from . import gen
from .c11 import small
from .graphs import enc_v, listing


@gen.unchanged
def record(case, t):
    from collections import deque
    from pybgl.topological_sort import topological_sort
    b = gen.Built(case)
    t.init = b.init()
    how = case["gseed"] % 4
    given = None if how == 0 else deque() if how < 3 else deque(["kept"])
    try:
        r = topological_sort(b.g) if given is None else topological_sort(b.g, given) if how == 1 else topological_sort(b.g, stack=given)
    except Exception:
        t.e("refused")
        return
    same = 1
    if given is not None:
        same = int(r is given)
        r = given
    r = listing(r)
    if how == 3:
        same = int(same and r and r[-1] == "kept")
        r = r[:-1]
    t.e("topo", r=[enc_v(u) for u in r], same=same)


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.model("TarjanModel", dict(N=4, MaxE=4 if not big else 6, Loops="FALSE"), invariants=("TopoOK",), workers=8)
    ctx.conform("ComponentsTrace", record, small(ctx), "small-graphs")
    n = ctx.scale((500, 300, 60), (8000, 4000, 600))
    cases = []
    for k, (nv, m) in enumerate(((8, 16), (25, 50), (120, 250))):
        for _ in range(n[k]):
            c = gen.random_graph(ctx.rng, nv, m, "DIAVR", style="dag" if ctx.rng.random() < .8 else None)
            if ctx.rng.random() < .25 and c["edges"]:      # one arc that may close a cycle
                c["edges"].append((ctx.rng.randrange(c["n"]), ctx.rng.randrange(c["n"])))
            cases.append(c)
    cases += [dict(kind="D", n=0, edges=[], gseed=i) for i in range(4)]
    ctx.conform("ComponentsTrace", record, cases, "random-graphs")
    cases = [gen.deep_graph(ctx.rng, kinds=kind, cyclic=kind in 'DR')[0] for kind in "DIAVR"]
    ctx.conform("ComponentsTrace", record, cases, "deep-graphs")
    ctx.assumptions.append("directed graphs; refusing is raising any exception")
