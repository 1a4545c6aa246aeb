"""C20: pruning."""
import random
from . import autom
from .graphs import listing


def record(case, t):
    from pybgl.prune_incidence_automaton import find_reachable_vertices, prune_incidence_automaton
    g, labels, keep = autom.build(case)
    codes = autom.Codes(labels)
    rng = random.Random(case["seed"])
    num = autom.renumber(g)
    nn = lambda q: num.get(q, -1)
    t.init = autom.encode(g, codes)
    for _ in range(2):
        src = set(rng.sample(list(num), rng.randrange(0, min(3, len(num)) + 1)))
        t.e("reach", **{"from": [nn(q) for q in src]}, r=[nn(q) for q in listing(find_reachable_vertices(g, src))])
    tr = lambda e: [nn(g.source(e)), codes(g.label(e)), nn(g.target(e))]
    for _ in range(rng.choice([1, 1, 2])):
        prune_incidence_automaton(g)
        ids = listing(g.vertices())
        t.e("prune", at=[nn(q) for q in ids], n=g.num_vertices(),
            out=[tr(e) for q in ids for e in listing(g.out_edges(q)) if g.source(e) == q],
            all=[tr(e) for e in listing(g.edges())],
            fin=[nn(q) for q in ids if g.is_final(q)], ini=nn(g.initial()),
            **{"in": [tr(e) for q in ids for e in listing(g.in_edges(q)) if g.target(e) == q]})
    if nn(g.initial()) != -1 and g.initial() in ids:
        for _ in range(4):
            w = [rng.choice(labels[:3]) for _ in range(rng.randrange(0, 5))]
            t.e("accepts", w=[codes(a) for a in w], r=t.bits(g.accepts(w)))
    u = g.add_vertex()
    v = ids[0] if ids else u
    (e, new) = g.add_edge(u, v, labels[0])
    num[u] = 1000
    t.e("later", out=[tr(e) for e in listing(g.out_edges(u))], want=[[1000, codes(labels[0]), nn(v)]],
        **{"in": [tr(e) for e in listing(g.in_edges(v)) if g.source(e) == u]})


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("NeverTooMuch", "WordsOK", "DoneOK")
    jobs = [dict(module="PruneModel", constants=dict(N=2, L="{1,2}"), invariants=inv, properties=("Ends",), workers=3),
            dict(module="PruneModel", constants=dict(N=3, L="{1}"), invariants=inv, properties=("Ends",), workers=4)]
    if big:
        jobs.append(dict(module="PruneModel", constants=dict(N=4, L="{1}"), invariants=inv, workers=4))
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    small = [autom.arrange(rng, autom.decorate(rng, dict(c, cls="I"))) for n, L in ((2, 2), (3, 1)) for c in autom.all_dfas(n, L)]
    ctx.exhaustive_notes.append("%s the automata with 2 states and 2 letters or 3 states and 1 letter" % ("all" if big else "800 of"))
    if not big:
        small = rng.sample(small, 800)
    ctx.conform("PruneTrace", record, small, "small-automata")
    k = ctx.scale((900, 300), (10000, 5000))
    cases = []
    for c, (n, L) in zip(k, ((6, 3), (14, 3))):
        for _ in range(c):
            d = autom.random_dfa(rng, n, L, pfin=rng.choice([0, .1, .2, .3, .6]))
            if rng.random() < .4:
                d = autom.mutate(rng, d)
            if rng.random() < .03:
                d = dict(d, q0=None)          # no initial state: nothing is useful
            cases.append(autom.arrange(rng, autom.decorate(rng, dict(d, cls="I"))))
    for _ in range(ctx.scale(60, 800)):       # many letters
        cases.append(autom.arrange(rng, autom.decorate(rng, dict(autom.wide_dfa(rng, 10, acyclic=rng.random() < .5), cls="I"))))
    ctx.conform("PruneTrace", record, cases, "random-automata")
    ctx.conform("PruneTrace", record, [autom.arrange(rng, autom.decorate(rng, dict(autom.deep_dfa(rng), cls="I"))) for _ in range(4)], "deep-automata")
