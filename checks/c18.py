"""C18: Hopcroft minimization."""
from . import autom
from .graphs import listing


def record(case, t):
    from pybgl.hopcroft_minimize import hopcroft_agglomerate_states, hopcroft_minimize
    g, labels, keep = autom.build(case)
    codes = autom.Codes(labels)
    t.init = autom.encode(g, codes)
    num = autom.renumber(g)
    t.e("blocks", r=[[num.get(q, -1) for q in b] for b in listing(hopcroft_agglomerate_states(g))])
    r = hopcroft_minimize(g)
    t.e("min", m=autom.encode(r, codes))
    t.e("input", m=autom.encode(g, codes))
    if case["seed"] % 3 == 0:
        t.e("min", m=autom.encode(hopcroft_minimize(r), codes))


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("Coarser", "DoneOK", "QuotientOK")
    jobs = [dict(module="HopcroftModel", constants=dict(N=3, L="{1,2}", OnlyComplete="TRUE", NeverBoth="FALSE"), invariants=inv if big else inv[1:], properties=("Ends",) if big else (), workers=5),
            dict(module="HopcroftModel", constants=dict(N=4 if big else 3, L="{1}", OnlyComplete="FALSE", NeverBoth="FALSE"), invariants=inv, properties=("Ends",), workers=3)]
    if big:
        jobs.append(dict(module="HopcroftModel", constants=dict(N=3, L="{1,2}", OnlyComplete="FALSE", NeverBoth="FALSE"), invariants=inv, workers=4))
        jobs.append(dict(module="HopcroftModel", constants=dict(N=5, L="{1}", OnlyComplete="TRUE", NeverBoth="FALSE"), invariants=inv, workers=4))
    ctx.models_parallel(jobs, timeout=840)
    rng, cases = ctx.rng, []
    alls = [autom.arrange(rng, autom.decorate(rng, dict(c, cls="I"))) for c in autom.all_dfas(2, 2)]
    three = list(autom.all_dfas(3, 1))
    cases = alls + [autom.decorate(rng, dict(c, cls="I")) for c in three]
    if not big:
        cases = rng.sample(cases, min(700, len(cases)))
    ctx.exhaustive_notes.append("%s the automata with 2 states and 2 letters or 3 states and 1 letter" % ("all" if big else "700 of"))
    ctx.conform("MinimizeTrace", record, cases, "small-automata")
    k = ctx.scale((700, 250), (9000, 4000))
    cases = []
    for c, (n, L) in zip(k, ((6, 3), (14, 3))):
        for _ in range(c):
            d = autom.random_dfa(rng, n, L)
            while rng.random() < .5:
                d = autom.mutate(rng, d)
            cases.append(autom.arrange(rng, autom.decorate(rng, dict(d, cls="I"))))
    for _ in range(ctx.scale(60, 800)):       # many letters
        d = autom.wide_dfa(rng, 8, complete=rng.random() < .5)
        cases.append(autom.arrange(rng, autom.decorate(rng, dict(autom.mutate(rng, d), cls="I"))))
    ctx.conform("MinimizeTrace", record, cases, "random-automata")
