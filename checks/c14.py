"""C14: union and intersection of deterministic automata."""
from . import autom


def pair(case):
    g1, l1, _ = autom.build(case["m1"])
    g2 = g1 if case.get("same") else autom.build(case["m2"])[0]
    return g1, g2, autom.Codes(l1)


def record(case, t):
    from pybgl.automaton import Automaton
    from pybgl.deterministic_intersection import DeterministicIntersectionVisitor, deterministic_intersection
    from pybgl.deterministic_union import DeterministicUnionVisitor, deterministic_union
    g1, g2, codes = pair(case)
    t.init = dict(m1=autom.encode(g1, codes), m2=autom.encode(g2, codes))
    for i, (kind, fn) in enumerate((("or", deterministic_union), ("and", deterministic_intersection))):
        given = 1
        if (case["k"] + i) % 2:
            d = Automaton()
            r = fn(g1, g2, d) if case["k"] % 3 else fn(g1, g2, g12=d)
            given = int(r is d)
        else:
            r = fn(g1, g2)
        t.e("prod", kind=kind, m=autom.encode(r, codes), given=given, after1=autom.encode(g1, codes), after2=autom.encode(g2, codes))
        if case["k"] % 4 == 0:      # with the visitor that builds the product at hand: the pair behind each state
            d = Automaton()
            vis = (DeterministicUnionVisitor if kind == "or" else DeterministicIntersectionVisitor)(d)
            r = fn(g1, g2, d, vis) if case["k"] % 8 else fn(g1, g2, g12=d, vis=vis)
            n1, n2, n = autom.renumber(g1), autom.renumber(g2), autom.renumber(d)
            known = [[n1.get(q1, 0), n2.get(q2, 0), n.get(vis.get_product_vertex(q1, q2), -1)]
                     for q1 in [*n1, None] for q2 in [*n2, None] if vis.get_product_vertex(q1, q2) is not None]
            t.e("map", kind=kind, m=autom.encode(d, codes), known=known, given=int(r is d))


def exhaustive_pairs(ctx, n_pairs):
    rng = ctx.rng
    pool = list(autom.all_dfas(1, 2)) + list(autom.all_dfas(2, 2)) + list(autom.all_dfas(3, 1))
    small = list(autom.all_dfas(1, 1)) + list(autom.all_dfas(2, 1)) + list(autom.all_dfas(1, 2))
    cases = []
    for m1 in small:
        for m2 in small:
            cases.append((m1, m2))
    for _ in range(n_pairs):
        cases.append((rng.choice(pool), rng.choice(pool)))
    ctx.exhaustive_notes.append("every pair of partial deterministic automata of at most 2 states over 1 letter or 1 state over 2 letters, and %d pairs among all those of 2 states over 2 letters and 3 states over 1 letter" % n_pairs)
    return cases


def mk(rng, m1, m2, i):
    words = "words" in m1 or "words" in m2
    pool = rng.randrange(2 if words else 4)
    a, b = (dict(m if "words" in m else autom.arrange(rng, autom.decorate(rng, m)), pool=pool) for m in (m1, m2))
    if rng.random() < .04:      # no initial state
        x = rng.choice([a, b])
        if x.get("cls", "A") in "AI":
            x["q0"] = None
    return dict(m1=a, m2=b, k=i, same=rng.random() < .03)


def cases_small(ctx, n):
    return [mk(ctx.rng, a, b, i) for i, (a, b) in enumerate(exhaustive_pairs(ctx, n))]


def cases_random(ctx, counts):
    rng, cases = ctx.rng, []
    for c, (n, L) in zip(counts, ((5, 3), (12, 4))):
        for i in range(c):
            x = rng.random()
            if n > 5 and i % 4 == 0:        # many letters
                m1 = autom.wide_dfa(rng, 5)
                m2 = autom.mutate(rng, m1) if x < .7 else autom.wide_dfa(rng, 5)
                cases.append(mk(rng, m1, m2, i))
                continue
            if x < .2:
                m1 = autom.random_node_dfa(rng, n, L)
                m2 = autom.random_node_dfa(rng, n, L) if rng.random() < .7 else autom.random_dfa(rng, n, L)
            elif x < .35:       # tries, suffix tries, sequences
                m1 = autom.random_words(rng, n, L)
                m2 = autom.random_words(rng, n, L) if rng.random() < .6 else autom.random_dfa(rng, n, L)
                if rng.random() < .3:
                    m1, m2 = m2, m1
            else:
                m1 = autom.random_dfa(rng, n, L)
                m2 = autom.mutate(rng, m1) if x < .7 else autom.random_dfa(rng, n, L)
                if rng.random() < .3:
                    m1, m2 = m2, m1
            cases.append(mk(rng, m1, m2, i))
    return cases


def cases_deep(ctx, count):
    """Chains far longer than the interpreter's recursion limit; often nearly the same chain."""
    rng, cases = ctx.rng, []
    for i in range(count):
        m1 = autom.deep_dfa(rng)
        m2 = dict(m1) if i % 2 else autom.deep_dfa(rng)
        for _ in range(rng.randrange(3)):
            m2 = autom.mutate(rng, m2)
        cases.append(dict(mk(rng, m1, m2, i), same=False))
    return cases


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("UnionOK", "InterOK", "NotStuck")
    ctx.models_parallel([
        dict(module="ParallelModel", constants=dict(N1=1, N2=2, L="{1,2}", Inis="{1}"), invariants=inv, properties=("Terminates",), workers=4),
        dict(module="ParallelModel", constants=dict(N1=2, N2=2, L="{1}", Inis="{0,1}"), invariants=inv, properties=("Terminates",), workers=4)]
        + ([dict(module="ParallelModel", constants=dict(N1=3, N2=3, L="{1}", Inis="{1}"), invariants=inv, workers=4)] if big else []), timeout=840)
    ctx.conform("ProductTrace", record, cases_small(ctx, ctx.scale(1500, 30000)), "small-automata")
    ctx.conform("ProductTrace", record, cases_random(ctx, ctx.scale((1200, 300), (20000, 6000))), "random-automata")
    ctx.conform("ProductTrace", record, cases_deep(ctx, 4), "deep-automata")
    ctx.assumptions.append("symbols are distinguished by equality; labels that are equal but of different types are not mixed")
