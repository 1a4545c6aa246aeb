"""C16: determinization."""
import itertools
from . import autom
from .graphs import listing


def build_nfa(case):
    """case: n, tr [[q, r, a]] with a = -1 for the empty word, ini, fin, pool/labels, gaps, how, eps, seed."""
    import random
    from collections import defaultdict
    from pybgl.nfa import Nfa
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    rng = random.Random(case.get("seed", 0))
    labels = case["labels"] if "labels" in case else autom.POOLS[case.get("pool", 0)]
    n, gaps, how = case["n"], case.get("gaps", 0), case.get("how", 0)
    keep = autom.kept(rng, n, gaps)
    fins = {keep[q] for q in case["fin"]}
    kw = {}
    if how == 1:
        kw["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool, {q: True for q in fins}))
    elif how == 2:
        kw["pmap_vfinal"] = make_func_property_map(lambda q: q in fins)
    if case.get("eps"):
        kw["epsilon"] = case["eps"]
    ini = {keep[q] for q in case["ini"]}
    g = Nfa(n + gaps, set(ini), **kw) if ini and case["seed"] % 2 else Nfa(n + gaps, **kw)
    for u in range(n + gaps):
        if u not in keep:
            g.remove_vertex(u)
    if not (ini and case["seed"] % 2):
        g.set_initials(ini)
    if how == 0:
        for q in fins:
            g.set_final(q)
    for q, r, a in case["tr"]:
        g.add_edge(keep[q], keep[r], g.epsilon if a < 0 else labels[a])
    return g, labels


def encode_nfa(g, codes):
    ids = listing(g.vertices())
    num = {u: i + 1 for i, u in enumerate(ids)}
    sig = sorted((codes(a), a) for a in listing(g.alphabet())) if False else [(codes(a), a) for a in listing(g.alphabet())]
    out = []
    for u in ids:
        row = [[0, num[r]] for r in g.delta_one_step({u}, g.epsilon)]
        for c, a in sig:
            row += [[c, num[r]] for r in g.delta_one_step({u}, a)]
        out.append(sorted(row))
    return dict(out=out, ini=sorted(num[q] for q in ids if g.is_initial(q)), fin=[num[q] for q in ids if g.is_final(q)], ids=ids)


def record(case, t):
    from pybgl.automaton import Automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.moore_determination import moore_determination
    g, labels = build_nfa(case)
    codes = autom.Codes(labels)
    t.init = encode_nfa(g, codes)
    for i, c in enumerate((True, False)):
        given = 1
        k = (case["seed"] + i) % 3
        if k == 0:
            r = moore_determination(g, complete=c) if not c or case["seed"] % 2 else moore_determination(g)
        else:
            d = (Automaton if k == 1 else IncidenceAutomaton)()
            r = moore_determination(g, d, c)
            given = int(r is d)
        t.e("dfa", complete=int(c), m=autom.encode(r, codes), given=given, same=int(encode_nfa(g, codes) == t.init))


def decorate(rng, c):
    return dict(c, gaps=rng.choice([0, 0, 1, 3] * 3 + [125]), how=rng.randrange(3), pool=rng.randrange(4) if rng.random() < .5 else 0,
                eps=rng.choice([None, None, "EPS", "eps2"]), seed=rng.randrange(1 << 30))


def random_nfa(rng, max_n, max_l, max_m):
    n, L = rng.randrange(1, max_n + 1), rng.randrange(1, max_l + 1)
    pe = rng.choice([0, .2, .4])
    tr = set()
    for _ in range(rng.randrange(0, max_m + 1)):
        q, r = rng.randrange(n), rng.randrange(n)
        tr.add((q, r, -1 if rng.random() < pe else rng.randrange(L)))
    f = rng.choice([.1, .3, .6])
    ini = [q for q in range(n) if rng.random() < rng.choice([.1, .3])] or [0]
    if rng.random() < .03:
        ini = []
    return dict(n=n, tr=[list(x) for x in sorted(tr)], fin=[q for q in range(n) if rng.random() < f], ini=ini)


def reach(c):
    """How many subsets the subset construction meets (used to keep the inputs, and TLC's work, bounded)."""
    succ = {}
    for q, r, a in c["tr"]:
        succ.setdefault((q, a), set()).add(r)

    def close(qs):
        qs, todo = set(qs), list(qs)
        while todo:
            for r in succ.get((todo.pop(), -1), ()):
                if r not in qs:
                    qs.add(r)
                    todo.append(r)
        return frozenset(qs)
    seen = {close(c["ini"])}
    todo = list(seen)
    while todo and len(seen) < 100:
        s = todo.pop()
        for a in {a for _, _, a in c["tr"] if a >= 0}:
            t = close({r for q in s for r in succ.get((q, a), ())})
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return len(seen), max(map(len, seen))


def wide_nfa(rng):
    """An automaton whose subsets are large, and not too many."""
    while True:
        c = random_nfa(rng, 30, 3, 0)
        n = c["n"] = rng.randrange(12, 31)
        tr, L, pe = set(), rng.randrange(1, 4), rng.choice([0, .1, .3])
        for _ in range(rng.randrange(n, 5 * n)):
            tr.add((rng.randrange(n), rng.randrange(n), -1 if rng.random() < pe else rng.randrange(L)))
        c.update(tr=[list(x) for x in sorted(tr)], ini=sorted(rng.sample(range(n), rng.randrange(1, n))), fin=sorted(rng.sample(range(n), rng.randrange(0, 4))))
        k, m = reach(c)
        if k <= 60 and m >= 8:
            return c


def run(ctx):
    big = ctx.tier == "thorough"
    jobs = [dict(module="MooreModel", constants=dict(N=2, L="{1,2}", AnyIni="FALSE"), invariants=("BuiltOK", "WordsOK"), properties=("Ends",), workers=4),
            dict(module="MooreModel", constants=dict(N=2, L="{1}", AnyIni="TRUE"), invariants=("BuiltOK", "WordsOK"), properties=("Ends",), workers=3)]
    if big:
        jobs.append(dict(module="MooreModel", constants=dict(N=3, L="{1}", AnyIni="FALSE"), invariants=("BuiltOK", "WordsOK"), workers=4))
    ctx.models_parallel(jobs, timeout=840)
    rng, cases = ctx.rng, []
    slots = [(q, r, a) for q in range(2) for r in range(2) for a in (-1, 0, 1)]
    allsub = list(itertools.product((0, 1), repeat=len(slots)))
    for ch in allsub if big else rng.sample(allsub, 1200):
        for ini, fin in [([0], [1]), ([0, 1], [0])][: 2 if big else 1]:
            cases.append(decorate(rng, dict(n=2, tr=[list(s) for s, b in zip(slots, ch) if b], ini=ini, fin=fin)))
    ctx.exhaustive_notes.append("%s non-deterministic automata with 2 states, 2 letters and empty-word transitions" % ("all" if big else "1200 of the 4096"))
    ctx.conform("MooreTrace", record, cases, "small-automata")
    k = ctx.scale((900, 250), (12000, 4000))
    cases = [decorate(rng, random_nfa(rng, n, L, m)) for c, (n, L, m) in zip(k, ((5, 3, 12), (10, 3, 22))) for _ in range(c)]
    ctx.conform("MooreTrace", record, cases, "random-automata")
    cases = [decorate(rng, wide_nfa(rng)) for _ in range(ctx.scale(120, 1500))]
    ctx.conform("MooreTrace", record, cases, "wide-automata")
    cases = []
    for i in range(ctx.scale(4, 20)):       # chains far longer than the interpreter's recursion limit
        tr = [[q, q + 1, rng.choice([[-1], [0, 1], [-1, 0, 1]][i % 3])] for q in range(1099)]
        tr += [sorted(rng.sample(range(1100), 2)) + [rng.randrange(2)] for _ in range(i % 2)]
        cases.append(decorate(rng, dict(n=1100, tr=tr, ini=[0], fin=[1099, rng.randrange(1100)])))
    ctx.conform("MooreTrace", record, cases, "deep-automata", timeout=30)
