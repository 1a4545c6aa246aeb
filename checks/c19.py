"""C19: Revuz minimization."""
from . import autom
from .graphs import listing


def record(case, t):
    from collections import defaultdict
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    from pybgl.revuz_minimize import DefaultRevuzMinimizeVisitor, revuz_height, revuz_minimize
    g, labels, keep = autom.build(case)
    codes = autom.Codes(labels)
    node = case["cls"] == "J"
    num = autom.renumber(g)
    nn = lambda q: num.get(q, -1)
    lab = {q: 0 for q in num}
    if node:
        lab = {q: codes(g.symbol(q)) for q in num}
    elif case["vlab"]:
        lab = {q: (case["seed"] >> i) % 2 for i, q in enumerate(num)}
    x = autom.encode(g, codes)
    t.init = dict(x, lab=[lab[q] for q in num])
    leaves = {q for q in num if g.out_degree(q) == 0}
    h = defaultdict(int)
    r = revuz_height(g, make_assoc_property_map(h)) if case["seed"] % 2 else revuz_height(g, make_assoc_property_map(h), leaves=set(leaves))
    t.e("height", of=[h.get(q, -1) for q in num], r=r)

    def tr(e):
        return [nn(g.source(e)), codes(g.label(e)) if not node else codes(g.symbol(g.target(e))), nn(g.target(e))]

    class Vis(DefaultRevuzMinimizeVisitor):
        def merging_states(self, q1, q2, g_):
            t.e("merging", p=nn(q1), q=nn(q2))

        def move_transition(self, e_old, e_new, g_):
            t.e("move", old=tr(e_old), new=tr(e_new))

        def remove_vertex(self, u, g_):
            t.e("remove", q=nn(u))

        def states_merged(self, q1, q2, g_):
            t.e("merged", p=nn(q1), q=nn(q2))
    kw = {}
    if not node and case["vlab"]:
        kw["pmap_vlabel"] = make_func_property_map(lambda q: lab[q])
    if case["seed"] % 3 == 0:
        kw["leaves"] = set(leaves)
    if not node and case["seed"] % 5 == 0:
        kw["pmap_elabel"] = make_func_property_map(g.label)
    r = revuz_minimize(g, vis=Vis(), **kw)
    ids = listing(g.vertices())
    t.e("end", m=autom.encode(g, codes), at=[nn(q) for q in ids], r=r,
        **{"in": [tr(e) for q in ids for e in listing(g.in_edges(q)) if g.target(e) == q]})
    g2 = autom.build(case)[0]
    k2 = {k: v for k, v in kw.items() if k != "pmap_elabel"}
    r = revuz_minimize(g2, **k2) if case["seed"] % 2 else revuz_minimize(g2, vis=None, **k2)
    t.e("quiet", m=autom.encode(g2, codes), r=r)


def words_case(rng):
    """A tree of words."""
    L = rng.randrange(1, 4)
    words = {tuple(rng.randrange(L) for _ in range(rng.randrange(0, 6))) for _ in range(rng.randrange(1, 9))}
    pre = sorted({w[:k] for w in words for k in range(len(w) + 1)}, key=lambda w: (len(w), w))
    at = {w: i for i, w in enumerate(pre)}
    return dict(n=len(pre), tr=[[at[w[:-1]], at[w], w[-1]] for w in pre if w], fin=[at[w] for w in pre if w in words], q0=0, last=[w[-1] if w else None for w in pre])


def random_case(rng, n, L):
    r = rng.random()
    if r < .35:
        c = words_case(rng)
        last = c.pop("last")
        if rng.random() < .5:
            c["sym"], c["cls"] = last, "J"
    elif r < .75:
        c = autom.random_dfa(rng, n, L, acyclic=True)
        c["q0"] = 0 if rng.random() < .7 else rng.randrange(c["n"])
    else:
        c = autom.random_node_dfa(rng, n, L, acyclic=True)
    c.setdefault("cls", "I")
    if c["cls"] == "N":
        c["cls"] = "J"
    return finish(rng, c)


def finish(rng, c):
    return autom.arrange(rng, autom.decorate(rng, dict(c, vlab=int(rng.random() < .15))))


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("WordsOK", "HeightsOK", "MinimalOK")
    mk = lambda n, l, k, w: dict(module="RevuzModel", constants=dict(N=n, L=l, NLab=k, MayDropInitial="FALSE"), invariants=inv, properties=("Ends",) if not big or w < 4 else (), workers=w)
    jobs = [mk(3, "{1,2}", 2, 4), mk(4, "{1}", 1, 3)]
    if big:
        jobs += [mk(4, "{1,2}", 1, 4), mk(5, "{1}", 1, 4)]
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    small = [finish(rng, dict(c, cls="I", q0=q)) for n, L in ((3, 2), (4, 1)) for c in autom.all_dfas(n, L) if all(r > q for q, r, a in c["tr"]) for q in (0, n - 1)]
    ctx.exhaustive_notes.append("%s the acyclic automata with 3 states and 2 letters or 4 states and 1 letter" % ("all" if big else "700 of"))
    if not big:
        small = rng.sample(small, 700)
    ctx.conform("RevuzTrace", record, small, "small-automata")
    k = ctx.scale((900, 300), (10000, 5000))
    cases = [random_case(rng, n, L) for c, (n, L) in zip(k, ((6, 2), (14, 3))) for _ in range(c)]
    ctx.conform("RevuzTrace", record, cases, "random-automata")
    cases = [finish(rng, dict(autom.wide_dfa(rng, 10, acyclic=True), cls="I")) for _ in range(ctx.scale(150, 2000))]
    ctx.conform("RevuzTrace", record, cases, "wide-automata")
