"""C05: non-deterministic automata (Nfa)."""
import json
from vlib.walks import read_transitions, covering_walks
from .graphs import enc_v, listing, num, boolean

LABELS = ["a", "b", "ab", 0, 7, ("x", 1), "é", ""]
EPSILONS = ["ε", "", "eps", 0, "*", "a"]


def key(x):
    return (type(x).__name__, x)


def lab(x):
    return tuple(x) if isinstance(x, list) else x


def record(case, t):
    import random
    from collections import defaultdict
    import pybgl.nfa as N
    import pybgl.automaton as A
    import pybgl.graph as G
    from pybgl.property_map import make_assoc_property_map
    labels = [lab(x) for x in case["labels"]]      # labels[0] is the empty-word symbol
    code = {key(x): i for i, x in enumerate(labels)}
    lc = lambda x: code.get(key(x), -7)
    n, ini, fin = case["n"], case["ini"], case["fin"]
    kw = {}
    if labels[0] != "ε" or case["how"] == 2:
        kw["epsilon"] = labels[0]
    if ini != [0] or case["how"]:
        kw["initials"] = set(ini)
    if fin or case["how"]:
        kw["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool, {q: True for q in fin}))
    g = N.Nfa(n, **kw)
    t.init = dict(n=n, ini=ini, fin=fin)
    api, cnt, rng = case["api"], [0], random.Random(case["seed"])

    def fn(name, *a):
        cnt[0] += 1
        if api == 0 or (api == 2 and cnt[0] % 2):
            return getattr(g, name)(*a)
        mod = N if name in ("delta_word", "is_epsilon_transition", "set_initials") else A if hasattr(A, name) else G
        return getattr(mod, name)(*a, g)

    def enc(e):
        return [enc_v(fn("source", e)), enc_v(fn("target", e)), lc(fn("label", e))]
    live = list(range(n))
    edge_of = {}

    def word(k):
        return [rng.randrange(1, len(labels)) for _ in range(k)] if len(labels) > 1 else []

    def real(w):
        w = [labels[i] for i in w]
        return "".join(w) if all(type(x) is str and len(x) == 1 for x in w) else w

    def states(it):
        return [enc_v(q) for q in listing(it)]

    def full():
        es = listing(fn("edges"))
        qs = [dict(op="vertices", r=states(fn("vertices"))), dict(op="num_vertices", r=num(fn("num_vertices"))),
              dict(op="edges", r=[enc(e) for e in es]), dict(op="num_edges", r=num(fn("num_edges"))),
              dict(op="alphabet", r=[lc(a) for a in listing(fn("alphabet"))]),
              dict(op="initials", r=states(N.initials(g))), dict(op="finals", r=states(fn("finals"))),
              dict(op="epsilon", r=lc(N.epsilon(g)))]
        for e in es[:3]:
            qs.append(dict(op="is_eps", e=enc(e), r=boolean(fn("is_epsilon_transition", e))))
        us = live if len(live) <= 5 else rng.sample(live, 5)
        for u in us:
            qs.append(dict(op="out_edges", u=u, r=[enc(e) for e in listing(fn("out_edges", u))]))
            qs.append(dict(op="out_degree", u=u, r=num(fn("out_degree", u))))
            qs.append(dict(op="is_initial", u=u, r=boolean(fn("is_initial", u))))
            qs.append(dict(op="is_final", u=u, r=boolean(fn("is_final", u))))
            qs.append(dict(op="sigma", u=u, r=[lc(a) for a in listing(fn("sigma", u))]))
            qs.append(dict(op="closure", qs=[u], r=states(g.delta_epsilon({u}))))
            for i, a in list(enumerate(labels))[1:]:
                qs.append(dict(op="delta", u=u, a=i, r=states(fn("delta", u, a))))
        for _ in range(2):
            q = rng.sample(live, rng.randrange(len(live) + 1))
            qs.append(dict(op="closure", qs=q, r=states(g.delta_epsilon(set(q)))))
            a = rng.randrange(len(labels))
            qs.append(dict(op="one_step", qs=q, a=a, r=states(g.delta_one_step(set(q), labels[a]))))
        for k in [0, 1, 2, 3, 5] + case.get("long", []):
            w = word(k)
            qs.append(dict(op="delta_word", w=w, r=states(fn("delta_word", real(w)))))
            qs.append(dict(op="accepts", w=w, r=boolean(fn("accepts", real(w)))))
        t.ev.append(dict(op="all", qs=qs))
    every = case["every"]
    full()
    for i, op in enumerate(case["ops"]):
        k = op[0]
        if k == "av":
            u = fn("add_vertex")
            live.append(u)
            t.e("add_vertex", u=enc_v(u))
        elif k == "ae":
            q, a, r = op[1:]
            e, added = fn("add_edge", q, r, labels[a])
            edge_of[(q, a, r)] = e
            t.e("add_edge", u=q, v=r, a=a, added=boolean(added), e=enc(e))
        elif k == "re":
            q, a, r = op[1:]
            e = edge_of.pop((q, a, r))
            if rng.random() < .5:   # the descriptor listed by the automaton instead of the one returned at insertion
                e = next((x for x in g.out_edges(q) if g.target(x) == r and lc(g.label(x)) == a), e)
            x = enc(e)
            fn("remove_edge", e)
            t.e("remove_edge", e=x)
        elif k == "rv":
            u = op[1]
            fn("remove_vertex", u)
            live.remove(u)
            edge_of = {x: e for x, e in edge_of.items() if u not in (x[0], x[2])}
            t.e("remove_vertex", u=u)
        elif k in ("si", "sf"):
            b = bool(op[2])
            name = "set_initial" if k == "si" else "set_final"
            f = (lambda *a: getattr(A, name)(a[0], g, *a[1:])) if api == 1 else getattr(g, name)
            f(op[1]) if b and i % 2 else f(op[1], b)
            t.e(name, u=op[1], b=b)
        elif k == "sis":
            given = set(op[1])
            fn("set_initials", given)
            if i % 2:
                given.clear()        # the caller's own
            t.e("set_initials", qs=op[1])
        if i % every == every - 1:
            full()
    full()
    if "initials" in kw:
        t.e("given", r=states(kw["initials"]))


def walk_cases(ctx, consts, label):
    r = ctx.model("NfaModel", consts, view="AbsView", action_constraint="Emit", workers=1, invariants=("TypeOK",))
    tr = read_transitions(r)
    n0 = int(consts["N0"])
    init = json.dumps([list(range(n0)), n0, [], [0] if n0 else [], []])
    walks = covering_walks(tr, init, 50, ctx.rng)
    nl = consts["L"].count(",") + 1
    cases = []
    for i, w in enumerate(walks):
        ops = [[(1 if x is True else 0 if x is False else x) for x in a] for a in w]
        if n0 == 0:
            ops = [["sis", []]] + ops
        cases.append(dict(n=n0, ini=[0], fin=[], how=0, ops=ops, labels=pick_labels(ctx.rng, nl), api=i % 3, every=1, seed=i))
    ctx.exhaustive_notes.append("%s: %d transitions replayed in %d histories" % (label, len(tr), len(walks)))
    return cases


def pick_labels(rng, n):
    eps = "ε" if rng.random() < .5 else rng.choice(EPSILONS)
    return [eps] + rng.sample([x for x in LABELS if x != eps], n - 1)


def random_case(rng, n_ops, max_v, nlab, every, p_eps):
    labs = pick_labels(rng, nlab + 1)
    n0 = rng.randrange(1, min(5, max_v) + 1)
    how = rng.randrange(3)
    ini = [0] if how == 0 else sorted(rng.sample(range(n0), rng.randrange(1, n0 + 1)))
    fin = [] if how == 0 else [q for q in range(n0) if rng.random() < .4]
    live, nxt, tr, ops, cur = list(range(n0)), n0, set(), [], set(ini)
    while len(ops) < n_ops:
        x = rng.random()
        if x < .10 and len(live) < max_v or not live:
            ops.append(["av"])
            live.append(nxt)
            nxt += 1
        elif x < .15:
            cand = [u for u in live if u not in cur]
            if cand:
                u = rng.choice(cand)
                live.remove(u)
                tr = {t for t in tr if u not in (t[0], t[2])}
                ops.append(["rv", u])
        elif x < .30 and tr:
            t = rng.choice(sorted(tr))
            tr.discard(t)
            ops.append(["re"] + list(t))
        elif x < .36:
            q, b = rng.choice(live), int(rng.random() < .7)
            (cur.add if b else cur.discard)(q)
            ops.append(["si", q, b])
        elif x < .38:
            cur = set(rng.sample(live, rng.randrange(0, min(3, len(live)) + 1)))
            ops.append(["sis", sorted(cur)])
        elif x < .48:
            ops.append(["sf", rng.choice(live), int(rng.random() < .6)])
        else:
            q, r = rng.choice(live), rng.choice(live)
            if rng.random() < .2:
                r = live[0]
            a = 0 if rng.random() < p_eps else rng.randrange(1, nlab + 1)
            tr.add((q, a, r))
            ops.append(["ae", q, a, r])
    return dict(n=n0, ini=ini, fin=fin, how=how, ops=ops, labels=labs, api=rng.randrange(3), every=every, seed=rng.randrange(1 << 30))


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="NfaModel", constants=dict(MaxId=2, L="{0,1}", N0=0, MaxTr=3 if not big else 5, Flags="TRUE", MaxW=1 if not big else 2, Bound=3 if not big else 5), view="AbsView",
             invariants=("TypeOK", "ClosureOK", "RunOK", "DeltaOK", "SigmaOK"), workers=4),
        dict(module="NfaModel", constants=dict(MaxId=3, L="{0,1,2}", N0=3, MaxTr=3 if not big else 4, Flags="FALSE", MaxW=2, Bound=3), view="AbsView",
             invariants=("TypeOK", "ClosureOK", "DeltaOK", "SigmaOK"), workers=4)])
    cases = walk_cases(ctx, dict(MaxId=2, L="{0,1}", N0=0, MaxTr=2, Flags="TRUE", MaxW=1, Bound=1), "2 states with flags")
    cases += walk_cases(ctx, dict(MaxId=3, L="{0,1}", N0=3, MaxTr=3 if not big else 4, Flags="FALSE", MaxW=1, Bound=1), "3 states")
    ctx.conform("NfaTrace", record, cases, "model-histories")
    n = ctx.scale((150, 50, 12), (2500, 900, 200))
    cases = [random_case(ctx.rng, 40, 5, ctx.rng.choice([1, 2, 3]), 1, .4) for _ in range(n[0])]
    cases += [random_case(ctx.rng, 120, 12, 4, 6, .35) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 400, 40, 5, 40, .3) for _ in range(n[2])]
    ctx.conform("NfaTrace", record, cases, "random-histories")
    cases = []
    for i in range(ctx.scale(3, 20)):       # chains far longer than the interpreter's recursion limit
        k = [1, 3, 1500][i % 3]
        ops = [["ae", q, 1 if q % k == 0 else 0, q + 1] for q in range(1100)]
        ctx.rng.shuffle(ops)
        cases.append(dict(n=1101, ini=[0], fin=[1100, 700], how=1, ops=ops, labels=pick_labels(ctx.rng, 2), api=i % 3, every=5000, long=[1100, 1100 // k, 700 // k + 1], seed=i))
    ctx.conform("NfaTrace", record, cases, "deep-automata", timeout=30)
    ctx.assumptions.append("an initial state is not removed; inserting a transition that is present already has no effect on the language (listed once)")
