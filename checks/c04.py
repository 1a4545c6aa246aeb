"""C04: deterministic automata (Dfa)."""
import contextlib, io
import json
from vlib.walks import read_transitions, covering_walks
from .graphs import enc_v, listing, num, boolean

# symbols as users use them: characters, falsy values, strings, numbers, tuples, None
LABELS = ["a", "b", "", "ab", 0, 7, ("x", 1), "é", None]
LABELS_NODE = ["a", "b", "ab", 0, 7, ("x", 1), "é", ""]


def key(x):
    return (type(x).__name__, x)


def lab(x):
    return tuple(x) if isinstance(x, list) else x


def record(case, t):
    import random
    from collections import defaultdict
    import pybgl.automaton as A
    import pybgl.graph as G
    import pybgl.node_automaton as NA
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    from pybgl.property_map import make_assoc_property_map
    kind, cls, n = case["kind"], case["cls"], case["n"]
    labels = [lab(x) for x in case["labels"]]
    code = {key(x): i for i, x in enumerate(labels)}

    def lc(x):
        try:
            return code.get(key(x), -7)
        except TypeError:
            return -8

    def st(q):
        return -1 if q is None else enc_v(q)
    C = dict(edge=(A.Automaton, IncidenceAutomaton), node=(NA.NodeAutomaton, IncidenceNodeAutomaton))[kind][cls]
    q0, fin = case["q0"], case["fin"]
    args = {}
    if case["how"] == 0 and q0 == 0 and not fin:
        g = C(n) if n else C()
    else:
        if fin or case["how"] == 1:
            args["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool, {q: True for q in fin}))
        g = C(n, q0, **args) if case["how"] == 1 else C(num_vertices=n, q0=q0, **args)
    t.init = dict(kind=kind, n=n, q0=q0, fin=fin)
    if kind == "node":      # states made by the constructor have no symbol: code 0 stands for None
        assert labels[0] is None
    api = case["api"]
    cnt = [0]
    rng = random.Random(case["seed"])

    def fn(name, *a):
        cnt[0] += 1
        if api == 0 or (api == 2 and cnt[0] % 2):
            return getattr(g, name)(*a)
        mod = NA if kind == "node" and name in ("symbol", "edge", "add_edge") else A if hasattr(A, name) else G
        return getattr(mod, name)(*a, g)

    def enc(e):
        return [enc_v(fn("source", e)), enc_v(fn("target", e)), lc(e.distinguisher)]
    live = list(range(n))
    edge_of = {}
    initial = [q0]

    def word(k):
        return [rng.randrange(len(labels)) for _ in range(k)]

    def real(w):
        w = [labels[i] for i in w]
        return "".join(w) if all(type(x) is str and len(x) == 1 for x in w) else w

    long = [0]

    def good_word():
        """follow the code's own transitions now and then, so that long words are read"""
        q, w = initial[0], []
        for _ in range(rng.randrange(1, 8) + long[0]):
            if q is None or q not in live:
                break
            s = listing(g.sigma(q))
            if not s:
                break
            a = rng.choice(sorted(s, key=repr))
            w.append(lc(a))
            q = g.delta(q, a)
        if rng.random() < .3:
            w.append(rng.randrange(len(labels)))
        return w

    def full():
        qs = [dict(op="vertices", r=[enc_v(v) for v in listing(fn("vertices"))]),
              dict(op="num_vertices", r=num(fn("num_vertices"))),
              dict(op="edges", r=[enc(e) for e in listing(fn("edges"))]),
              dict(op="num_edges", r=num(fn("num_edges"))),
              dict(op="alphabet", r=[lc(a) for a in listing(fn("alphabet"))]),
              dict(op="finals", r=[enc_v(q) for q in listing(fn("finals"))]),
              dict(op="initial", r=st(fn("initial"))),
              dict(op="is_complete", r=boolean(fn("is_complete"))),
              dict(op="is_det", r=boolean(fn("is_deterministic"))),
              dict(op="is_det", r=boolean(fn("is_finite")))]
        us = live if len(live) <= 6 else rng.sample(live, 6)
        for u in us:
            qs.append(dict(op="out_edges", u=u, r=[enc(e) for e in listing(fn("out_edges", u))]))
            qs.append(dict(op="out_degree", u=u, r=num(fn("out_degree", u))))
            qs.append(dict(op="sigma", u=u, r=[lc(a) for a in listing(fn("sigma", u))]))
            qs.append(dict(op="is_initial", u=u, r=boolean(fn("is_initial", u))))
            qs.append(dict(op="is_final", u=u, r=boolean(fn("is_final", u))))
            for i, a in enumerate(labels):
                qs.append(dict(op="delta", u=u, a=i, r=st(fn("delta", u, a))))
            if kind == "node":
                qs.append(dict(op="symbol", u=u, r=lc(fn("symbol", u))))
        qs.append(dict(op="sigma", u=-1, r=[lc(a) for a in listing(fn("sigma", None))]))
        qs.append(dict(op="delta", u=-1, a=0, r=st(fn("delta", None, labels[0]))))
        for _ in range(4):
            if not live:
                break
            u, v = rng.choice(live), rng.choice(live)
            if kind == "edge":
                a = rng.randrange(len(labels))
                if rng.random() < .5 and edge_of:
                    e = rng.choice(list(edge_of.values()))
                    u, v, a = e.source, e.target, max(0, lc(e.distinguisher))
                    if rng.random() < .3:
                        v = rng.choice(live)
                e, found = fn("edge", u, v, labels[a])
                qs.append(dict(op="edge", u=u, v=v, a=a, found=boolean(found), e=enc(e) if e is not None else [-9, -9, -9]))
            else:
                e, found = fn("edge", u, v)
                qs.append(dict(op="nedge", u=u, v=v, found=boolean(found), e=enc(e) if e is not None else [-9, -9, -9]))
        for e in list(edge_of.values())[:6]:
            qs.append(dict(op="label", e=enc(e), r=lc(fn("label", e))))
        if initial[0] is None or initial[0] in live:
            for w in ([], word(2), word(rng.randrange(1, 6)), good_word(), good_word()):
                qs.append(dict(op="accepts", w=w, r=boolean(fn("accepts", real(w)))))
            if api == 2:
                with contextlib.redirect_stdout(io.StringIO()):
                    qs.append(dict(op="accepts", w=w, r=boolean(A.accepts_debug(real(w), g))))
            if initial[0] is not None:
                for w in ([], word(2), good_word()):
                    if api == 0:
                        r = g.delta_best_effort(real(w))
                    else:
                        r = A.delta_best_effort(g, real(w))
                    qs.append(dict(op="best_effort", w=w, r=[st(r[0]), num(r[1])]))
        for w in ([], word(2), good_word()):
            u = rng.choice(live) if live else None
            qs.append(dict(op="delta_word", u=st(u), w=w, r=st(fn("delta_word", u, real(w)))))
        t.ev.append(dict(op="all", qs=qs))

    every = case["every"]
    full()
    for i, op in enumerate(case["ops"]):
        k = op[0]
        if k == "av":
            u = (NA.add_vertex(labels[op[1]], g) if api else g.add_vertex(labels[op[1]])) if kind == "node" else fn("add_vertex")
            t.e("add_vertex", u=enc_v(u), a=op[1])
            live.append(u)
        elif k == "ae":
            q, r, a, name = op[1:]
            e, added = fn("add_edge", q, r, labels[a]) if kind == "edge" else fn("add_edge", q, r)
            t.e("add_edge", u=q, v=r, a=a, added=boolean(added), e=enc(e) if e is not None else [-9, -9, -9])
            if added:
                edge_of[name] = e
        elif k == "re":
            e = edge_of.pop(op[1])
            x = enc(e)
            fn("remove_edge", e)
            t.e("remove_edge", e=x)
        elif k == "rv":
            fn("remove_vertex", op[1])
            live.remove(op[1])
            edge_of = {x: e for x, e in edge_of.items() if e.source != op[1] and e.target != op[1]}
            t.e("remove_vertex", u=op[1])
        elif k == "si":
            b = bool(op[2])
            if api == 1:
                A.set_initial(op[1], g, b) if not b or i % 2 else A.set_initial(op[1], g)
            else:
                g.set_initial(op[1], b) if not b or i % 2 else g.set_initial(op[1])
            if b:
                initial[0] = op[1]
            elif initial[0] == op[1]:
                initial[0] = None
            t.e("set_initial", u=op[1], b=b)
        elif k == "sf":
            b = bool(op[2])
            if api == 1:
                A.set_final(op[1], g, b) if not b or i % 2 else A.set_final(op[1], g)
            else:
                g.set_final(op[1], b) if not b or i % 2 else g.set_final(op[1])
            t.e("set_final", u=op[1], b=b)
        elif k == "ins":
            w = real(op[1])
            before = set(g.vertices())
            if api == 1:
                A.automaton_insert_string(g, w)
            else:
                g.automaton_insert_string(w)
            live.extend(sorted(v for v in g.vertices() if v not in before))
            t.e("insert", w=op[1])
        if i % every == every - 1:
            full()
    if case["seed"] % 25 == 0:
        long[0] = 1100      # longer than the interpreter's recursion limit, where there are cycles
    full()


def record_made(case, t):
    """make_automaton & co. from named transitions."""
    from collections import defaultdict
    import pybgl.automaton as A
    import pybgl.node_automaton as NA
    from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    names = [lab(x) for x in case["names"]]
    labels = [lab(x) for x in case["labels"]]
    code = {key(x): i for i, x in enumerate(labels)}
    kind = case["kind"]
    fin = [names[i - 1] for i in case["fin"]]
    if case["fmap"] == 0:
        pf = make_assoc_property_map(defaultdict(bool, {x: True for x in fin}))
    elif case["fmap"] == 1:
        pf = make_func_property_map(lambda x: x in fin)
    else:
        pf = None
        fin = []
    kw = {}
    if case["names"] and not (type(names[case["q0n"] - 1]) is int and names[case["q0n"] - 1] == 0 and len(case["ts"]) % 3):      # 0 by default
        kw["q0n"] = names[case["q0n"] - 1]
    if pf is not None:
        kw["pmap_vfinal"] = pf
    if kind == "edge":
        ts = [(names[q - 1], names[r - 1], labels[a]) for q, a, r in case["ts"]]
        if case["cls"] == 0:
            g = A.make_automaton(ts, **kw)
        elif case["cls"] == 1:
            g = make_incidence_automaton(ts, **kw)
        else:
            g = A.make_automaton(ts, Constructor=IncidenceAutomaton, **kw)
    else:
        ts = [(names[q - 1], names[r - 1]) for q, a, r in case["ts"]]
        sy = make_assoc_property_map(defaultdict(lambda: None, {x: labels[case["symn"][i]] for i, x in enumerate(names)}))
        if case["cls"] == 0:
            g = NA.make_node_automaton(ts, sy, **kw)
        elif case["cls"] == 1:
            g = make_incidence_node_automaton(ts, pmap_vlabel=sy, **kw)
        else:
            g = NA.make_node_automaton(ts, pmap_vlabel=sy, Constructor=IncidenceNodeAutomaton, **kw)
    lc = lambda x: code.get(key(x), -7)
    t.init = dict(kind=kind, n=0, q0=0, fin=[])
    vs = [enc_v(v) for v in listing(g.vertices())]
    t.e("made", n=len(names), ts=case["ts"], q0n=case["q0n"], fin=case["fin"] if pf is not None else [], vertices=vs,
        edges=[[enc_v(e.source), lc(g.label(e)), enc_v(e.target)] for e in listing(g.edges())],
        q0=-1 if g.initial() is None else enc_v(g.initial()), finals=[enc_v(q) for q in listing(g.finals())],
        symn=case["symn"], syms=[lc(g.symbol(v)) for v in sorted(vs)] if kind == "node" else [])


def flagged(x):
    return 1 if x is True else 0 if x is False else x


def walk_cases(ctx, kind, max_id, L, n0, flags, label):
    consts = dict(Kind='"%s"' % kind, MaxId=max_id, L="{%s}" % ",".join(map(str, L)), N0=n0, Flags="TRUE" if flags else "FALSE", MaxW=2)
    r = ctx.model("DfaModel", consts, view="AbsView", action_constraint="Emit", workers=1, invariants=("TypeOK",))
    tr = read_transitions(r)
    init = json.dumps([list(range(n0)), n0, [], 0, [], [[i, 0] for i in range(n0)]])
    walks = covering_walks(tr, init, 50, ctx.rng)
    cases = []
    for i, w in enumerate(walks):
        ops, names, cnt = [], {}, 0
        nlab = max(L) + 1
        labs = [None] + ctx.rng.sample(LABELS_NODE, nlab - 1) if kind == "node" else ctx.rng.sample(LABELS, nlab)
        for a in w:
            if a[0] == "ae":
                q, r_, k = a[1:]
                if not any(x[0] == q and x[1] == k for x in names):
                    names[(q, k, r_)] = cnt
                ops.append(["ae", q, r_, k, cnt])
                cnt += 1
            elif a[0] == "re":
                q, k, r_ = a[1:]
                nm = names.pop((q, k, r_))
                ops.append(["re", nm])
            elif a[0] == "rv":
                names = {x: c for x, c in names.items() if a[1] not in (x[0], x[2])}
                ops.append(["rv", a[1]])
            elif a[0] == "ins":
                break       # names of inserted transitions are not tracked: end the history here
            else:
                ops.append([flagged(x) for x in a])
        if a[0] == "ins":
            ops.append(["ins", a[1]])
        cases.append(dict(kind=kind, cls=i % 2, n=n0, q0=0, fin=[], how=0, ops=ops, labels=labs, api=i % 3, every=1, seed=i))
    ctx.exhaustive_notes.append("%s: %d transitions replayed in %d histories" % (label, len(tr), len(walks)))
    return cases


def random_case(rng, kind, n_ops, max_v, nlab, every):
    node = kind == "node"
    labs = [None] + rng.sample(LABELS_NODE, nlab - 1) if node else rng.sample(LABELS, nlab)
    n0 = rng.randrange(0, min(5, max_v))
    how = rng.randrange(3)
    q0 = 0 if how == 0 or not n0 else rng.randrange(n0)
    fin = [] if how == 0 else [q for q in range(n0) if rng.random() < .4]
    live, nxt, tr, sym, ops, cnt, init = list(range(n0)), n0, {}, {q: 0 for q in range(n0)}, [], 0, q0
    delta = {}      # (q, a) -> name, or None if the history does not name it
    while len(ops) < n_ops:
        x = rng.random()
        if x < .12 and len(live) < max_v or not live:
            a = rng.randrange(nlab) if node else 0
            ops.append(["av", a])
            sym[nxt] = a
            live.append(nxt)
            nxt += 1
        elif x < .18:
            cand = [u for u in live if u != init]
            if cand:
                u = rng.choice(cand)
                live.remove(u)
                delta = {k: v for k, v in delta.items() if k[0] != u and v[1] != u}
                ops.append(["rv", u])
        elif x < .32 and any(v[0] is not None for v in delta.values()):
            k = rng.choice(sorted(k for k, v in delta.items() if v[0] is not None))
            ops.append(["re", delta.pop(k)[0]])
        elif x < .40:
            q, b = rng.choice(live), int(rng.random() < .8)
            ops.append(["si", q, b])
            init = q if b else (None if init == q else init)
        elif x < .52:
            ops.append(["sf", rng.choice(live), int(rng.random() < .7)])
        elif x < .56 and not node and init in live and nxt < max_v * 4:
            w = [rng.randrange(nlab) for _ in range(rng.randrange(0, 5))]
            ops.append(["ins", w])
            q = init
            for a in w:
                if (q, a) not in delta:
                    delta[(q, a)] = (None, nxt)
                    live.append(nxt)
                    nxt += 1
                q = delta[(q, a)][1]
        else:
            q, r = rng.choice(live), rng.choice(live)
            if rng.random() < .25:
                r = live[0]
            a = sym[r] if node else rng.randrange(nlab)
            if (q, a) not in delta:
                delta[(q, a)] = (cnt, r)
            ops.append(["ae", q, r, a, cnt])
            cnt += 1
    return dict(kind=kind, cls=rng.randrange(2), n=n0, q0=q0, fin=fin, how=how, ops=ops, labels=labs, api=rng.randrange(3),
                every=every, seed=rng.randrange(1 << 30))


def made_case(rng, kind):
    n = rng.choice([0, 1, 2, 3, 4, 5])
    pool = rng.choice([["root", "sink", "q", "", "zz", "a b", "10", "9"], list(range(8)), [-3, 5, 100, 42, 7, 0, 11], [["x", 1], ["x", 0], ["y", 3], ["", 2], ["z", 9]]])
    names = rng.sample(pool, min(n, len(pool)))
    n = len(names)
    nlab = 3
    labs = [None] + rng.sample(LABELS_NODE, nlab - 1) if kind == "node" else rng.sample(LABELS, nlab)
    ts = []
    symn = [rng.randrange(nlab) for _ in range(n)]
    if n:
        # every name must occur in some transition
        for i in range(1, n + 1):
            j = rng.randrange(1, n + 1)
            q, r = (i, j) if rng.random() < .5 else (j, i)
            ts.append([q, symn[r - 1] if kind == "node" else rng.randrange(nlab), r])
        for _ in range(rng.randrange(0, 5)):
            q, r = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
            ts.append([q, symn[r - 1] if kind == "node" else rng.randrange(nlab), r])
        rng.shuffle(ts)
    q0n = rng.randrange(1, n + 1) if n else 0
    if type(pool[0]) is int and 0 in names and rng.random() < .6:
        q0n = names.index(0) + 1        # the default
    return dict(kind=kind, cls=rng.randrange(3), names=names, labels=labs, ts=ts, q0n=q0n,
                fin=[i for i in range(1, n + 1) if rng.random() < .4], fmap=rng.randrange(3), symn=symn)


def made_large(rng, kind):
    """More names, every one of which is met by some word from the initial one."""
    n, nlab = rng.randrange(8, 25), rng.choice([2, 3, 5])
    names = rng.sample([["s%d" % i for i in range(40)], list(range(40)), [["x", i] for i in range(40)], list(range(90, 140))][rng.randrange(4)], n)
    labs = [None] + rng.sample(LABELS_NODE, min(nlab, len(LABELS_NODE)) - 1) if kind == "node" else rng.sample(LABELS, min(nlab, len(LABELS)))
    nlab = len(labs)
    ts, used, symn = [], set(), [0] * n
    for i in range(2, n + 1):
        j, a = rng.choice([(j, a) for j in range(1, i) for a in range(nlab) if (j, a) not in used])
        used.add((j, a))
        symn[i - 1] = a
        ts.append([j, a, i])
    for _ in range(rng.randrange(0, 2 * n)):
        q, r = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
        a = symn[r - 1] if kind == "node" else rng.randrange(nlab)
        if (q, a) not in used:
            used.add((q, a))
            ts.append([q, a, r])
    q0n = 1
    if type(names[0]) is int and 0 in names and rng.random() < .6:      # the default initial state
        i = names.index(0)
        names[0], names[i] = names[i], names[0]
    rng.shuffle(ts)
    for t in rng.sample(ts, min(len(ts), 3)):       # refused afterwards
        r = rng.randrange(1, n + 1)
        if kind == "edge" or symn[r - 1] == t[1]:
            ts.append([t[0], t[1], r])
    return dict(kind=kind, cls=rng.randrange(3), names=names, labels=labs, ts=ts, q0n=q0n,
                fin=[i for i in range(1, n + 1) if rng.random() < .4], fmap=rng.choice([0, 1, 0, 1, 2]), symn=symn)


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("TypeOK", "DetOK", "NodeOK", "RunOK")
    pr = ("RefuseOK", "InsertOK")
    ctx.models_parallel([
        dict(module="DfaModel", constants=dict(Kind='"edge"', MaxId=2 if not big else 3, L="{0,1}", N0=0, Flags="TRUE" if not big else "FALSE", MaxW=3), invariants=inv, properties=pr, workers=3),
        dict(module="DfaModel", constants=dict(Kind='"node"', MaxId=2 if not big else 3, L="{0,1}", N0=0, Flags="TRUE", MaxW=3), invariants=inv, properties=pr, workers=3)])
    cases = walk_cases(ctx, "edge", 2, [0, 1], 0, False, "edge-labelled, 2 states, 2 symbols")
    cases += walk_cases(ctx, "edge", 2, [0], 0, True, "edge-labelled, 2 states, 1 symbol, flags")
    cases += walk_cases(ctx, "node", 2, [0, 1], 0, False, "node-labelled, 2 states, 2 symbols")
    if big:
        cases += walk_cases(ctx, "edge", 3, [0], 0, True, "edge-labelled, 3 states, flags")
    ctx.conform("DfaTrace", record, cases, "model-histories")
    n = ctx.scale((70, 25, 6), (1200, 400, 100))
    cases = []
    for kind in ("edge", "node"):
        cases += [random_case(ctx.rng, kind, 40, 5, ctx.rng.choice([1, 2, 3]), 1) for _ in range(n[0])]
        cases += [random_case(ctx.rng, kind, 120, 12, 4, 6) for _ in range(n[1])]
        cases += [random_case(ctx.rng, kind, 400, 50, 6, 40) for _ in range(n[2])]
    ctx.conform("DfaTrace", record, cases, "random-histories")
    cases = [made_case(ctx.rng, k) for k in ("edge", "node") for _ in range(ctx.scale(150, 2500))]
    cases += [made_large(ctx.rng, k) for k in ("edge", "node") for _ in range(ctx.scale(40, 500))]
    ctx.conform("DfaTrace", record_made, cases, "made-from-transitions")
    ctx.assumptions.append("the initial state is not removed without naming another one; clear is outside (stale flags)")
