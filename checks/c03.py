"""C03: incoming and outgoing listings mirror each other (Incidence)."""
import json
from vlib.walks import read_transitions, covering_walks
from .graphs import enc_v, listing, num, boolean, Keys

LABELS = ["a", "b", "", "ab", 0, 7, ("x", 1), "é"]


def record(case, t):
    """case: kind (plain/edge/node), n, ops, api, every"""
    import pybgl.graph as G
    from pybgl.reverse import reverse_graph
    kind, n = case["kind"], case["n"]
    labels = [tuple(x) if isinstance(x, list) else x for x in case["labels"]]
    code = {(type(x).__name__, x): i for i, x in enumerate(labels)}
    if kind == "plain":
        from pybgl.incidence_graph import IncidenceGraph
        g = IncidenceGraph(n) if n else IncidenceGraph()
        keys = Keys()
    elif kind == "edge":
        from pybgl.incidence_automaton import IncidenceAutomaton
        g = IncidenceAutomaton(n) if n else IncidenceAutomaton()
        keys = lambda k: code.get((type(k).__name__, k), -1)
    else:
        from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
        g = IncidenceNodeAutomaton()
        keys = lambda k: code.get((type(k).__name__, k), -1)
        assert n == 0
    t.init = dict(kind=kind, n=n)
    free = case["api"]
    cnt = [0]

    def fn(name, *args):
        cnt[0] += 1
        if free == 0 or (free == 2 and cnt[0] % 2):
            return getattr(g, name)(*args)
        return getattr(G, name)(*args, g)

    def enc(e):
        return [enc_v(fn("source", e)), enc_v(fn("target", e)), keys(e.distinguisher)]
    live = list(range(n))
    edge_of = {}

    def full():
        qs = [dict(op="vertices", r=[enc_v(v) for v in listing(fn("vertices"))]),
              dict(op="num_vertices", r=num(fn("num_vertices"))),
              dict(op="edges", r=[enc(e) for e in listing(fn("edges"))]),
              dict(op="num_edges", r=num(fn("num_edges")))]
        for u in live:
            qs.append(dict(op="out_edges", u=u, r=[enc(e) for e in listing(fn("out_edges", u))]))
            qs.append(dict(op="in_edges", u=u, r=[enc(e) for e in listing(fn("in_edges", u))]))
            qs.append(dict(op="out_degree", u=u, r=num(fn("out_degree", u))))
            qs.append(dict(op="in_degree", u=u, r=num(fn("in_degree", u))))
        t.ev.append(dict(op="all", qs=qs))
    every = case["every"]
    rev = False
    for i, op in enumerate(case["ops"]):
        k = op[0]
        if k == "av":
            u = g.add_vertex(labels[op[1]]) if kind == "node" else fn("add_vertex")
            t.e("add_vertex", u=enc_v(u), a=op[1])
            live.append(u)
        elif k == "ae":
            q, r, a, name = op[1:]
            e, added = g.add_edge(q, r, labels[a]) if kind == "edge" else g.add_edge(q, r)
            t.e("add_edge", u=q, v=r, a=a, added=boolean(added), e=enc(e) if e is not None else [0, 0, -2])
            if added:
                edge_of[name] = e
        elif k == "re":
            e = edge_of.pop(op[1])
            enc_e = enc(e)
            fn("remove_edge", e)
            t.e("remove_edge", e=enc_e)
        elif k == "rv":
            fn("remove_vertex", op[1])
            live.remove(op[1])
            edge_of = {x: e for x, e in edge_of.items() if e.source != op[1] and e.target != op[1]}
            t.e("remove_vertex", u=op[1])
        elif k == "clear":
            g.clear()
            live.clear()
            edge_of.clear()
            t.e("clear")
        elif k == "reverse":
            reverse_graph(g)
            t.e("reverse")
        if i % every == every - 1:
            full()
    full()


def walk_cases(ctx, kind, max_id, max_edges, nsym, n0, label):
    consts = dict(Kind='"%s"' % kind, MaxId=max_id, MaxEdges=max_edges, Syms="{%s}" % ",".join(map(str, range(nsym))), N0=n0)
    r = ctx.model("IncidenceModel", consts, view="AbsView", action_constraint="Emit", workers=1,
                  invariants=("TypeOK", "MirrorOK", "DetOK", "NodeOK", "ReverseInvolution"))
    tr = read_transitions(r)
    init = json.dumps([list(range(n0)), n0, [], [[i, 0] for i in range(n0)], False])
    walks = covering_walks(tr, init, 40, ctx.rng)
    cases = []
    for i, w in enumerate(walks):
        ops, names, cnt = [], {}, 0
        labs = ctx.rng.sample(LABELS, nsym)
        present = {}
        for a in w:
            if a[0] == "ae":
                q, r_, k = a[1:]
                if kind == "plain" or (q, k) not in {(x[0], x[2]) for x in names}:
                    names[(q, r_, k)] = cnt
                ops.append(["ae", q, r_, k, cnt])
                cnt += 1
            elif a[0] == "re":
                ops.append(["re", names.pop(tuple(a[1:]))])
            elif a[0] == "rv":
                names = {x: c for x, c in names.items() if a[1] not in x[:2]}
                ops.append(["rv", a[1]])
            else:
                if a[0] == "clear":
                    names = {}
                ops.append(list(a))
        cases.append(dict(kind=kind, n=n0, ops=ops, labels=labs, api=i % 3, every=1))
    ctx.exhaustive_notes.append("%s: %d transitions replayed in %d histories" % (label, len(tr), len(walks)))
    return cases


def random_case(rng, kind, n0, n_ops, max_v, max_e, nsym, every, p_remove):
    labs = rng.sample(LABELS, nsym)
    live, nxt, edges, ops, cnt = list(range(n0)), n0, {}, [], 0
    sym = {}
    rev = False
    while len(ops) < n_ops:
        x = rng.random()
        if rev:
            if x < .5:
                ops.append(["reverse"])
                rev = False
            else:
                ops.append(["noop"])
            continue
        if x < .06:
            ops.append(["reverse"])
            rev = True
        elif x < .07:
            ops.append(["clear"])
            live, nxt, edges, sym = [], 0, {}, {}
        elif x < .07 + p_remove * .3 and live:
            u = rng.choice(live)
            live.remove(u)
            edges = {k: e for k, e in edges.items() if u not in e[:2]}
            ops.append(["rv", u])
        elif x < .07 + p_remove and edges:
            k = rng.choice(sorted(edges))
            del edges[k]
            ops.append(["re", k])
        elif x < .07 + p_remove + .15 and len(live) < max_v or not live:
            a = rng.randrange(nsym)
            ops.append(["av", a])
            sym[nxt] = a
            live.append(nxt)
            nxt += 1
        elif len(edges) < max_e:
            if edges and rng.random() < .3:
                u, v = edges[rng.choice(sorted(edges))][:2]
                if rng.random() < .4:
                    u, v = v, u
            else:
                u, v = rng.choice(live), rng.choice(live)
                if rng.random() < .2:
                    v = live[0]
            a = rng.randrange(nsym) if kind != "node" else sym[v]
            if kind == "plain" or (u, a) not in {(e[0], e[2]) for e in edges.values()}:
                edges[cnt] = (u, v, a)
            ops.append(["ae", u, v, a, cnt])
            cnt += 1
    if rev:
        ops.append(["reverse"])
    return dict(kind=kind, n=n0, ops=ops, labels=labs, api=rng.randrange(3), every=every)


def run(ctx):
    big = ctx.tier == "thorough"
    cases = []
    cases += walk_cases(ctx, "plain", 3, 2, 2, 0, "plain")
    cases += walk_cases(ctx, "edge", 2 if not big else 3, 3 if not big else 2, 2, 0, "edge-labelled")
    cases += walk_cases(ctx, "edge", 3, 2, 2, 3, "edge-labelled, 3 states")
    cases += walk_cases(ctx, "node", 3, 2 if not big else 3, 2, 0, "node-labelled")
    ctx.conform("IncidenceTrace", record, cases, "model-histories")
    n = ctx.scale((50, 20, 5), (1000, 300, 80))
    cases = []
    for kind in ("plain", "edge", "node"):
        for _ in range(n[0]):
            cases.append(random_case(ctx.rng, kind, 0 if kind == "node" else ctx.rng.randrange(4), 50, 4, 10, ctx.rng.choice([2, 3]), 1, .4))
        for _ in range(n[1]):
            cases.append(random_case(ctx.rng, kind, 0, 150, 10, 30, 4, 5, .35))
        for _ in range(n[2]):
            cases.append(random_case(ctx.rng, kind, 0, 400, 50, 150, 6, 50, .25))
    ctx.conform("IncidenceTrace", record, cases, "random-histories")
