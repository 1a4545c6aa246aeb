"""C23: BK-trees."""
import itertools, random
from .graphs import listing

CH = "abcdé0 A"


def metric(rng, n, top):
    """A random metric: the shortest paths of a random weighted complete graph."""
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = rng.randrange(1, top + 1)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return d


def observe(t, tree, name):
    """Nodes 1.., every parent before its children."""
    vs = listing(tree.vertices())
    es = [(tree.source(e), tree.label(e), tree.target(e)) for e in listing(tree.edges())]
    kids = {v: [] for v in vs}
    entered = set()
    for u, a, v in es:
        kids[u].append(v)
        entered.add(v)
    order = [v for v in vs if v not in entered]
    for u in order:
        order.extend(v for v in kids[u] if v not in order)
    if len(order) != len(vs):
        raise RuntimeError("not a tree")
    no = {v: i + 1 for i, v in enumerate(order)}
    t.e("tree", el=[name(tree.element(v)) for v in order], edges=sorted([no[u], a, no[v]] for u, a, v in es))


def record(case, t):
    from pybgl.algebra import INFINITY
    from pybgl.bk_tree import BKTree, bk_tree_insert, make_bk_tree
    from pybgl.lcs_distance import lcs_distance
    from pybgl.levenshtein_distance import levenshtein_distance
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "table":
        d = case["d"]
        n = len(d)
        # elements are values of any kind, equal copies of which are not identical
        objs = [("element", i) if case["seed"] % 2 else i - 3 for i in range(n)]
        index = {o: i for i, o in enumerate(objs)}
        dist = lambda x, y: d[index[x]][index[y]]
        t.init = dict(kind=kind, d=d)
    else:
        n = len(case["words"])
        objs = ["".join(CH[a] for a in w) for w in case["words"]]
        index = {o: i for i, o in enumerate(objs)}
        dist = levenshtein_distance if kind == "lev" else lcs_distance
        t.init = dict(kind=kind, words=case["words"])
    name = lambda o: index[o] + 1
    made = case.get("made")
    if made is not None:
        es = iter([objs[i] for i in made]) if rng.random() < .5 else [objs[i] for i in made]
        tree = make_bk_tree(es) if kind == "lev" and rng.random() < .5 else make_bk_tree(es, dist)
        t.e("make", xs=[i + 1 for i in made])
    else:
        tree = BKTree(dist)
        made = []
    node = {}
    for v in listing(tree.vertices()):
        node[name(tree.element(v))] = v

    def search(x, m, r=None):
        args = {}
        if r is not None:
            args["r"] = node[r]
        if m is None:
            if rng.random() < .3:
                args["d_max"] = INFINITY
        else:
            args["d_max"] = m
        a = tree.search(objs[x], **args)
        t.e("search" if node else "nothing", x=x + 1, m=-1 if m is None else m, **{"from": r or 0},
            r=[] if a is None else [name(a[0]), a[1]])

    def queries(k):
        for _ in range(k):
            search(rng.randrange(n), rng.choice([None, 0, 1, 2, 3, rng.randrange(8)] if not case.get("far") else [None, 0, 9, 10, 15, 31, rng.randrange(120)]), rng.choice(list(node)) if node and rng.random() < .2 else None)
    queries(1)
    for x in case["inserts"]:
        before = len(listing(tree.vertices()))
        v = tree.insert(objs[x]) if rng.random() < .7 else bk_tree_insert(objs[x], tree)
        node.setdefault(x + 1, v)
        t.e("insert", x=x + 1, el=name(tree.element(v)), same=int(node[x + 1] == v), new=len(listing(tree.vertices())) - before)
        if rng.random() < .3:
            queries(1)
    observe(t, tree, name)
    for x in range(n) if case.get("all") else []:
        for m in (None, 0, 1, 2, 3):
            search(x, m)
    queries(case.get("queries", 4))
    observe(t, tree, name)


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("TreeOK", "AnswerOK", "PutTwice")
    jobs = [dict(module="BkTreeModel", constants=dict(N=n, MaxD=d, Strict="FALSE"), invariants=inv, properties=("Ends",), workers=4)
            for n, d in ([(4, 2), (3, 4), (4, 3)] if big else [(4, 2), (3, 3)])]
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    small = []
    for n, top in ((2, 3), (3, 3)) + (((4, 2),) if big else ()):
        pairs = [(i, j) for i in range(n) for j in range(i)]
        for ws in itertools.product(range(1, top + 1), repeat=len(pairs)):
            d = [[0] * n for _ in range(n)]
            for (i, j), w in zip(pairs, ws):
                d[i][j] = d[j][i] = w
            if all(d[i][k] <= d[i][j] + d[j][k] for i in range(n) for j in range(n) for k in range(n)):
                for m in range(n + 1):
                    for xs in itertools.permutations(range(n), m):
                        small.append(dict(kind="table", d=d, inserts=list(xs), all=1, seed=rng.randrange(1 << 30), queries=0))
    ctx.exhaustive_notes.append("every metric on 2 or 3 elements with distances at most 3%s, every sequence of distinct insertions, every query within every radius at most 3" % (" (4 elements: at most 2)" if big else ""))
    ctx.conform("BkTreeTrace", record, small, "small-metrics")
    cases = []
    for _ in range(ctx.scale(700, 8000)):
        kind = rng.choice(["table", "table", "lev", "lcs"])
        n = rng.randrange(2, 11)
        c = dict(kind=kind, seed=rng.randrange(1 << 30), queries=8)
        if kind == "table":
            c["far"] = int(rng.random() < .35)          # distances of tens
            n = rng.randrange(2, 17) if c["far"] else n
            c["d"] = metric(rng, n, rng.choice([2, 3, 6, 12] if not c["far"] else [40, 100]))
            if rng.random() < .3:
                pts = rng.sample(range(30 if not c["far"] else 150), n)
                c["d"] = [[abs(a - b) for b in pts] for a in pts]
        else:
            k = rng.choice([1, 2, 3, 5])
            ws = []
            while len(ws) < n:
                w = [rng.randrange(k) for _ in range(rng.randrange(0, 8 if k == 1 else 6))] if not ws or rng.random() < .5 else list(rng.choice(ws))
                if w and rng.random() < .5:
                    w[rng.randrange(len(w))] = rng.randrange(k)
                if w not in ws:
                    ws.append(w)
                elif len(w) > 6 or k == 1:
                    k = 5
            c["words"] = ws
        if rng.random() < .4:
            c["made"] = [rng.randrange(n) for _ in range(rng.randrange(0, n + 3))]
        c["inserts"] = [rng.randrange(n) for _ in range(rng.randrange(0, n + 4))]
        cases.append(c)
    ctx.conform("BkTreeTrace", record, cases, "histories")
