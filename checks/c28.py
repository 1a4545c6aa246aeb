"""C28: combined visitors, property maps, closed operators."""
import itertools, random, re, sys
from collections import defaultdict

NAMES = ["discover_vertex", "examine_edge", "start_vertex", "finish_vertex", "f", "on_token", "tree_edge", "examine_relaxed_edge", "x_1"]
INF = 1000000


class Log:
    def __init__(self):
        self.seen = []


class Rec:
    """A visitor that records every call made on it."""
    def __init__(self, who, log):
        self.__dict__.update(who=who, log=log, failing=None)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def called(*args, **kw):
            self.log.seen.append((self.who, name, args, kw))
            if self.failing is not None:
                raise self.failing
        return called


class RecA(Rec):
    pass


class RecB(Rec):
    pass


def text(known, name, args, kw):
    def one(x):
        for k, v in known:
            if x is v:
                return k
        return re.sub(" at 0x[0-9a-f]+", "", repr(x))
    return "%s(%s)" % (name, ", ".join([one(x) for x in args] + ["%s=%s" % (k, one(x)) for k, x in sorted(kw.items())]))


def traversal(kind, seed):
    """A run(vis) -> (result, objects to tell by name)."""
    rng = random.Random(seed)
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    n = rng.randrange(1, 7)
    if kind in ("bfs", "dfs", "dijkstra", "path"):
        g = rng.choice([DirectedGraph, UndirectedGraph])(n)
        for _ in range(rng.randrange(0, 12)):
            g.add_edge(rng.randrange(n), rng.randrange(n))
        s, t = rng.randrange(n), rng.randrange(n)
        w = defaultdict(int, {e: rng.randrange(4) for e in g.edges()})
        if kind == "bfs":
            from pybgl.breadth_first_search import breadth_first_search, breadth_first_search_graph
            from_one = rng.random() < .5

            def run(vis):
                c = defaultdict(int)
                f = make_assoc_property_map(c)
                if from_one:
                    breadth_first_search(s, g, pmap_vcolor=f, vis=vis)
                else:
                    breadth_first_search_graph(g, pmap_vcolor=f, vis=vis)
                return dict(c)
        elif kind == "dfs":
            from pybgl.depth_first_search import depth_first_search, depth_first_search_graph
            from_one = rng.random() < .5

            def run(vis):
                c = defaultdict(int)
                f = make_assoc_property_map(c)
                if from_one:
                    depth_first_search(s, g, pmap_vcolor=f, vis=vis)
                else:
                    depth_first_search_graph(g, pmap_vcolor=f, vis=vis)
                return dict(c)
        elif kind == "dijkstra":
            from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths

            def run(vis):
                p, d = defaultdict(set), defaultdict(int)
                dijkstra_shortest_paths(g, s, make_assoc_property_map(w), make_assoc_property_map(p), make_assoc_property_map(d), vis=vis)
                return dict(p), dict(d)
        else:
            from pybgl.dijkstra_shortest_paths import dijkstra_shortest_path

            def run(vis):
                p, d = defaultdict(set), defaultdict(int)
                r = dijkstra_shortest_path(g, s, t, make_assoc_property_map(w), make_assoc_property_map(p), make_assoc_property_map(d), vis=vis)
                return list(r) if r is not None else None, dict(p), dict(d)
        return run, [("g", g)]
    if kind == "tree":
        from pybgl.graph_traversal import bfs_tree, dfs_tree
        g = DirectedGraph(n)
        for v in range(1, n):
            g.add_edge(rng.randrange(v), v)
        f = rng.choice([bfs_tree, dfs_tree])
        return lambda vis: f(0, g, vis), [("g", g)]
    if kind in ("parallel", "matching"):
        from pybgl.trie import Trie
        ts = []
        for _ in range(2):
            t = Trie()
            for _ in range(rng.randrange(0, 4)):
                t.insert("".join(rng.choice("ab") for _ in range(rng.randrange(4))))
            ts.append(t)
        if kind == "parallel":
            from pybgl.parallel_breadth_first_search import parallel_breadth_first_search
            return lambda vis: parallel_breadth_first_search(ts[0], ts[1], vis=vis), [("g1", ts[0]), ("g2", ts[1])]
        from pybgl.deterministic_union import deterministic_union
        from pybgl.deterministic_intersection import deterministic_intersection
        raise NotImplementedError
    if kind == "tokens":
        from pybgl.tokenize import tokenize
        r, s = re.compile(rng.choice(["a+", "[0-9]+", "b|ab"])), "".join(rng.choice("ab0 1") for _ in range(rng.randrange(9)))
        return lambda vis: tokenize(r, s, vis), []
    if kind == "postfix":
        from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, shunting_yard_postfix, tokenizer_alg
        s = rng.choice(["1 + 2 * 3", "(1+2)*3", "1", "2^3^4-1", "-1 + 2", "((5))"])
        return lambda vis: list(shunting_yard_postfix(tokenizer_alg(s), MAP_OPERATORS_ALG, vis=vis)), []
    raise ValueError(kind)


def record_visitors(case, t):
    from pybgl.aggregated_visitor import AggregatedVisitor
    rng = random.Random(case["seed"])
    log = Log()
    nodes, objs = case["nodes"], {}
    classes = {1: RecA, 2: RecB, 3: AggregatedVisitor}
    types = [3 if x[0] else 1 + i % 2 for i, x in enumerate(nodes)]
    for i in range(len(nodes), 0, -1):         # kids come after
        x = nodes[i - 1]
        if x[0] == 0:
            objs[i] = classes[types[i - 1]](i, log)
        else:
            kids = [objs[k] for k in x[1]]
            objs[i] = AggregatedVisitor(kids) if kids or rng.random() < .3 else AggregatedVisitor()
    who = lambda o: next(i for i, x in objs.items() if x is o)
    key = lambda c: c.__module__ + "." + c.__qualname__
    t.init = dict(nodes=nodes, types=types, dicts=[], maps=[])
    kids = {i + 1: list(x[1]) for i, x in enumerate(nodes) if x[0]}
    leaves = [i + 1 for i, x in enumerate(nodes) if x[0] == 0]
    for op in case["ops"]:
        v = rng.choice([1, 1, 1] + list(kids))
        if op == "call":
            name, args = rng.choice(NAMES), [rng.choice([0, 1, None, "g", (1, 2), [3]]) for _ in range(rng.randrange(4))]
            kw = {k: rng.randrange(9) for k in rng.sample(["u", "key", "e"], rng.choice([0, 0, 0, 1, 2]))}
            if rng.random() < .15:
                # an argument that may be confused with the dispatch
                kw["method_name"] = 1
            failing = rng.sample(leaves, min(len(leaves), rng.choice([0, 0, 0, 1, 2])))
            boom = KeyError("told to")
            for i in failing:
                objs[i].__dict__["failing"] = boom
            log.seen.clear()
            failed = 0
            try:
                getattr(objs[v], name)(*args, **kw)
            except KeyError as e:
                if e is not boom:
                    raise
                failed = 1
            for i in failing:
                objs[i].__dict__["failing"] = None
            t.e("call", v=v, call=text([], name, args, kw), failing=failing, failed=failed, log=[[w, text([], m, a, k)] for w, m, a, k in log.seen])
        elif op == "run":
            run, known = traversal(rng.choice(["bfs", "dfs", "dijkstra", "path", "tree", "parallel", "tokens", "postfix"]), rng.randrange(1 << 30))
            one = Log()
            r1 = run(Rec(0, one))
            log.seen.clear()
            r2 = run(objs[v])
            t.e("run", v=v, same=int(r1 == r2), alone=[text(known, m, a, k) for _, m, a, k in one.seen], log=[[w, text(known, m, a, k)] for w, m, a, k in log.seen])
        elif op == "get":
            ty = rng.randrange(1, 4)
            miss = object()
            r = objs[v].get(key(classes[ty]), miss)
            t.e("get", v=v, t=ty, r=0 if r is miss else who(r))
            t.e("keys", v=v, r=sorted(next(i for i, c in classes.items() if key(c) == k) for k in objs[v].keys()))
        elif op == "append":
            later = [i for i in objs if i > v]
            if later:
                w = rng.choice(later)
                objs[v].visitors.append(objs[w])
                kids[v].append(w)
                t.e("append", v=v, w=w)
        elif kids[v]:
            i = rng.randrange(len(kids[v]))
            del objs[v].visitors[i]
            del kids[v][i]
            t.e("remove", v=v, i=i + 1)


KEYOBJ = [0, 1, "a", (0, 1), None, frozenset({2}), -1, "b"]


def record_maps(case, t):
    from pybgl.property_map import (get, identity_property_map, make_assoc_property_map, make_constant_property_map, make_func_property_map, put)
    rng = random.Random(case["seed"])
    ks = rng.sample(range(len(KEYOBJ)), 5)
    index = lambda o: next(i for i, k in enumerate(KEYOBJ) if k == o and type(k) is type(o))
    dicts = [defaultdict(lambda d=d: d) for d in case["defaults"]]
    maps = []
    for m in case["maps"]:
        if m[0] == "assoc":
            maps.append(make_assoc_property_map(dicts[m[1] - 1]))
        elif m[0] == "func":
            maps.append(make_func_property_map(lambda o, m=m: m[1] * index(o) + m[2]))
        elif m[0] == "id":
            maps.append(identity_property_map())
        else:
            maps.append(make_constant_property_map(m[1]))
    t.init = dict(nodes=[], types=[], maps=case["maps"], dicts=[dict(d=d, f=[]) for d in case["defaults"]])
    def read(i, k):
        r = (get(maps[i], KEYOBJ[k]) if rng.random() < .5 else maps[i][KEYOBJ[k]])
        t.e("read", m=i + 1, k=k, r=index(r) if case["maps"][i][0] == "id" else r)
    for _ in range(case["len"]):
        i, k, x = rng.randrange(len(maps)), rng.choice(ks), rng.randrange(-3, 9)
        kind = case["maps"][i][0]
        op = rng.random()
        if op < .4:
            read(i, k)
        elif op < .75:
            def write():
                if rng.random() < .5:
                    put(maps[i], KEYOBJ[k], x)
                else:
                    maps[i][KEYOBJ[k]] = x
            if kind == "assoc":
                write()
                t.e("write", m=i + 1, k=k, x=x)
            else:
                r = 0
                try:
                    write()
                except RuntimeError:
                    r = 1
                t.e("refused", write=1, r=r)
        elif op < .85 and dicts:
            d = rng.randrange(len(dicts))
            dicts[d][KEYOBJ[k]] = x
            t.e("direct", d=d + 1, k=k, x=x)
        elif op < .92:
            r = 0
            try:
                del maps[i][KEYOBJ[k]]
            except RuntimeError:
                r = 1
            t.e("refused", write=0, r=r)
        elif dicts:
            d = rng.randrange(len(dicts))
            t.e("content", d=d + 1, ks=[index(o) for o in dicts[d]], vs=list(dicts[d].values()))
    for i in range(len(maps)):
        for k in ks:
            read(i, k)
    r = 0
    try:
        make_assoc_property_map({1: 2})
    except TypeError:
        r = 1
    t.e("refused", write=1, r=r)


def record_algebra(case, t):
    from pybgl.algebra import ClosedMax, ClosedMin, ClosedOperator, ClosedPlus, ClosedTime, GreaterThan, INFINITY, Less

    class Minus(ClosedOperator):
        def impl(self, x, y):
            return x - y
    inf = float("inf")
    down = lambda x: INF if x in (INFINITY, inf) else x if x == int(x) and abs(x) < 900000 else -999999
    t.init = dict(nodes=[], types=[], maps=[], dicts=[])
    for kind, z, x, y, as_float in case["apps"]:
        cls = dict(plus=ClosedPlus, time=ClosedTime, max=ClosedMax, min=ClosedMin, minus=Minus)[kind]
        default = 0 if kind == "min" else INF
        up = lambda x: (inf if as_float else INFINITY) if x == INF else float(x) if as_float else x
        op = cls() if z == default and kind != "minus" and not as_float else cls(up(z))
        a, b = up(x), up(y)
        t.e("apply", kind=kind, z=z, x=x, y=y, r=int(down(op(a, b))))
        t.e("compare", x=x, y=y, lt=t.bits(Less()(a, b)), gt=t.bits(GreaterThan()(a, b)))


def random_nodes(rng):
    n = rng.randrange(1, 8)
    nodes = []
    for i in range(1, n + 1):
        if i == 1 or (rng.random() < .3 and i < n):
            nodes.append([1, [rng.randrange(i + 1, n + 1) for _ in range(rng.randrange(0, 4))] if i < n else []])
        else:
            nodes.append([0, []])
    return nodes


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("Order", "AsSpecified", "Alone", "ReadsBack", "Absorbs", "Laws", "Laws2")
    m = lambda trees, ev, w: dict(module="PartsModel", constants=dict(Trees=trees, Events=ev, Keys="{1,2}", Values="{1,2}" if not big else "{1,2,3}", MaxWrites=w, Eager="FALSE"), invariants=inv, workers=2)
    ctx.models_parallel([m(1, 3, 2), m(2, 3, 2)] + ([m(1, 4, 4), m(2, 4, 3)] if big else []), timeout=840)
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 30), nodes=[[1, list(k)], [0, []], [0, []], [0, []]], ops=[o] * 3)
             for n in range(4) for k in itertools.product([2, 3, 4], repeat=n) for o in ("call", "run", "get")]
    ctx.exhaustive_notes.append("every list of at most 3 visitors out of 3")
    for _ in range(ctx.scale(700, 9000)):
        cases.append(dict(seed=rng.randrange(1 << 30), nodes=random_nodes(rng), ops=[rng.choice(["call", "call", "run", "get", "append", "remove"]) for _ in range(rng.randrange(1, 8))] + ["call"]))
    ctx.conform("PartsTrace", record_visitors, cases, "visitors")
    cases = []
    for _ in range(ctx.scale(500, 6000)):
        nd = rng.randrange(0, 3)
        maps = [["assoc", rng.randrange(1, nd + 1)] for _ in range(rng.randrange(1, 4))] if nd else []
        maps += [rng.choice([["func", rng.randrange(-2, 3), rng.randrange(4)], ["id"], ["const", rng.randrange(-1, 5)]]) for _ in range(rng.randrange(0 if maps else 1, 3))]
        cases.append(dict(seed=rng.randrange(1 << 30), defaults=[rng.randrange(-1, 3) for _ in range(nd)], maps=maps, len=rng.randrange(4, 30)))
    ctx.conform("PartsTrace", record_maps, cases, "maps")
    vals = [0, 1, 2, 3, 7, INF]
    apps = [[k, z, x, y, f] for k in ("plus", "time", "max", "min", "minus") for z in (0, 1, 3, INF) for x in vals for y in vals for f in (0, 1)
            if not (INF in (x, y) and z != INF)]
    apps += [["min", 0, x, y, f] for x in vals for y in vals for f in (0, 1) if INF in (x, y)]
    apps += [["max", 0, x, y, f] for x in vals for y in vals for f in (0, 1) if INF in (x, y)]
    ctx.exhaustive_notes.append("every closed operator on every pair of 0, 1, 2, 3, 7 and infinity")
    for _ in range(ctx.scale(300, 3000)):
        apps.append([rng.choice(["plus", "time", "max", "min", "minus"]), rng.randrange(0, 30), rng.randrange(0, 30), rng.randrange(0, 30), rng.randrange(2)])
    ctx.conform("PartsTrace", record_algebra, [dict(apps=apps[i:i + 20]) for i in range(0, len(apps), 20)], "operators")
