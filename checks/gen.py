"""Graphs to run algorithms on (C08-C13, C27, ...)."""
import itertools
from .autom import kept
from .graphs import Keys, enc_v


def unchanged(record):
    """The same record, which looks at the graphs that were built once more when it is done."""
    def wrapped(case, t):
        case = dict(case, made=[])
        record(case, t)
        for b in case["made"]:
            b.same(t)
    return wrapped


class Built:
    """A real graph built through its public mutators, with what it should contain."""
    def __init__(self, case):
        import random
        from pybgl.graph import DirectedGraph, UndirectedGraph
        from pybgl.incidence_graph import IncidenceGraph
        from pybgl.automaton import Automaton
        from pybgl.graph_view import GraphView
        from pybgl.property_map import make_func_property_map
        from pybgl.reverse import reverse_graph
        kind, n, edges = case["kind"], case["n"], case["edges"]
        rng = random.Random(case.get("gseed", 0))
        gaps = case.get("gaps", 0)
        # V, W: what a view shows of a larger directed or undirected graph; R: a reversed incidence graph
        hide = kind in "VW"
        cls = dict(D=DirectedGraph, U=UndirectedGraph, I=IncidenceGraph, A=Automaton, W=UndirectedGraph, R=IncidenceGraph,
                   V=[DirectedGraph, IncidenceGraph][case.get("gseed", 0) % 2])[kind]
        if hide:
            gaps += 2
        g = cls(n + gaps)
        keep = kept(rng, n, gaps)
        hidden = []
        for u in range(n + gaps):
            if u not in keep:
                if hide and len(hidden) < 2:
                    hidden.append(u)
                else:
                    g.remove_vertex(u)
        self.g, self.kind, self.dir, self.id = g, kind, kind not in "UW", keep
        self.keys = Keys()
        self.es, self.desc = [], []
        extra, hes = [], []
        for i, (u, v) in enumerate(edges):
            if gaps and rng.random() < .3:     # an edge that is removed again
                x, y = rng.choice(keep), rng.choice(keep)
                extra.append(g.add_edge(x, y, "x%d" % i)[0] if kind == "A" else g.add_edge(x, y)[0])
            if hide and rng.random() < .7:     # an edge that the view does not show
                ends = [rng.choice(keep), rng.choice(hidden if rng.random() < .7 else keep)]
                rng.shuffle(ends)
                hes.append(g.add_edge(*ends)[0])
            if kind == "R":
                u, v = v, u
            e, _ = g.add_edge(keep[u], keep[v], "l%d" % i) if kind == "A" else g.add_edge(keep[u], keep[v])
            self.desc.append(e)
        for e in extra:
            g.remove_edge(e)
        if kind == "R":
            reverse_graph(g)
        if hide:
            hv, he = set(hidden), {self.ck(e) for e in hes}
            self.g = GraphView(g, make_func_property_map(lambda u: u not in hv), make_func_property_map(lambda e: self.ck(e) not in he))
        self.es = [self.enc(e) for e in self.desc]
        self.index = {self.ck(e): i for i, e in enumerate(self.desc)}
        if "made" in case:
            case["made"].append(self)

    def same(self, t):
        """What is asked about a graph leaves it as it was."""
        es = sorted(self.ck(e) for e in self.g.edges())
        if sorted(self.g.vertices()) != sorted(self.id) or es != sorted(map(self.ck, self.desc)):
            t.e("exc", what="the graph is changed")

    def ck(self, e):
        """Same for both orientations of an undirected edge."""
        a, b = e.source, e.target
        if not self.dir and a > b:
            a, b = b, a
        return (a, b, e.distinguisher)

    def name(self, e):
        """Which of the inserted edges a descriptor denotes."""
        return self.index.get(self.ck(e), -1)

    def enc(self, e):
        return [enc_v(self.g.source(e)), enc_v(self.g.target(e)), self.keys((type(e.distinguisher).__name__, e.distinguisher))]

    def init(self, **kw):
        return dict(dir=self.dir, vs=list(self.id), es=self.es, **kw)


def all_graphs(n, max_m=None, loops=True, undirected=False):
    """Every set of arcs on n vertices."""
    pairs = [(u, v) for u in range(n) for v in range(n) if (loops or u != v) and (not undirected or u <= v)]
    for m in range(0, (len(pairs) if max_m is None else max_m) + 1):
        for es in itertools.combinations(pairs, m):
            yield list(es)


def random_edges(rng, n, m, style=None):
    style = style or rng.choice(["any", "any", "dag", "layers", "clique", "cycle", "parallel"])
    es = []
    if n == 0:
        return es
    for _ in range(m):
        if style == "parallel" and es and rng.random() < .4:
            es.append(rng.choice(es))
            continue
        u, v = rng.randrange(n), rng.randrange(n)
        if style == "dag" and u > v:
            u, v = v, u
        if style == "dag" and u == v:
            continue
        if style == "layers":
            v = min(n - 1, u + rng.randrange(0, 3))
        if style == "cycle" and rng.random() < .7:
            v = (u + 1) % n
        if style == "clique":
            k = max(1, n // 2)
            u, v = rng.randrange(k), rng.randrange(k)
            if rng.random() < .3:
                v = rng.randrange(n)
        es.append((u, v))
    rng.shuffle(es)
    if style == "dag" and rng.random() < .7:
        p = list(range(n))
        rng.shuffle(p)
        es = [(p[u], p[v]) for u, v in es]
    return es


def random_graph(rng, max_n, max_m, kinds="DUIAVWR", style=None):
    n = rng.randrange(1, max_n + 1)
    edges = random_edges(rng, n, rng.randrange(0, max_m + 1), style)
    return dict(kind=rng.choice(kinds), n=n, edges=edges, gaps=rng.choice([0, 0, 1, 3] * 3 + [125]), gseed=rng.randrange(1 << 30))


def deep_graph(rng, n=1100, kinds="DUIAVWR", extra=4, cyclic=True):
    """A path far longer than the interpreter's recursion limit, with a few more edges; the vertices shuffled half of the time."""
    es = [(v, v + 1) for v in range(n - 1)]
    for _ in range(extra):
        u, v = rng.randrange(n), rng.randrange(n)
        es.append((u, v) if cyclic or u < v else (min(u, v), max(u, v)) if u != v else es[0])
    p = list(range(n))
    if rng.random() < .5:
        rng.shuffle(p)
    s = p[0]
    return dict(kind=rng.choice(kinds), n=n, edges=[(p[u], p[v]) for u, v in es], gaps=rng.choice([0, 2]), gseed=rng.randrange(1 << 30)), s
