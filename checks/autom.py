"""Automata to run algorithms on (C14-C20, C29): built and read through the public interface."""
import itertools
from .graphs import listing

POOLS = [["a", "b", "c", "d"], ["b", "a", "d", "c"], ["", 0, ("x", 1), "é"], ["ab", "a", "b", 7]]
CHARS = [["a", "b", "c", "d"], ["b", "a", "d", "c"], ["0", " ", "é", "("]]


def key(x):
    return (type(x).__name__, x)


class Codes:
    """labels -> 1, 2, ...; unknown labels get codes from 50 on."""
    def __init__(self, labels):
        self.t = {key(x): i + 1 for i, x in enumerate(labels)}

    def __call__(self, x):
        try:
            k = key(x)
            if k not in self.t:
                self.t[k] = 50 + len(self.t)
            return self.t[k]
        except TypeError:
            return 999


def encode(g, codes, initials=None):
    """What the public interface shows of a deterministic automaton."""
    ids = listing(g.vertices())
    num = {u: i + 1 for i, u in enumerate(ids)}
    out = []
    for u in ids:
        es = []
        for e in listing(g.out_edges(u)):
            if g.source(e) != u:
                raise RuntimeError("out-edge of another state")
            es.append([codes(g.label(e)), num.get(g.target(e), -1)])
        out.append(sorted(es))
    q0 = g.initial()
    return dict(out=out, ini=num.get(q0, -1) if q0 is not None else 0, fin=[num[u] for u in ids if g.is_final(u)], ids=[u if type(u) is int else -1 for u in ids])


def renumber(g):
    return {u: i + 1 for i, u in enumerate(listing(g.vertices()))}


ALIKE = [u for u in range(300) if set(str(u)) <= set("12")]


def kept(rng, n, gaps):
    """The identifiers of the n vertices, out of n + gaps; with many gaps, those whose digits are easily mixed up."""
    if gaps >= 100:
        known = [u for u in ALIKE if u < n + gaps]
        more = [u for u in range(n + gaps) if u not in known]
        m = min(n, len(known))
        return sorted(rng.sample(known, m) + rng.sample(more, n - m))
    return sorted(rng.sample(range(n + gaps), n))


def build(case):
    """case: cls A/I (edge-labelled), N/J (node-labelled), n, tr [[q, r, label index]], q0, fin, sym (node), pool, gaps, how, seed."""
    import random
    from collections import defaultdict
    from pybgl.automaton import Automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    from pybgl.node_automaton import NodeAutomaton
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    rng = random.Random(case.get("seed", 0))
    labels = case["labels"] if "labels" in case else POOLS[case.get("pool", 0)]
    labels = [tuple(x) if isinstance(x, list) else x for x in labels]
    if case["cls"] in "TSX":
        return build_words(case, labels), labels, None
    n, gaps, how = case["n"], case.get("gaps", 0), case.get("how", 0)
    cls = dict(A=Automaton, I=IncidenceAutomaton, N=NodeAutomaton, J=IncidenceNodeAutomaton)[case["cls"]]
    node = case["cls"] in "NJ"
    keep = kept(rng, n, gaps)
    fins = {keep[q] for q in case["fin"]}
    kw = {}
    if how == 1:
        kw["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool, {q: True for q in fins}))
    elif how == 2:
        kw["pmap_vfinal"] = make_func_property_map(lambda q: q in fins)
    if node:
        g = cls(0, **kw)
        at = {u: i for i, u in enumerate(keep)}
        for u in range(n + gaps):
            s = case["sym"][at[u]] if u in at else None
            g.add_vertex(labels[s]) if s is not None else g.add_vertex()
    else:
        g = cls(n + gaps, **kw)
    for u in range(n + gaps):
        if u not in keep:
            g.remove_vertex(u)
    tr = list(case["tr"])
    for q, r, a in tr:
        if node:
            g.add_edge(keep[q], keep[r])
        else:
            g.add_edge(keep[q], keep[r], labels[a])
    g.set_initial(keep[case["q0"]]) if case["q0"] is not None else g.set_initial(g.initial(), False)
    if how == 0:
        for q in fins:
            g.set_final(q)
    return g, labels, keep


def build_words(case, labels):
    """cls T: a trie of words; X: a suffix trie; S: a digital sequence."""
    from pybgl.digital_sequence import DigitalSequence
    from pybgl.suffix_trie import make_suffix_trie
    from pybgl.trie import Trie
    ws = ["".join(labels[a] for a in w) for w in case["words"]]
    if case["cls"] == "S":
        return DigitalSequence(ws[0])
    if case["cls"] == "X":
        return make_suffix_trie(ws[0], max_len=case["max_len"])
    g = Trie()
    for w in ws:
        g.insert(w)
    return g


def random_words(rng, max_len, max_l):
    cls = rng.choice("TTSX")
    n = 1 if cls != "T" else rng.choice([1, 1, 2, 3, 6])
    L = rng.randrange(1, max_l + 1)
    words = [[rng.randrange(L) for _ in range(rng.randrange(max_len + 1))] for _ in range(n)]
    return dict(cls=cls, words=words, max_len=rng.choice([None, None, 1, 2, 3]), pool=0)


def arrange(ctx_rng, case):
    """Variations that do not change the language: state names, gaps, way of building."""
    n = case["n"]
    p = list(range(n))
    ctx_rng.shuffle(p)
    tr = [[p[q], p[r], a] for q, r, a in case["tr"]]
    ctx_rng.shuffle(tr)
    c = dict(case, tr=tr, fin=sorted(p[q] for q in case["fin"]), q0=None if case["q0"] is None else p[case["q0"]])
    if case.get("sym") is not None:
        s = [None] * n
        for q in range(n):
            s[p[q]] = case["sym"][q]
        c["sym"] = s
    return c


def decorate(rng, case, cls="AAI", pools=4):
    return dict(case, cls=case.get("cls") or rng.choice(cls), gaps=rng.choice([0, 0, 1, 3] * 3 + [125]), how=rng.randrange(3), pool=rng.randrange(pools) if rng.random() < .5 else 0,
                seed=rng.randrange(1 << 30))


def random_dfa(rng, max_n, max_l, complete=None, acyclic=False, pfin=None):
    n, L = rng.randrange(1, max_n + 1), rng.randrange(1, max_l + 1)
    p = 1 if complete else rng.choice([.3, .5, .7, .9]) if complete is None or not complete else 1
    if complete is None and rng.random() < .3:
        p = 1
    tr = []
    style = rng.choice(["any", "near", "chain"])
    for q in range(n):
        for a in range(L):
            if rng.random() < p:
                if acyclic:
                    if q + 1 >= n:
                        continue
                    r = rng.randrange(q + 1, n)
                elif style == "near":
                    r = min(n - 1, max(0, q + rng.randrange(-1, 3)))
                elif style == "chain" and a == 0:
                    r = (q + 1) % n
                else:
                    r = rng.randrange(n)
                tr.append([q, r, a])
    f = rng.choice([0, .2, .5, .5, .8, 1]) if pfin is None else pfin
    fin = [q for q in range(n) if rng.random() < f]
    return dict(n=n, tr=tr, fin=fin, q0=0 if acyclic or rng.random() < .6 else rng.randrange(n))


def random_node_dfa(rng, max_n, max_l, acyclic=False):
    n, L = rng.randrange(1, max_n + 1), rng.randrange(1, max_l + 1)
    sym = [rng.randrange(L) for _ in range(n)]
    q0 = 0
    if rng.random() < .6:
        sym[q0] = None
    tr, seen = [], set()
    for _ in range(rng.randrange(0, 3 * n + 1)):
        q, r = rng.randrange(n), rng.randrange(n)
        if acyclic and q >= r:
            continue
        if sym[r] is None or (q, sym[r]) in seen:
            continue
        seen.add((q, sym[r]))
        tr.append([q, r, sym[r]])
    f = rng.choice([0, .2, .5, .5, .8, 1])
    return dict(n=n, tr=tr, fin=[q for q in range(n) if rng.random() < f], q0=q0, sym=sym, cls=rng.choice("NJ"))


def mutate(rng, c):
    """A related automaton: states doubled, finals or transitions changed."""
    n, tr, fin = c["n"], [list(t) for t in c["tr"]], set(c["fin"])
    if rng.random() < .5 and n < 8:      # split a state: same language
        q = rng.randrange(n)
        for t in list(tr):
            if t[0] == q:
                tr.append([n, t[1], t[2]])
        for t in tr:
            if t[1] == q and rng.random() < .5:
                t[1] = n
        if q in fin:
            fin.add(n)
        n += 1
    k = rng.choice([0, 0, 1, 1, 2])
    how = rng.choice(["less", "more", "any"])
    for _ in range(k):
        if how != "more" and rng.random() < .5 and tr:
            tr.pop(rng.randrange(len(tr)))
        elif how != "less" and rng.random() < .4:
            q, a = rng.randrange(n), rng.randrange(1 + max([t[2] for t in tr], default=0))
            if not any(t[0] == q and t[2] == a for t in tr):
                tr.append([q, rng.randrange(n), a])
        else:
            q = rng.randrange(n)
            if how == "less":
                fin.discard(q)
            elif how == "more":
                fin.add(q)
            else:
                fin ^= {q}
    return dict(c, n=n, tr=tr, fin=sorted(fin))


def all_dfas(n, L):
    """Every partial deterministic automaton with states 0..n-1, initial state 0, letters 0..L-1."""
    slots = [(q, a) for q in range(n) for a in range(L)]
    for ch in itertools.product(range(n + 1), repeat=len(slots)):
        tr = [[q, r - 1, a] for (q, a), r in zip(slots, ch) if r]
        for k in range(1 << n):
            yield dict(n=n, tr=tr, fin=[q for q in range(n) if k >> q & 1], q0=0)


WIDE = list("abcdefghijklmnopqrst")


def wide_dfa(rng, max_n=8, acyclic=False, complete=False):
    """Many letters (and transitions per state), and states that differ on few of them."""
    n, L = rng.randrange(3, max_n + 1), rng.randrange(6, 15)
    tr, p = [], 1 if complete else rng.choice([.7, .9, 1])
    if acyclic:
        k = rng.randrange(1, max(2, n - 2))        # the last k states are the leaves
        tgt = lambda q: rng.randrange(max(q + 1, n - k), n) if rng.random() < .8 else rng.randrange(q + 1, n)
    else:
        tgt = lambda q: rng.randrange(n)
    base = {}
    for q in range(n):
        if acyclic and q + 1 >= n or acyclic and q >= n - k:
            continue
        if base and rng.random() < .7:
            row = {a: r for a, r in base.items() if not acyclic or r > q}
            for a in rng.sample(range(L), rng.choice([0, 1, 1, 2])):
                row[a] = tgt(q)
                if not complete and rng.random() < .4:
                    del row[a]
        else:
            row = base = {a: tgt(q) for a in range(L) if rng.random() < p}
        if complete:
            row = {a: row[a] if a in row else tgt(q) for a in range(L)}
        tr += [[q, r, a] for a, r in row.items()]
    if acyclic:                                    # every state entered, as a tree of words would
        for q in range(1, n):
            if not any(r == q for _, r, _ in tr):
                free = [a for a in range(L) if not any(t[0] == 0 and t[2] == a for t in tr)]
                if free:
                    tr.append([0, q, rng.choice(free)])
    f = rng.choice([.2, .5, .8])
    return dict(n=n, tr=tr, fin=[q for q in range(n) if rng.random() < f], q0=0, labels=WIDE)


def deep_dfa(rng, n=1100, extra=6):
    """A chain of transitions far longer than the interpreter's recursion limit, with a few more transitions; acyclic."""
    tr = [[q, q + 1, rng.randrange(2)] for q in range(n - 1)]
    for _ in range(extra):
        q = rng.randrange(n - 1)
        tr.append([q, rng.randrange(q + 1, n), 1 - tr[q][2]])
    seen, out = set(), []
    for q, r, a in tr:
        if (q, a) not in seen:
            seen.add((q, a))
            out.append([q, r, a])
    return dict(n=n, tr=out, fin=sorted({n - 1} | {rng.randrange(n) for _ in range(3)}), q0=0)
