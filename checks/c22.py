"""C22: suffix tries, factors and trie matching."""
import itertools, random
from . import autom
from .graphs import listing

CH = ["a", "b", "c", "é"]


def word(w):
    return "".join(CH[a] for a in w)


def all_final(n=1):
    from pybgl.property_map import make_func_property_map
    from pybgl.trie import BOTTOM, Trie
    return Trie(num_vertices=n, pmap_vfinal=make_func_property_map(lambda q: q != BOTTOM))


def record(case, t):
    from pybgl.suffix_trie import factors, make_suffix_trie, slices
    codes = autom.Codes(CH)
    cw = lambda w: [codes(a) for a in w]
    rng = random.Random(case["seed"])
    g = {0: None, 1: all_final(), 2: all_final(0)}[case["given"]]
    for n, (w, bound) in enumerate(case["words"]):
        w = word(w)
        args = [] if bound is None and rng.random() < .5 else [bound]
        b = -1 if bound is None else bound
        t.e("slices", n=len(w), bound=b, r=[list(x) for x in listing(slices(len(w), *args))])
        t.e("factors", w=cw(w), bound=b, r=[cw(x) for x in listing(factors(w, *args))])
        if g is None:
            r = g = make_suffix_trie(w, *args)
            given = 1
        else:
            r = make_suffix_trie(w, bound, g) if rng.random() < .5 else make_suffix_trie(w, max_len=bound, g=g)
            given = int(r is g)
        t.e("trie", w=cw(w), bound=b, m=autom.encode(r, codes), given=given)
        for _ in range(3):
            v = word([rng.randrange(3) for _ in range(rng.randrange(0, 4))])
            t.e("accepts", w=cw(v), r=t.bits(g.accepts(v)))


def match(t, codes, g1, g2, words=None):
    from pybgl.trie_matching import TrieMatchingVisitor, trie_matching
    m1, m2 = autom.encode(g1, codes), autom.encode(g2, codes)
    if (len(m1["out"]) + len(m2["out"])) % 3 == 0:
        vis = TrieMatchingVisitor()
        r = trie_matching(g1, g2, vis)
        if listing(r) != listing(vis.counters):
            raise RuntimeError("the visitor has other counters")
    else:
        r = trie_matching(g1, g2)
    same = int(autom.encode(g1, codes) == m1 and autom.encode(g2, codes) == m2)
    t.e("matching", m1=m1, m2=m2, r=listing(r), same=same)
    if words:
        t.e("words", w1=words[0], w2=words[1], r=listing(r))


def record_match(case, t):
    from pybgl.digital_sequence import DigitalSequence
    from pybgl.suffix_trie import make_suffix_trie
    from pybgl.trie import Trie
    codes = autom.Codes(CH)
    cw = lambda w: [codes(a) for a in w]
    t.init = {}
    gs, ws = [], []
    for kind, words in case["sides"]:
        if kind == "trie":
            g, w = Trie(), words
            for x in words:
                g.insert(word(x))
        elif kind == "seq":
            g, w = DigitalSequence(word(words[0])), words[:1]
        elif kind == "factors":
            x = words[0] if words else []
            g, w = make_suffix_trie(word(x)), [x[i:j] for i in range(len(x) + 1) for j in range(i, len(x) + 1)]
        else:
            g, w = autom.build(kind)[0], None
        gs.append(g)
        ws.append(None if w is None else [cw(word(x)) for x in w])
    both = None not in ws
    match(t, codes, gs[0], gs[1], ws if both else None)
    if case["twice"]:
        match(t, codes, gs[1], gs[0], ws[::-1] if both else None)
        match(t, codes, gs[0], gs[0], [ws[0], ws[0]] if both else None)


def side(rng, k, m):
    kind = rng.choice(["trie", "trie", "trie", "seq", "factors", "dfa"])
    rw = lambda: [rng.randrange(k) for _ in range(rng.choice([0, 1, 2, 3, m]))]
    if kind == "dfa":
        c = autom.decorate(rng, autom.random_dfa(rng, 5, k), "AI", 1)
        return [dict(c, labels=CH), None]
    n = 1 if kind != "trie" else rng.randrange(0, 7)
    return [kind, [rw() for _ in range(n)]]


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("TrieOK", "CountOK")
    jobs = [dict(module="SuffixModel", constants=dict(L="{1,2}", MaxLen=3), invariants=inv, properties=("Ends",), workers=6)]
    if big:
        jobs.append(dict(module="SuffixModel", constants=dict(L="{1,2}", MaxLen=6), invariants=inv, workers=6))
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    words = [list(w) for n in range(6 if big else 5) for w in itertools.product(range(2), repeat=n)]
    cases = [dict(words=[[w, b]], given=rng.randrange(3), seed=rng.randrange(1 << 30)) for w in words for b in [None] + list(range(len(w) + 2))]
    ctx.exhaustive_notes.append("every word of length at most %d over 2 letters with every bound" % (5 if big else 4))
    for _ in range(ctx.scale(250, 3000)):
        ws = [[[rng.randrange(rng.choice([1, 2, 3])) for _ in range(rng.choice([0, 1, 3, 5, 8, 10]))], rng.choice([None, None, 0, 1, 2, 3, 5, 12])] for _ in range(rng.choice([1, 1, 2, 3]))]
        cases.append(dict(words=ws, given=rng.randrange(3), seed=rng.randrange(1 << 30)))
    for _ in range(ctx.scale(40, 500)):        # longer words
        k = rng.choice([1, 2, 3])
        w = [rng.randrange(k) for _ in range(rng.randrange(12, 31))]
        cases.append(dict(words=[[w, rng.choice([None, 0, 1, 4, 9, 13, len(w), 40] if k == 1 or len(w) < 22 else [1, 4, 6, 9])]], given=rng.randrange(3), seed=rng.randrange(1 << 30)))
    ctx.conform("SuffixTrace", record, cases, "factors")
    W = [list(w) for n in range(3) for w in itertools.product(range(2), repeat=n)]
    sets = [[w for w, b in zip(W, ch) if b] for ch in itertools.product((0, 1), repeat=len(W))]
    cases = [dict(sides=[["trie", a], ["trie", rng.choice(sets)]], twice=0) for a in sets for _ in range(8 if big else 2)]
    for _ in range(ctx.scale(700, 8000)):
        k = rng.choice([1, 2, 3])
        cases.append(dict(sides=[side(rng, k, 6), side(rng, k, 6)], twice=int(rng.random() < .5)))
    for _ in range(ctx.scale(40, 500)):
        k = rng.choice([1, 2])
        rw = lambda: [rng.randrange(k) for _ in range(rng.randrange(8, 20))]
        w = rw()
        cases.append(dict(sides=[[rng.choice(["trie", "seq", "factors"]), [w]], [rng.choice(["trie", "factors", "seq"]), [w[:rng.randrange(4, 14)] + rw()[:3]]]], twice=int(rng.random() < .3)))
    ctx.conform("SuffixTrace", record_match, cases, "matching")
