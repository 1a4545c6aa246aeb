"""C21: tries and digital sequences."""
import itertools, random
from . import autom
from .graphs import listing

CH = ["a", "b", "c", "é"]


def word(w):
    return "".join(CH[a] for a in w)


def new_slot(kind):
    from collections import defaultdict
    from pybgl.automaton import Automaton
    from pybgl.property_map import make_assoc_property_map
    from pybgl.trie import Trie
    if kind == 1:
        return Trie(pmap_vfinal=make_assoc_property_map(defaultdict(bool)))
    if kind == 2:
        return Automaton(1)
    if kind == 3:
        return Trie(num_vertices=0)
    if kind == 4:
        return Automaton()
    return Trie()


def record(case, t):
    from pybgl.automaton import automaton_insert_string
    from pybgl.digital_sequence import DigitalSequence
    from pybgl.trie import Trie, trie_deterministic_fusion
    rng = random.Random(case["seed"])
    kinds = case["kinds"]
    tries = [new_slot(k) for k in kinds]
    codes = autom.Codes(CH)
    t.init = dict(n=len(tries))
    cw = lambda w: [codes(a) for a in w]
    touched = [False] * len(tries)
    for i, k in enumerate(kinds):
        if k >= 3:      # without any node yet
            t.e("void", i=i + 1, nv=tries[i].num_vertices(), ne=tries[i].num_edges())

    def show(i):
        g = tries[i]
        t.e("tree", i=i + 1, m=autom.encode(g, codes), nv=g.num_vertices(), ne=g.num_edges())

    for op in case["ops"]:
        i = op[1]
        g = tries[i]
        if op[0] == "w":
            w = word(op[2])
            t.e("insert", i=i + 1, w=cw(w))
            if isinstance(g, Trie) and rng.random() < .7:
                g.insert(w)
            else:
                r = g.automaton_insert_string(w) if rng.random() < .5 else automaton_insert_string(g, w)
                num = autom.renumber(g)
                t.e("reached", m=autom.encode(g, codes), w=cw(w), q=num.get(r, -1))
            touched[i] = True
        elif op[0] == "s":
            w = word(op[2])
            if not touched[i] and kinds[i] >= 3:
                continue
            t.e("insert", i=i + 1, w=cw(w))
            d = DigitalSequence(w)
            if isinstance(g, Trie) and rng.random() < .7:
                g.insert(d)
            else:
                trie_deterministic_fusion(g, d)
        else:
            j = op[2]
            if any(not touched[k] and kinds[k] >= 3 for k in (i, j)):
                continue
            t.e("merge", i=i + 1, j=j + 1)
            if isinstance(g, Trie) and rng.random() < .7:
                g.insert(tries[j])
            else:
                trie_deterministic_fusion(g, tries[j])
            show(j)
        if rng.random() < case["look"]:
            show(i)
    for i in range(len(tries)):
        if touched[i] or kinds[i] < 3:
            show(i)
            for _ in range(4):
                w = word([rng.randrange(3) for _ in range(rng.randrange(0, 5))])
                t.e("accepts", i=i + 1, w=cw(w), r=t.bits(tries[i].accepts(w)))


def record_seq(case, t):
    from pybgl.digital_sequence import DigitalSequence
    w = word(case["w"])
    codes = autom.Codes(CH)
    t.init = dict(n=0)
    d = DigitalSequence(w)
    ids = listing(d.vertices())
    num = {u: i + 1 for i, u in enumerate(ids)}
    nn = lambda q: 0 if q is None else num.get(q, -1)
    tr = lambda e: [nn(d.source(e)), codes(d.label(e)), nn(d.target(e))]

    def show():
        t.e("sequence", w=[codes(a) for a in w], m=autom.encode(d, codes), nv=d.num_vertices(), ne=d.num_edges(),
            all=[tr(e) for e in listing(d.edges())], alphabet=[codes(a) for a in listing(d.alphabet())],
            finals=[nn(q) for q in listing(d.finals())], complete=t.bits(d.is_complete()),
            deltas=[[nn(q), codes(a), nn(d.delta(q, a))] for q in ids for a in CH[:3]] + [[0, codes(a), nn(d.delta(None, a))] for a in CH[:2]],
            sigma=[[codes(a) for a in listing(d.sigma(q))] for q in ids],
            edge=[[nn(q), codes(a), nn(r), t.bits(d.edge(q, r, a)[1])] for q in ids[:4] for r in ids[:5] for a in CH[:2]],
            runs=[dict(**{"from": nn(q)}, w=[codes(a) for a in v], to=nn(d.delta_word(q, v)), acc=t.bits(d.accepts(v)),
                       best=(lambda x: [nn(x[0]), x[1]])(d.delta_best_effort(v)))
                  for q, v in [(ids[i % len(ids)], word(v)) for i, v in enumerate(case["runs"])] + [(ids[0], w), (ids[0], w[:-1])]],
            **{"in": [tr(e) for q in ids for e in listing(d.in_edges(q)) if d.target(e) == q]})
    show()
    for f in (lambda: d.insert("a"), lambda: d.add_edge(0, 1, "a"), lambda: d.add_vertex(), lambda: d.remove_vertex(0),
              lambda: d.remove_edge(next(iter(d.edges()))), lambda: d.set_initial(len(w)), lambda: d.set_final(0)):
        try:
            f()
            r = 0
        except Exception:
            r = 1
        t.e("refused", r=r)
    show()


def random_history(rng, slots, ops, L, m):
    kinds = [rng.choice([0, 0, 0, 1, 2, 3, 4]) for _ in range(slots)]
    rw = lambda: [rng.randrange(L) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, m]))]
    out = []
    base = [rw() for _ in range(4)]
    for _ in range(rng.randrange(1, ops + 1)):
        r, i = rng.random(), rng.randrange(slots)
        w = rw() if rng.random() < .5 else (lambda b: b[:rng.randrange(len(b) + 1)] + rw()[:2])(rng.choice(base))
        out.append(["w", i, w] if r < .55 else ["s", i, w] if r < .7 else ["m", i, rng.randrange(slots)])
    out.insert(0, ["w", 0, rw()])
    return dict(kinds=kinds, ops=out, look=rng.choice([0, .3, 1]), seed=rng.randrange(1 << 30))


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("TreesOK", "FromUntouched")
    jobs = [dict(module="TrieModel", constants=dict(L="{1,2}", MaxLen=2, Ops=3, SelfMerge="TRUE"), invariants=inv, properties=("Ends",), workers=4)]
    if big:
        jobs.append(dict(module="TrieModel", constants=dict(L="{1,2}", MaxLen=2, Ops=5, SelfMerge="TRUE"), invariants=inv, workers=4))
        jobs.append(dict(module="TrieModel", constants=dict(L="{1,2}", MaxLen=3, Ops=4, SelfMerge="FALSE"), invariants=inv, workers=4))
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    words = [list(w) for k in range(3) for w in itertools.product(range(2), repeat=k)]
    ops = [["w", i, w] for i in range(2) for w in words] + [["s", 0, w] for w in words] + [["m", 0, 1], ["m", 1, 0], ["m", 0, 0]]
    hist = [[a, b, c] for a in ops for b in ops for c in (["m", 0, 1], ["m", 1, 0], ["w", 0, [0, 1]])]
    if not big:
        hist = rng.sample(hist, 500)
    ctx.exhaustive_notes.append("%s histories of three operations (words of length at most 2 over 2 letters, sequences, merges) on two tries" % ("all" if big else "500 of the"))
    ctx.conform("TrieTrace", record, [dict(kinds=[rng.choice([0, 0, 1, 2]), 0], ops=h, look=1, seed=rng.randrange(1 << 30)) for h in hist], "small-histories")
    k = ctx.scale((900, 250), (10000, 3000))
    cases = [random_history(rng, s, o, L, m) for c, (s, o, L, m) in zip(k, ((2, 8, 3, 5), (3, 25, 3, 8))) for _ in range(c)]
    ctx.conform("TrieTrace", record, cases, "random-histories")
    deep = []
    for i in range(ctx.scale(3, 12)):       # words far longer than the interpreter's recursion limit
        w = [rng.randrange(3) for _ in range(1100)]
        v = w[:rng.randrange(1, 1100)] + [rng.randrange(3) for _ in range(20)]
        deep.append(dict(kinds=[i % 3, 0], ops=[["w", 0, w], [["s", "w"][i % 2], 1, v], ["m", 0, 1], ["m", 1, 0], ["w", 0, w[1:]]], look=0, seed=rng.randrange(1 << 30)))
    ctx.conform("TrieTrace", record, deep, "deep-tries")
    seqs = [list(w) for n in range(5 if big else 4) for w in itertools.product(range(3), repeat=n)]
    seqs += [[rng.randrange(4) for _ in range(rng.randrange(4, 12))] for _ in range(ctx.scale(60, 600))]
    cases = [dict(w=w, runs=[[rng.randrange(3) for _ in range(rng.randrange(0, 4))] for _ in range(5)] + [w[:rng.randrange(len(w) + 1)] for _ in range(2)]) for w in seqs]
    ctx.exhaustive_notes.append("every digital sequence of length at most %d over 3 letters" % (4 if big else 3))
    ctx.conform("TrieTrace", record_seq, cases, "digital-sequences")
