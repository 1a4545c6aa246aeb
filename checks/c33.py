"""C33: chains of language operations on automata."""
import random
from . import autom
from .c16 import build_nfa, encode_nfa, random_nfa
from .c17 import random_term, render, reps
from .graphs import listing

LETTERS = ["a", "b", "c", "d"]


def record(case, t):
    from pybgl.automaton import Automaton
    from pybgl.automaton_copy import automaton_copy
    from pybgl.deterministic_inclusion import deterministic_inclusion
    from pybgl.deterministic_intersection import deterministic_intersection
    from pybgl.deterministic_union import deterministic_union
    from pybgl.digital_sequence import DigitalSequence
    from pybgl.hopcroft_minimize import hopcroft_minimize
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.moore_determination import moore_determination
    from pybgl.nfa import Nfa
    from pybgl.prune_incidence_automaton import prune_incidence_automaton
    from pybgl.regexp import compile_dfa, compile_nfa
    from pybgl.revuz_minimize import revuz_minimize
    from pybgl.trie import Trie, trie_deterministic_fusion
    import sys
    from collections import defaultdict
    from pybgl import thompson_compile_nfa as _     # the function hides the module of the same name
    from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search
    from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search_graph
    from pybgl.parallel_breadth_first_search import parallel_breadth_first_search
    from pybgl.prune_incidence_automaton import find_reachable_vertices
    from pybgl.property_map import make_assoc_property_map
    from pybgl.suffix_trie import make_suffix_trie
    from pybgl.trie_matching import trie_matching
    T = sys.modules["pybgl.thompson_compile_nfa"]
    codes = autom.Codes(LETTERS)
    rng = random.Random(case["seed"])
    word = lambda w: "".join(LETTERS[a] for a in w)
    cw = lambda w: [a + 1 for a in w]

    def make(c):
        k = c["kind"]
        if k == "dfa":
            return autom.build(c)[0]
        if k == "nfa":
            return build_nfa(dict(c, labels=LETTERS))[0]
        if k == "regex":
            return compile_nfa(c["x"]) if c["how"] == 0 else compile_dfa(c["x"], complete=c["how"] == 1)
        if k == "word":
            return DigitalSequence(word(c["w"]))
        g = Trie()
        for w in c["words"]:
            g.insert(word(w))
        return g

    def enc(g):
        if isinstance(g, Nfa):
            return dict(encode_nfa(g, codes), nd=1)
        m = autom.encode(g, codes)
        return dict(m, nd=0, ini=[m["ini"]] if m["ini"] > 0 else [])

    slots = [make(c) for c in case["new"]]
    t.init = dict(all=[enc(g) for g in slots])
    nfa = lambda i: isinstance(slots[i], Nfa)
    tree = lambda i: isinstance(slots[i], Trie) and not seq(i)
    grows = lambda i: tree(i) and not any(slots[i] is g for g in fixed)
    fixed = []          # suffix tries: all their states are final for good
    seq = lambda i: isinstance(slots[i], DigitalSequence)
    inc = lambda i: isinstance(slots[i], IncidenceAutomaton)
    size = lambda i: slots[i].num_vertices()

    def see(op, i, **kw):
        t.e(op, i=i + 1, all=[enc(g) for g in slots], **kw)

    def live(i):
        return nfa(i) or slots[i].initial() is not None and slots[i].initial() in set(slots[i].vertices())

    def acyclic(g):
        seen = {}

        def go(u):
            if seen.get(u) == 1:
                return False
            if u in seen:
                return True
            seen[u] = 1
            ok = all(go(g.target(e)) for e in listing(g.out_edges(u)))
            seen[u] = 2
            return ok
        return all(go(u) for u in listing(g.vertices()))

    ends = lambda g: (g, next(iter(g.initials)), next(q for q in listing(g.vertices()) if g.is_final(q)))

    def fragment(i):
        """One initial and one final state: what Thompson's combinators work on."""
        g = slots[i]
        return nfa(i) and len(set(g.initials)) == 1 == sum(1 for q in listing(g.vertices()) if g.is_final(q)) and g.epsilon == "ε"

    def look(j, k, r):
        """Something that only reads."""
        h, f = slots[j], slots[k]
        q = next(iter(listing(h.vertices())), None)
        if q is None:
            return
        x = r % 8
        if x == 0:
            h.to_dot()
        elif x == 1:
            listing(h.edges()), h.num_edges(), h.num_vertices(), h.alphabet(), h.sigma(q), h.delta(q, "a")
        elif x == 2 and not nfa(j) and not nfa(k) and live(j) and live(k):
            trie_matching(h, f)
        elif x == 3 and not nfa(j) and not nfa(k) and live(j) and live(k):
            parallel_breadth_first_search(h, f)
        elif x == 4 and not nfa(j):
            depth_first_search_graph(h, vis=DefaultDepthFirstSearchVisitor(), pmap_vcolor=make_assoc_property_map(defaultdict(int)))
        elif x == 5 and not nfa(j):
            breadth_first_search(q, h, make_assoc_property_map(defaultdict(int)), DefaultBreadthFirstSearchVisitor())
        elif x == 6 and nfa(j):
            moore_determination(h)
        elif x == 7 and not nfa(j) and live(j):
            h.delta_best_effort("ab"), h.accepts("ba"), list(find_reachable_vertices(h, {q}))
    for i, c in enumerate(case["new"]):
        see("word" if c["kind"] == "word" else "given", i, w=cw(c.get("w", [])))
    for name, i, j, k, r in case["ops"]:
        g, h = slots[i], slots[j]
        if name == "make":
            c = case["more"][r % len(case["more"])]
            slots[i] = make(c)
            see("word" if c["kind"] == "word" else "given", i, w=cw(c.get("w", [])))
        elif name == "moore" and nfa(j):
            kw = {} if r % 3 == 0 else dict(dfa=(Automaton if r % 3 == 1 else IncidenceAutomaton)())
            slots[i] = moore_determination(h, complete=bool(r // 3 % 2), **kw)
            see("same", i, j=j + 1)
        elif name in ("or", "and") and not nfa(j) and not nfa(k) and live(j) and live(k) and size(j) * size(k) <= 80:
            kw = {} if r % 3 == 0 else dict(g12=(Automaton if r % 3 == 1 else IncidenceAutomaton)())
            slots[i] = (deterministic_union if name == "or" else deterministic_intersection)(h, slots[k], **kw)
            see(name, i, j=j + 1, k=k + 1)
        elif name == "hop" and inc(j) and live(j):
            slots[i] = hopcroft_minimize(h)
            see("same", i, j=j + 1)
        elif name == "prune" and inc(i) and live(i):
            prune_incidence_automaton(g)
            see("same", i, j=i + 1)
        elif name == "revuz" and inc(i) and live(i) and acyclic(g):
            revuz_minimize(g)
            see("same", i, j=i + 1)
        elif name == "copy" and not nfa(j) and live(j):
            d = (IncidenceAutomaton if r % 4 else Automaton)(0)
            m = {}

            def dup(u, g1, v, g2):
                m[u] = v
                if g1.is_final(u):
                    g2.set_final(v)
            automaton_copy(h.initial(), h, d, callback_dup_vertex=dup)
            d.set_initial(m[h.initial()])
            slots[i] = d
            see("same", i, j=j + 1)
        elif name == "plus" and grows(i):
            w = [r // 4 ** n % 4 for n in range(r % 5)]
            g.insert(word(w))
            see("plus", i, w=cw(w))
        elif name == "fuse" and grows(i) and i != j and (tree(j) or seq(j)):
            g.insert(h) if r % 2 else trie_deterministic_fusion(g, h)
            see("fuse", i, j=j + 1)
        elif name in ("add", "del", "final") and not tree(i) and not seq(i):
            num = autom.renumber(g)
            if not num:
                continue
            q, p, a = rng.choice(list(num)), rng.choice(list(num)), LETTERS[r % 3]
            if name == "final":
                b = rng.random() < .6
                g.set_final(q, b)
                see("final", i, q=num[q], b=int(b))
            elif name == "add":
                if nfa(i) and r % 5 == 0:
                    a = g.epsilon
                if nfa(i) or g.delta(q, a) is None:
                    g.add_edge(q, p, a)
                    see("add", i, t=[num[q], 0 if nfa(i) and a == g.epsilon else codes(a), num[p]])
            else:
                es = listing(g.out_edges(q))
                if es:
                    e = rng.choice(es)
                    a = g.label(e)
                    p = g.target(e)
                    g.remove_edge(e)
                    see("del", i, t=[num[q], 0 if nfa(i) and a == g.epsilon else codes(a), num[p]])
        elif name == "incl" and not nfa(j) and not nfa(k) and live(j) and live(k):
            x = deterministic_inclusion(h, slots[k])
            see("incl", i, j=j + 1, k=k + 1, r=9 if x is None else x)
        elif name == "accepts":
            if live(j):
                w = [r // 4 ** n % 3 for n in range(r % 6)]
                x = t.bits(h.accepts(word(w)))
                see("accepts", i, j=j + 1, w=cw(w), r=x)
        elif name in ("cat", "alt") and i != j and fragment(i) and fragment(j) and size(i) + size(j) <= 60:
            slots[i] = (T.concatenation if name == "cat" else T.alternation)(*ends(g), *ends(h))[0]
            see(name, i, j=j + 1)
        elif name == "star" and fragment(i) and size(i) <= 60:
            slots[i] = T.zero_or_more(*ends(g))[0]
            see("star", i)
        elif name == "factors" and seq(j) and size(j) <= 12:
            slots[i] = make_suffix_trie(h.w)
            fixed.append(slots[i])
            see("factors", i, w=[codes(a) for a in h.w])
        elif name == "look":
            look(j, k, r)
            see("look", i)


def random_expression(rng):
    while True:
        x = random_term(rng, "abc"[:rng.choice([2, 3])], rng.randrange(1, 6), 0)
        if reps(x) <= 6:
            return render(rng, x, 0)


def one(rng):
    x = rng.random()
    if x < .35:
        m = autom.random_dfa(rng, 4, 3, acyclic=rng.random() < .4)
        return dict(autom.arrange(rng, autom.decorate(rng, m, "AII", 1)), kind="dfa", how=rng.randrange(2), pool=0)
    if x < .5:
        m = random_nfa(rng, 4, 2, 7)
        if not m["ini"]:
            m["ini"] = [0]
        return dict(m, kind="nfa", gaps=rng.choice([0, 0, 1]), how=rng.randrange(2), eps=rng.choice([None, None, "EPS"]), seed=rng.randrange(1 << 30))
    if x < .7:
        return dict(kind="regex", x=random_expression(rng), how=rng.randrange(3))
    rw = lambda m: [rng.randrange(rng.choice([2, 3])) for _ in range(rng.randrange(0, m))]
    if x < .8:
        return dict(kind="word", w=rw(5))
    return dict(kind="words", words=[rw(5) for _ in range(rng.randrange(0, 5))])


NAMES = ["moore", "moore", "or", "and", "or", "and", "hop", "hop", "prune", "revuz", "copy", "copy", "plus", "fuse", "add", "del", "final", "incl", "accepts", "make", "cat", "cat", "alt", "star", "factors", "look", "look"]


def random_case(rng, ops):
    n = rng.randrange(2, 5)
    if rng.random() < .25:         # tries and words mostly
        names = NAMES + ["plus", "fuse"] * 6
        pick = lambda: next(c for c in iter(lambda: one(rng), None) if c["kind"] in ("word", "words") or rng.random() < .1)
    else:
        names, pick = NAMES, lambda: one(rng)
    new, more = [pick() for _ in range(n)], [one(rng) for _ in range(3)]
    for c in (new, more):          # the same description twice: two automata
        if rng.random() < .3:
            c[rng.randrange(len(c))] = rng.choice(new)
    return dict(new=new, more=more, seed=rng.randrange(1 << 30),
                ops=[[rng.choice(names), rng.randrange(n), rng.randrange(n), rng.randrange(n), rng.randrange(1 << 16)] for _ in range(rng.randrange(2, ops + 1))])


def run(ctx):
    big = ctx.tier == "thorough"
    m = lambda **c: dict(module="StoreModel", constants=c, invariants=("StoreOK", "CompareOK", "BuildOK"), workers=4)
    jobs = [m(N=2, L="{1}", B=4, Steps=2, MaxStates=6), m(N=1, L="{1,2}", B=3, Steps=3, MaxStates=4)]
    if big:
        jobs = [m(N=2, L="{1}", B=6, Steps=3, MaxStates=12), m(N=2, L="{1,2}", B=4, Steps=1, MaxStates=6)]
    ctx.models_parallel(jobs, timeout=840)
    n = ctx.scale((2400, 500), (25000, 6000))
    ctx.conform("StoreTrace", record, [random_case(ctx.rng, 10) for _ in range(n[0])] + [random_case(ctx.rng, 40) for _ in range(n[1])], "chains")
    ctx.assumptions.append("each operation is used as its own property allows: Hopcroft's and pruning on incidence automata with an initial state, Revuz' on acyclic ones, words inserted into and fused with tries only")
