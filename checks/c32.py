"""C32: the building blocks of Thompson's construction."""
import random
from . import autom
from .c16 import build_nfa, encode_nfa
from .graphs import listing


def record(case, t):
    from pybgl import thompson_compile_nfa as _     # the function hides the module of the same name
    import sys
    J = sys.modules["pybgl.thompson_compile_nfa"]
    rng = random.Random(case["seed"])
    codes = autom.Codes(["a", "b", "c"])
    slots = []

    def enc(s):
        g, i, f = s
        x = encode_nfa(g, codes)
        num = autom.renumber(g)
        del x["ids"]
        return dict(x, i=num.get(i, -1), f=num.get(f, -1))

    def fragment(c):
        if c["kind"] == "lit":
            return J.literal(c["a"])
        if c["kind"] == "set":
            return J.bracket(set(c["a"]) if rng.random() < .5 else iter(c["a"]))
        g, _ = build_nfa(dict(c, labels=["a", "b", "c"]))
        return g, next(iter(g.initials)), [q for q in g.vertices() if g.is_final(q)][0]
    slots = [J.literal("a") for _ in case["new"]]
    show = lambda: [enc(s) for s in slots]
    t.init = dict(fr=show())
    for k, c in enumerate(case["new"]):
        slots[k] = fragment(c)
        if c["kind"] == "nfa":
            t.e("new", i=k + 1, fr=show())
        else:
            t.e("chars", i=k + 1, c=[codes(a) for a in c["a"]], fr=show())
    frag = [True] * len(slots)
    for op in case["ops"]:
        i = op[1]
        if op[0] == "again":      # a fresh fragment
            slots[i] = fragment(op[2])
            frag[i] = True
            if op[2]["kind"] == "nfa":
                t.e("new", i=i + 1, fr=show())
            else:
                t.e("chars", i=i + 1, c=[codes(a) for a in op[2]["a"]], fr=show())
            continue
        if not frag[i] or op[0] in ("cat", "alt") and not frag[op[2]]:
            continue
        g, q0, f = slots[i]
        if g.num_vertices() > case["max"]:
            continue
        if op[0] == "cat":
            slots[i] = J.concatenation(*slots[i], *slots[op[2]])
            t.e("cat", i=i + 1, j=op[2] + 1, fr=show())
        elif op[0] == "alt":
            slots[i] = J.alternation(*slots[i], *slots[op[2]])
            t.e("alt", i=i + 1, j=op[2] + 1, fr=show())
        elif op[0] == "rep":
            m, n, how = op[2:]
            if how and (m, n) == (0, 1):
                slots[i] = J.zero_or_one(g, q0, f)
            elif how and (m, n) == (0, -1):
                slots[i] = J.zero_or_more(g, q0, f)
            elif how and (m, n) == (1, -1):
                slots[i] = J.one_or_more(g, q0, f)
            elif how and m == n:
                slots[i] = J.repetition(g, q0, f, m)
            else:
                slots[i] = J.repetition_range(g, q0, f, m, None if n == -1 else n)
            t.e("rep", i=i + 1, m=m, n=n, fr=show())
        elif op[0] == "insert":
            j = op[2]
            h = slots[j][0]
            olds, news = list(autom.renumber(g)), list(autom.renumber(h))
            pre, pn = {}, []
            if op[3] and olds and news:
                for _ in range(op[3]):
                    a, b = rng.randrange(len(news)), rng.randrange(len(olds))
                    if news[a] not in pre:
                        pre[news[a]] = olds[b]
                        pn.append([a + 1, b + 1])
            r = J.insert_automaton(g, h, dict(pre)) if pre else J.insert_automaton(g, h) if rng.random() < .7 else J.insert_automaton(g, h, None)
            num = autom.renumber(g)
            frag[i] = False
            t.e("insert", i=i + 1, j=j + 1, pre=pn, at=[num.get(q, -1) for q in olds], map=[num.get(r.get(q), -1) for q in news], fr=show())
        elif op[0] == "word":
            w = "".join("abc"[a] for a in op[2])
            t.e("accepts", i=i + 1, w=[codes(a) for a in w], r=t.bits(g.accepts(w)))


def fragment_case(rng, L):
    x = rng.random()
    if x < .3:
        return dict(kind="lit", a="abc"[rng.randrange(L)])
    if x < .45:
        return dict(kind="set", a="".join(c for c in "abc"[:L] if rng.random() < .6))
    n = rng.randrange(1, 4)
    tr = {(rng.randrange(n), rng.randrange(n), rng.choice([-1, *range(L)])) for _ in range(rng.randrange(0, 5))}
    return dict(kind="nfa", n=n, tr=[list(x) for x in sorted(tr)], ini=[rng.randrange(n)], fin=[rng.randrange(n)], gaps=rng.choice([0, 0, 1, 2]),
                how=rng.choice([0, 0, 1]), eps=rng.choice([None, None, None, "", "EPS"]), seed=rng.randrange(1 << 30))


REPS = [(0, 1), (0, -1), (1, -1), (0, 0), (1, 1), (2, 2), (3, 3), (0, 2), (1, 2), (2, 3), (0, 3), (1, 3), (2, -1), (3, -1)]


def random_case(rng, ops, cap):
    L = rng.choice([1, 2, 2, 3])
    k = rng.randrange(2, 4)
    out = []
    for _ in range(rng.randrange(1, ops + 1)):
        i, j = rng.sample(range(k), 2)
        x = rng.random()
        if x < .25:
            out.append(["cat", i, j])
        elif x < .5:
            out.append(["alt", i, j])
        elif x < .75:
            out.append(["rep", i, *rng.choice(REPS), rng.randrange(2)])
        elif x < .82:
            out.append(["insert", i, j, rng.choice([0, 0, 1, 2])])
        elif x < .9:
            out.append(["again", i, fragment_case(rng, L)])
        else:
            out.append(["word", i, [rng.randrange(L) for _ in range(rng.randrange(0, 6))]])
    return dict(new=[fragment_case(rng, L) for _ in range(k)], ops=out, max=cap, seed=rng.randrange(1 << 30))


def small_cases(ctx):
    """Every fragment of two states over one letter, repeated in every way and next to another one."""
    import itertools
    slots = [(q, r, a) for q in range(2) for r in range(2) for a in (-1, 0)]
    cases = []
    for n, ch in enumerate(itertools.product((0, 1), repeat=8)):
        for i, f in ((0, 1), (0, 0)):
            c = dict(kind="nfa", n=2, tr=[list(s) for s, b in zip(slots, ch) if b], ini=[i], fin=[f], seed=n)
            ops = []
            for r, (m, k) in enumerate(REPS):
                if ctx.tier == "thorough" or (n + r) % 7 == 0:
                    ops += [["rep", 0, m, k, (n + r) % 2], ["again", 0, c]]
            for d in ("cat", "alt"):
                ops += [[d, 0, 1], [d, 1, 0], ["again", 0, c], ["again", 1, dict(kind="lit", a="b")]]
            cases.append(dict(new=[c, dict(kind="lit", a="b")], ops=ops, max=60, seed=n))
    ctx.exhaustive_notes.append("every fragment with 2 states over 1 letter and the empty word: concatenated and united with a literal in both orders, and %s" %
                                ("repeated in %d ways" % len(REPS) if ctx.tier == "thorough" else "repeated in 2 of %d ways each" % len(REPS)))
    return cases


def run(ctx):
    big = ctx.tier == "thorough"
    m = lambda **c: dict(module="FragmentModel", constants=c, invariants=("Denotes",), workers=4)
    jobs = [m(N=2, L="{1}", B=4, Steps=1, MaxRep=3), m(N=1, L="{1,2}", B=3, Steps=2, MaxRep=2)]
    if big:
        jobs = [m(N=2, L="{1}", B=5, Steps=2, MaxRep=2), m(N=2, L="{1,2}", B=3, Steps=1, MaxRep=2)]
    ctx.models_parallel(jobs, timeout=840)
    ctx.conform("FragmentTrace", record, small_cases(ctx), "small-fragments")
    n = ctx.scale((2000, 300), (20000, 3000))
    cases = [random_case(ctx.rng, 6, 14) for _ in range(n[0])] + [random_case(ctx.rng, 10, 24) for _ in range(n[1])]
    ctx.conform("FragmentTrace", record, cases, "random-combinations")
    ctx.assumptions.append("a fragment is combined with another one, not with itself; its states q0 and f are the only initial and final ones")
