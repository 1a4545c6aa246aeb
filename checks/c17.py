"""C17: regular expressions."""
import itertools
from . import autom
from .c16 import encode_nfa

SPECIAL = "()*+?.[]{}|\\"
ESCAPES = {7: "\\a", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v"}
SMALL = [list("ab"), list("abc"), list("0a "), list("a-b^"), list("b\nz9"), list("xyzA_\t"), list("(|*{\\]+"), ["a", "é", "ß"]]


def ordc(x):
    return ord(x) if isinstance(x, str) and len(x) == 1 else 1 << 21


# ------------------------------------------------------------------ rendering terms
def lit(c):
    if c in SPECIAL:
        return "\\" + c
    return ESCAPES.get(ord(c), c)


def in_bracket(c):
    if c in "]\\":
        return "\\" + c
    return c


def render_set(rng, t):
    return t[1]


def quant(rng, m, n):
    forms = []
    sp = lambda: rng.choice(["", "", "", " "])
    if (m, n) == (0, 1):
        forms += ["?", "?"]
    if (m, n) == (0, -1):
        forms += ["*", "*"]
    if (m, n) == (1, -1):
        forms += ["+", "+"]
    if m == n:
        forms.append("{%s%d%s}" % (sp(), m, sp()))
    forms.append("{%s%s%s,%s%s%s}" % (sp(), "" if m == 0 and rng.random() < .5 else m, sp(), sp(), "" if n < 0 else n, sp()))
    return rng.choice(forms)


def render(rng, t, level, extra=.1):
    """level 0: alternative, 1: concatenation, 2: quantified (atom)."""
    if t[0] == "set":
        s, own = t[1], 3
    elif t[0] == "cat":
        s, own = "".join(render(rng, x, 1 if i or len(t) < 3 else 1, extra) for i, x in enumerate(t[1:])), 1
    elif t[0] == "alt":
        s, own = "|".join(render(rng, x, 1, extra) for x in t[1:]), 0
    else:
        s, own = render(rng, t[1], rng.choice([2, 3]), extra) + quant(rng, t[2], t[3]), 2
    if own < level or rng.random() < extra:
        s = "(" + s + ")"
    return s


# ------------------------------------------------------------------ random terms
def random_class(rng, alpha):
    """The text of a bracket expression."""
    body, k = "", rng.choice([1, 1, 2, 2, 3])
    plain = [c for c in alpha if c not in "]\\-^\n\t[" and ord(c) > 31]
    letters = [c for c in plain if c.isalnum() and ord(c) < 128]
    for i in range(k):
        r = rng.random()
        if r < .2 and letters:
            a, b = sorted(rng.choice(letters + ["m", "5", "c"]) for _ in range(2))
            body += a + "-" + b
        elif r < .4:
            body += rng.choice(["\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\t", "\\n", "\\]", "\\*", "\\+", "\\(", "\\|", "\\?", "\\.", "\\[", "\\{", "\\}", "\\)"])
        elif plain:
            body += rng.choice(plain + ["z", "(", "|", "*", "+", "?", ".", ")", "{", "}"])
        else:
            body += "z"
    r = rng.random()
    if r < .08:
        body = "-" + body if body[0] != "-" else body
    elif r < .2:
        body = body + "-"
    elif r < .26:
        body = body + "^"
    return "[" + ("^" if rng.random() < .4 else "") + body + "]"


def random_set(rng, alpha, rich):
    r = rng.random()
    if r < 1 - rich:
        ok = [c for c in alpha if c not in "\\"]
        c = rng.choice(ok if r < .97 * (1 - rich) else ["Q"])
        return ["set", lit(c)]
    if r < 1 - rich / 4:
        return ["set", random_class(rng, alpha)]
    return ["set", rng.choice(["\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\n", "\\t", "\\a", "\\b", "\\f", "\\r", "\\v", "\\*", "\\(", "\\]", "\\{", "\\.", "\\|"])]


def random_term(rng, alpha, size, rich, depth=0):
    if size <= 1 or depth > 5:
        return random_set(rng, alpha, rich)
    r = rng.random()
    if r < .38:
        m, n = rng.choice([(0, 1), (0, -1), (1, -1), (0, 1), (0, -1), (2, 2), (1, 1), (0, 0), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 4), (2, -1), (3, -1), (3, 3)])
        return ["rep", random_term(rng, alpha, size - 1, rich, depth + 1), m, n]
    k = rng.choice([2, 2, 3])
    parts, left = [], size - 1
    for i in range(k):
        s = max(1, left // k + rng.randrange(-1, 2))
        parts.append(random_term(rng, alpha, s, rich, depth + 1))
    return ["cat" if r < .75 else "alt"] + parts


def reps(t):
    if t[0] == "set":
        return 1
    if t[0] == "rep":
        return reps(t[1]) * max(1, t[2] + 1, t[3])
    return sum(reps(x) for x in t[1:])


# ------------------------------------------------------------------ observing
def read_word(rng, w, as_list):
    return list(w) if as_list else w


def record(case, t):
    import string
    from pybgl.moore_determination import moore_determination
    from pybgl.regexp import compile_dfa, compile_nfa
    from pybgl.thompson_compile_nfa import thompson_compile_nfa
    x, alpha = case["x"], case["alphabet"]
    t.init = dict(x=[ord(c) for c in x], alphabet=[ord(c) for c in (alpha or string.printable)])
    if alpha is None:
        nfa = compile_nfa(x)
        ends = [int(len(set(nfa.initials)) == 1), int(sum(1 for q in nfa.vertices() if nfa.is_final(q)) == 1)]
        dfas = [compile_dfa(x) if case["complete"] == 0 and case["seed"] % 2 else compile_dfa(x, complete=bool(case["complete"]))]
    else:
        a = {0: list, 1: set, 2: "".join, 3: tuple}[case["seed"] % 4](alpha)
        r = thompson_compile_nfa(x, a)
        nfa = r[0]
        ends = [int(set(nfa.initials) == {r[1]}), int(set(q for q in nfa.vertices() if nfa.is_final(q)) == {r[2]})]
        dfas = [moore_determination(nfa, complete=c) for c in ((False, True) if case["complete"] == 2 else (bool(case["complete"]),))]
    t.e("nfa", m=encode_nfa(nfa, ordc), ends=ends)
    for d in dfas:
        t.e("dfa", m=autom.encode(d, ordc))
    for w in case["words"]:
        w = "".join(w)
        t.e("accepts", what="nfa", w=[ord(c) for c in w], r=t.bits(nfa.accepts(w)))
        t.e("accepts", what="dfa", w=[ord(c) for c in w], r=t.bits(dfas[0].accepts(w)))


def finish(rng, x, alpha):
    pool = (alpha or list("ab0 (-")) + ["Q"]
    words = ["".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))) for _ in range(3)]
    return dict(x=x, alphabet=alpha, words=words, complete=rng.choice([0, 0, 1, 2]), seed=rng.randrange(1 << 30))


def random_case(rng, size, rich, alpha, cap):
    while True:
        t = random_term(rng, alpha or list("abc01 (-*~"), size, rich)
        if reps(t) <= cap:
            return finish(rng, render(rng, t, 0, rng.choice([0, .1, .3])), alpha)


def counted(rng):
    """Repetition counts of two digits."""
    alpha = rng.choice(SMALL[:2])
    x = random_term(rng, alpha, rng.choice([1, 1, 1, 2]), .1)
    while reps(x) > 2:
        x = random_set(rng, alpha, .1)
    m = rng.choice([0, 1, 2, 9, 10, 11, 12, 15, 20, 23])
    n = rng.choice([m, m, -1, -1, m + 1, m + 10, m + 12, 2 * m, m + rng.randrange(16)])
    t = ["rep", x, m, n]
    if rng.random() < .5:
        y = random_term(rng, alpha, 2, .1)
        t = rng.choice([["cat", t, y], ["cat", y, t], ["alt", y, t]]) if reps(y) < 6 else t
    c = finish(rng, render(rng, t, 0, .1), alpha)
    c["words"] = [[rng.choice(alpha[:1] * 6 + alpha)] * k for k in {max(0, m - 1), m, m + 1, max(n, 0), n + 1, m + 11}]
    return c


def small_terms(big):
    """Every term over two letters with at most two quantifiers around or inside one operator."""
    q = [(0, 1), (0, -1), (1, -1), (0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (2, 3), (2, -1), (0, 3)]
    lits = [["set", "a"], ["set", "b"]]
    one = lits + [["rep", x, m, n] for x in lits for m, n in q]
    two = [[o, x, y] for o in ("cat", "alt") for x in one for y in one]
    yield from one
    yield from two
    for x in two if big else two[::7]:
        for m, n in q:
            yield ["rep", x, m, n]
    for x in one[2:]:
        for m, n in q:
            yield ["rep", x, m, n]
            yield ["cat", ["rep", x, m, n], ["set", "b"]]


QUANTS = ["*", "+", "?", "{2}", "{0}", "{1,}", "{,2}", "{1,2}", "{ 1 , 2 }", "{,}"]
ATOMS = ["a", "b", "\\*", "\\(", "\\)", "\\d", "\\n", "[ab]", "[^a]", "[a-c]", "[(]", "[)|]", "[\\]]", "\\{", "z"]
ILL = ["[z-a]", "[]", "{2,1}", "\\q", "\\Z", "\\A", "\\B", "[\\q]", "[\\Z]", "{x}", "{1,2,3}", "[^b-a]", "\\u", "\\1", "\\e", "{-1}", "{;}", "[a-b9-3]"]


def record_form(case, t):
    """Sequences of tokens: is the text compiled or refused?"""
    import random
    from pybgl.regexp import compile_dfa, compile_nfa
    from pybgl.thompson_compile_nfa import thompson_compile_nfa
    t.init = dict(none=0)
    rng = random.Random(case["seed"])
    for k in case["kinds"]:
        x = "".join(rng.choice({1: ["("], 2: [")"], 3: QUANTS, 4: ["|"], 5: ATOMS, 6: ILL}[a]) for a in k)
        for what, f in rng.sample([("nfa", lambda: compile_nfa(x)), ("dfa", lambda: compile_dfa(x)), ("thompson", lambda: thompson_compile_nfa(x, "abz12"))], 1):
            if what == "dfa" and k.count(3) > 3:
                continue
            try:
                f()
                r = 1
            except Exception:
                r = 0
            t.e("compiled", what=what, x=x, kinds=k, r=r)
    t.e("compiled", what="nfa", x="", kinds=[], r=1)


def spoiled(rng):
    """A sequence of tokens that is an expression or nearly one."""
    def gen(n):
        if n <= 0:
            return [5]
        r = rng.random()
        if r < .3:
            return [1] + gen(n - 1) + [2]
        if r < .5:
            return gen(n - 1) + [3] if rng.random() < .5 else [5, 3] + gen(n - 2)
        k = rng.randrange(n)
        return gen(k) + ([4] if r < .75 else []) + gen(n - 1 - k)
    k = gen(rng.randrange(1, 9))
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
        i = rng.randrange(len(k) + 1)
        r = rng.random()
        if r < .4:
            k.insert(i, rng.choice([1, 1, 2, 2, 3, 4, 4, 5, 6]))
        elif r < .7 and k:
            del k[min(i, len(k) - 1)]
        elif k:
            k[min(i, len(k) - 1)] = rng.choice([1, 2, 3, 4, 5, 6])
    return k


def run(ctx):
    big = ctx.tier == "thorough"
    jobs = [dict(module="ThompsonModel", constants=dict(Sigma="{1,2}", K=5, MaxRep=2, SharedStates="FALSE"), invariants=("FragmentsOK",), constraint="Useful", workers=4)]
    if big:
        jobs.append(dict(module="ThompsonModel", constants=dict(Sigma="{1}", K=6, MaxRep=2, SharedStates="FALSE"), invariants=("FragmentsOK",), constraint="Useful", workers=4))
        jobs.append(dict(module="ThompsonModel", constants=dict(Sigma="{1,2}", K=6, MaxRep=1, SharedStates="FALSE"), invariants=("FragmentsOK",), constraint="Useful", workers=4))
    jobs.append(dict(module="FormModel", constants=dict(MaxLen=8 if big else 6, Eager="FALSE"), invariants=("Grammar", "Refuses"), workers=2))
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    terms = list(small_terms(big))
    if not big:
        terms = rng.sample(terms, 700)
    cases = [finish(rng, render(rng, t, 0, 0), ["a", "b"]) for t in terms]
    cases.append(finish(rng, "", ["a", "b"]))
    ctx.exhaustive_notes.append("%s terms over two letters with a quantifier under and over an operator" % ("all" if big else "700 of the"))
    ctx.conform("RegexTrace", record, cases, "small-terms")
    n1, n2, n3 = ctx.scale((700, 500, 40), (9000, 6000, 600))
    cases = [random_case(rng, rng.choice([3, 5, 8, 12]), .15, rng.choice(SMALL[:2]), 30) for _ in range(n1)]
    cases += [random_case(rng, rng.choice([1, 1, 2, 3, 4, 6]), .7, rng.choice(SMALL), 20) for _ in range(n2)]
    cases += [random_case(rng, rng.choice([1, 2, 3, 5]), .5, None, 8) for _ in range(n3)]
    cases += [counted(rng) for _ in range(ctx.scale(80, 1000))]
    ctx.conform("RegexTrace", record, cases, "random-expressions")
    every = [list(k) for n in range(1, 7 if big else 6) for k in itertools.product(range(1, 7), repeat=n)]
    if not big:
        every = [k for k in every if len(k) < 5] + rng.sample([k for k in every if len(k) == 5], 2500)
    cases = [dict(kinds=every[i:i + 40], seed=rng.randrange(1 << 30)) for i in range(0, len(every), 40)]
    cases += [dict(kinds=[spoiled(rng) for _ in range(20)], seed=rng.randrange(1 << 30)) for _ in range(ctx.scale(80, 1500))]
    ctx.exhaustive_notes.append("every sequence of up to %d kinds of tokens: compiled or refused" % (6 if big else 4))
    ctx.conform("RegexTrace", record_form, cases, "well-formed-or-refused")
    cases = []
    for i in range(ctx.scale(2, 12)):       # far longer or deeper than the interpreter's recursion limit
        n = rng.randrange(1050, 1150)
        parts = [rng.choice("abc") for _ in range(n)]
        if i % 4 == 0:
            marks = [rng.choice(["", "", "", "?"]) for _ in range(n)]
            x, w = "".join(p + m for p, m in zip(parts, marks)), "".join(parts)
        elif i % 4 == 1:
            x, w = "(" * n + "a" + ")" * n + "b", "ab"
        elif i % 4 == 2:
            x, w = "a{%d}b?" % n, "a" * n
        else:
            x, w = "".join(p + "(" for p in parts) + "c" + ")" * n, "".join(parts) + "c"
        cases.append(dict(x=x, alphabet=list("abc"), words=[w, w + "a", w[1:]], complete=i % 3, seed=i))
    ctx.conform("RegexTrace", record, cases, "deep-expressions", timeout=60)
