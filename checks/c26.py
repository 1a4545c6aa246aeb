"""C26: tokenization."""
import itertools, random, re
from fractions import Fraction
from . import c17


def codes(s):
    return [ord(c) for c in s]


def alternative(kind, chars):
    """The text of an alternative of a pattern, without the code under test."""
    if kind == 0:
        return "".join("\\U%08x" % c for c in chars)
    return "[" + "".join("\\U%08x" % c for c in chars) + "]" + ("+" if kind == 1 else "*")


def record(case, t):
    from pybgl.tokenize import TokenizeVisitor, tokenize
    s = "".join(chr(c) for c in case["s"])
    for p in case["patterns"]:
        tokenizer = re.compile("|".join(("(?:%s)" if len(p) % 2 else "(%s)") % alternative(k, q) for k, q in p))
        r, shown = [], [1]

        class Vis(TokenizeVisitor):
            def on_matched(self, matched, start, end, x):
                r.append([1, start, end, codes(matched)])
                shown[0] &= x == s

            def on_unmatched(self, unmatched, start, end, x):
                r.append([0, start, end, codes(unmatched)])
                shown[0] &= x == s
        tokenize(tokenizer, s, Vis())
        if case.get("blind"):
            tokenize(tokenizer, s)
        t.e("pieces", s=case["s"], p=p, r=r, shown=int(shown[0]))


SIGNS = {"u+": [2, 43], "u-": [2, 45]}


def record_texts(case, t):
    from pybgl.shunting_yard_postfix import catify, re_escape, tokenizer_alg, tokenizer_re
    for kind, s, cat in case["texts"]:
        if kind == "algebra":
            try:
                r = []
                for a in tokenizer_alg(s):
                    if isinstance(a, str):
                        r.append(SIGNS.get(a) or [1, ord(a)])
                    else:
                        f = Fraction(a).limit_denominator(1000)
                        r.append([0, f.numerator, f.denominator] if abs(f - Fraction(a)) < Fraction(1, 10 ** 9) else [4, 0])
            except RuntimeError:
                r = [[3, 0]]
            t.e("algebra", s=codes(s), r=r)
        elif kind == "regex":
            f = tokenizer_re if len(s) % 2 else catify
            r = f(s) if cat == "." and len(s) % 3 else f(s, cat) if len(s) % 4 < 2 else f(s, cat=cat)
            t.e("regex", s=codes(s), cat=ord(cat), r=[codes(a) for a in r])
        else:
            t.e("escape", s=codes(s), r=codes(re_escape(s)))


def number(rng):
    return rng.choice([lambda: "%d" % rng.randrange(1000), lambda: "%d" % rng.randrange(10), lambda: "%d.%d" % (rng.randrange(100), rng.randrange(100)),
                       lambda: ".%d" % rng.randrange(100), lambda: "%d." % rng.randrange(50), lambda: "0%d" % rng.randrange(10)])()


def algebra_text(rng, n):
    """Alternating operands and operators, with signs, parentheses and spaces, at times malformed."""
    sp = lambda: rng.choice(["", "", "", " ", "  ", "\t", "\n"])
    out, depth = "", 0
    for i in range(n):
        while rng.random() < .25:
            out += sp() + rng.choice(["(", "(", "+", "-"])
        if rng.random() < .04:
            out += sp() + rng.choice("*/^")
        out += sp() + number(rng) + sp()
        while rng.random() < .2:
            out += sp() + ")"
        if i < n - 1:
            out += sp() + rng.choice("^*/+-") + sp()
    return out


def run(ctx):
    big = ctx.tier == "thorough"
    consts = [dict(L="{1,2}", MaxLen=4, MaxAlt=2)] + ([dict(L="{1,2}", MaxLen=6, MaxAlt=2), dict(L="{1,2}", MaxLen=4, MaxAlt=3)] if big else [])
    ctx.models_parallel([dict(module="TokenizeModel", constants=dict(c, SkipRest="FALSE"), invariants=("Done", "Prefix"), properties=("Ends",), workers=4) for c in consts], timeout=840)
    rng = ctx.rng
    L = [97, 98]
    alts = [[0, list(w)] for n in range(3) for w in itertools.product(L, repeat=n)] + [[k, [c]] for k in (1, 2) for c in L] + [[1, L]]
    pats = [[a] for a in alts] + [[a, b] for a in alts for b in alts]
    words = [list(w) for n in range((6 if big else 4) + 1) for w in itertools.product(L, repeat=n)]
    cases = [dict(s=w, patterns=pats if big else rng.sample(pats, 40)) for w in words]
    ctx.exhaustive_notes.append("every word of length at most %d over two letters, %s patterns of one or two alternatives" % ((6, "all") if big else (4, "40 of the")))
    ctx.conform("TokenizeTrace", record, cases, "small-words")
    cases = []
    for _ in range(ctx.scale(400, 6000)):
        pool = rng.sample([97, 98, 99, 32, 40, 43, 46, 60, 62, 91, 92, 233, 8364, 10, 0, 9, 13, 8232, 65279, 128512], rng.randrange(1, 5))
        ps = []
        for _ in range(3):
            p = []
            for _ in range(rng.randrange(1, 5)):
                k = rng.choice([0, 0, 1, 1, 2])
                p.append([k, [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]) if k == 0 else rng.choice([1, 2]))]])
            ps.append(p)
        cases.append(dict(s=[rng.choice(pool + [rng.choice([120, 120, 0, 32, 10, 128512])]) for _ in range(rng.choice([0, 1, 3, 6, 12, 25]))], patterns=ps, blind=rng.randrange(2)))
    for i in range(ctx.scale(3, 20)):
        pool = [97, 98, 10, 8364]
        p = [[rng.choice([0, 0, 1]), [rng.choice(pool) for _ in range(rng.choice([1, 2]))]] for _ in range(3)]
        cases.append(dict(s=[rng.choice(pool) for _ in range(1500)], patterns=[p, [[1, pool[:3]]], [[0, [120]]]]))
    ctx.conform("TokenizeTrace", record, cases, "random-words")
    cases = []
    for _ in range(ctx.scale(500, 7000)):
        ts = [["algebra", algebra_text(rng, rng.choice([1, 1, 2, 3, 5])), ""] for _ in range(2)]
        for _ in range(2):
            a = rng.choice(c17.SMALL)
            x = c17.render(rng, c17.random_term(rng, a, rng.choice([1, 3, 5, 8]), .4), 0, rng.choice([0, .2, .4]))
            ts.append(["regex", x, rng.choice([".", ".", "\u00b7", "&"])])
        ts.append(["escape", "".join(rng.choice("ab0|[]{}.+*?()^$\\-/ \u00e9") for _ in range(rng.randrange(0, 9))), ""])
        cases.append(dict(texts=ts))
    for i in range(ctx.scale(2, 20)):
        while True:
            s = algebra_text(rng, 400)
            if len(s) > 1000:
                break
        x = c17.render(rng, c17.random_term(rng, rng.choice(c17.SMALL), 300, .4), 0, .2)
        cases.append(dict(texts=[["algebra", s, ""], ["regex", x, "."]]))
    ctx.conform("TokenizeTrace", record_texts, cases, "expressions")
