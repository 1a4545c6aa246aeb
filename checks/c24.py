"""C24: edit distances."""
import itertools

CH = "abcdé0 A"


def word(w, shift=0):
    return "".join(CH[(a + shift) % len(CH)] for a in w)


def record(case, t):
    from pybgl.damerau_levenshtein_distance import DamerauLevenshteinDistance, damerau_levenshtein_distance, damerau_levenshtein_distance_naive
    from pybgl.lcs_distance import LcsDistance, lcs_distance, lcs_distance_naive
    from pybgl.levenshtein_distance import LevenshteinDistance, levenshtein_distance, levenshtein_distance_naive
    x, y = (word(w, case.get("shift", 0)) for w in (case["x"], case["y"]))
    t.init = dict(x=[ord(c) for c in x], y=[ord(c) for c in y])
    small = len(x) + len(y) <= 9
    for kind, f, naive, cls in (("lev", levenshtein_distance, levenshtein_distance_naive, LevenshteinDistance),
                                ("lcs", lcs_distance, lcs_distance_naive, LcsDistance),
                                ("osa", damerau_levenshtein_distance, damerau_levenshtein_distance_naive, DamerauLevenshteinDistance)):
        t.e("distance", kind=kind, r=f(x, y), swapped=f(y, x), naive=naive(x, y) if small else -1, same=[f(x, x), f(y, y)])
        if case.get("rests"):
            d = cls(x, y)
            for i, j in case["rests"]:
                t.e("rest", kind=kind, i=i, j=j, r=d.compute() if i == j == 0 else d.compute(i, j))


def related(rng, w, k, n):
    w = list(w)
    for _ in range(n):
        r, i = rng.random(), rng.randrange(len(w) + 1)
        if r < .25:
            w.insert(i, rng.randrange(k))
        elif w and r < .5:
            del w[i % len(w)]
        elif w and r < .75:
            w[i % len(w)] = rng.randrange(k)
        elif i + 1 < len(w):
            w[i], w[i + 1] = w[i + 1], w[i]
    return w


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("Sound", "Tight", "Reaches", "Greedy", "Symmetric", "Metric")
    jobs = [dict(module="EditModel", constants=dict(L=l, MaxLen=n, MaxOps=3, Mode='"%s"' % m), invariants=inv, workers=3)
            for m in ("lev", "lcs", "osa") for l, n in ([("{1,2}", 4)] + ([("{1,2,3}", 4 if m != "osa" else 3)] if big else []))]
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    words = [list(w) for n in range(5 if big else 4) for w in itertools.product(range(2), repeat=n)]
    pairs = [dict(x=a, y=b) for a in words for b in words if a <= b]
    if big:
        w3 = [list(w) for n in range(4) for w in itertools.product(range(3), repeat=n)]
        pairs += [dict(x=a, y=b) for a in w3 for b in w3 if a <= b]
    ctx.exhaustive_notes.append("every pair of words of length at most %d over 2 letters" % (4 if big else 3) + (" and of length at most 3 over 3 letters" if big else ""))
    ctx.conform("EditTrace", record, pairs, "small-pairs")
    cases = []
    for n, m in zip(ctx.scale((1000, 150), (12000, 2000)), (7, 24)):
        for _ in range(n):
            k = rng.choice([2, 2, 3, 4, 8])
            x = [rng.randrange(k) for _ in range(rng.randrange(m + 1))]
            y = related(rng, x, k, rng.randrange(1, 5)) if rng.random() < .65 else [rng.randrange(k) for _ in range(rng.randrange(m + 1))]
            if rng.random() < .5:
                x, y = y, x
            rests = [[rng.randrange(len(x) + 1), rng.randrange(len(y) + 1)] for _ in range(3)] if rng.random() < .4 else []
            cases.append(dict(x=x, y=y, shift=rng.randrange(8), rests=rests))
    ctx.conform("EditTrace", record, cases, "random-pairs")
    cases = []
    for i in range(ctx.scale(6, 40)):       # together far longer than the interpreter's recursion limit
        x = [rng.randrange(3) for _ in range(1100)]
        j = rng.randrange(len(x))
        y = related(rng, x[j:j + rng.randrange(12)], 3, 3)
        cases.append(dict(x=y, y=x) if i % 2 else dict(x=x, y=y))
    ctx.conform("EditTrace", record, cases, "long-words")
    ctx.conform("EditTrace", record, [dict(x=x, y=related(rng, x, 4, 30)) for x in [[rng.randrange(4) for _ in range(120)] for _ in range(ctx.scale(2, 20))]], "long-pairs")
