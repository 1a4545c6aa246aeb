"""C25: infix expressions under operator tables (shunting yard)."""
import itertools, random
from collections import deque
from fractions import Fraction
from .graphs import listing

ALG = {3: "u+", 4: "u-", 5: "^", 6: "*", 7: "/", 8: "+", 9: "-"}
RE = {3: "*", 4: "+", 5: "?", 6: ".", 7: "|"}
OPERANDS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
OPS = ["&", "@", "=", "<", ">", "~"]


class Ill(Exception):
    pass


def value(a):
    return Fraction(a - 100) if a < 20000 else Fraction(a - 20000, 8)


def bounded(tree):
    """Generators only: is the value exactly representable and small?"""
    def ev(t):
        if len(t) == 1:
            return value(t[0])
        x = ev(t[1])
        if len(t) == 2:
            return -x if t[0] == 4 else x
        y = ev(t[2])
        if t[0] == 5:
            if y.denominator != 1 or abs(y) > 6 or (x == 0 and y <= 0):
                raise Ill
            r = x ** int(y)
        elif t[0] == 7:
            if y == 0:
                raise Ill
            r = x / y
        else:
            r = x * y if t[0] == 6 else x + y if t[0] == 8 else x - y
        if abs(r.numerator) > 20000 or r.denominator > 20000:
            raise Ill
        return r
    return ev(tree)




def visitor(t_ev, tok):
    from pybgl.shunting_yard_postfix import DefaultShuntingYardVisitor

    class Vis(DefaultShuntingYardVisitor):
        def on_push_operator(self, o):
            t_ev.append([0, tok(o)])

        def on_pop_operator(self, o):
            t_ev.append([1, tok(o)])

        def on_push_output(self, a):
            t_ev.append([2, tok(a)])
    return Vis()


def record(case, t):
    from pybgl.shunting_yard_postfix import (
        MAP_OPERATORS_ALG, MAP_OPERATORS_RE, LEFT, RIGHT, Ast, Op, RpnDequeAlg, RpnDequeAst,
        shunting_yard_ast, shunting_yard_compute, shunting_yard_postfix)
    rng = random.Random(case["seed"])
    kind = case["table"]
    if kind == "own":
        names = {i + 3: OPS[i] for i in range(len(case["ops"]))}
        # only the order of the precedences counts
        level = rng.choice([lambda p: p, lambda p: p - 1, lambda p: p - 3, lambda p: 100 * p - 7, lambda p: p / 4, lambda p: (p - 2) * 1e3])
        table = {OPS[i]: Op(card, level(prec), RIGHT if right else LEFT) for i, (card, prec, right) in enumerate(case["ops"])}
        t.init = dict(table="own", ops=case["ops"])
    else:
        names = ALG if kind == "algebra" else RE
        table = MAP_OPERATORS_ALG if kind == "algebra" else MAP_OPERATORS_RE
        t.init = dict(table=kind)
    numeric = kind == "algebra" and case.get("numeric")
    for w in case.get("spoiled", []):
        tokens = [float(a - 100) if numeric and a >= 100 else OPERANDS[a - 100] if a >= 100 else "()"[a - 1] if a < 3 else names[a] for a in w]
        runs = [("postfix", lambda: shunting_yard_postfix(tokens, table)), ("ast", lambda: shunting_yard_ast(tokens, table))]
        if numeric:
            runs.append(("compute", lambda: shunting_yard_compute(tokens, tokenize=False)))
        for what, f in runs:
            try:
                f()
                r = 0
            except Exception:
                r = 1
            t.e("refused", what=what, w=w, r=r)
    back = {v: k for k, v in names.items()}
    back.update({"(": 1, ")": 2})

    def text(a):
        if a == 1 or a == 2:
            return "()"[a - 1]
        if a >= 100:
            return rng.choice([float(value(a)), int(value(a)) if a < 20000 else value(a)]) if numeric else OPERANDS[a - 100]
        return names[a]

    def tok(x):
        if isinstance(x, str):
            return back[x] if x in back else 100 + OPERANDS.index(x)
        return 100 + int(x) if x == int(x) else 20000 + int(x * 8)
    for w in case["exprs"]:
        tokens = [text(a) for a in w]
        ev = []
        vis = visitor(ev, tok) if rng.random() < .7 else None
        expr = iter(tokens) if rng.random() < .5 else tokens
        if rng.random() < .5:
            r = shunting_yard_postfix(expr, table) if vis is None else shunting_yard_postfix(expr, table, vis=vis)
        else:
            out = deque() if rng.random() < .5 else []
            r = shunting_yard_postfix(expr, table, out, vis)
            if r is not out:
                raise RuntimeError("another output was returned")
        t.e("postfix", w=w, r=[tok(x) for x in r], ev=ev)
        ev = []
        vis = visitor(ev, tok) if rng.random() < .7 else None
        if rng.random() < .7:
            ast, root = shunting_yard_ast(tokens, table, vis) if rng.random() < .7 else shunting_yard_ast(iter(tokens), table, vis=vis)
            shown = [tok(c) for c in ast.to_expr()] if not numeric and kind != "algebra" else []
        else:
            ast = Ast()
            r = shunting_yard_postfix(tokens, table, output=RpnDequeAst(map_operators=table, ast=ast), vis=vis)
            (root,) = r
            shown = []
        nodes = listing(ast.vertices())
        no = {u: i + 1 for i, u in enumerate(nodes)}
        t.e("ast", w=w, sym=[tok(ast.symbol(u)) for u in nodes], kids=[[no[v] for v in ast.children(u)] for u in nodes],
            root=no.get(root, 0), shown=shown, ev=ev)
        if shown and rng.random() < .5:
            # the same tree, built by hand
            from collections import defaultdict
            from pybgl.property_map import make_assoc_property_map
            order = list(range(len(nodes)))
            rng.shuffle(order)
            sym = [ast.symbol(u) for u in nodes]
            kids = [[no[v] for v in ast.children(u)] for u in nodes]
            given = rng.random() < .5
            syms = defaultdict(str)
            kw = dict(pmap_vsymbol=make_assoc_property_map(syms)) if given else {}
            if rng.random() < .5:
                kw.update(num_vertices=0)
            top = order.index(no[root] - 1)
            late = rng.random() < .5
            mine = Ast(**kw) if late else Ast(root=top, **kw)
            at = {}
            for i in order:
                at[i] = mine.add_vertex(sym[i])
            if given and dict(syms) != {at[i]: sym[i] for i in order}:
                raise RuntimeError("the symbols are not in the given map")
            for i in order:
                for v in kids[i]:
                    mine.add_edge(at[i], at[v - 1])
            back_at = {u: i + 1 for i, u in at.items()}
            held = [[tok(mine.symbol(at[i])), [back_at[v] for v in mine.children(at[i])]] for i in range(len(nodes))]
            x = dict(sym=[tok(a) for a in sym], kids=kids, held=held)
            if late:
                if rng.random() < .3:
                    try:
                        mine.to_expr()
                        rejected = 0
                    except Exception:
                        rejected = 1
                    t.e("hand", root=0, shown=[], rejected=rejected, **x)
                mine.root = at[no[root] - 1]
            t.e("hand", root=no[root], shown=[tok(c) for c in mine.to_expr()], rejected=0, **x)
        if numeric:
            how = rng.randrange(3)
            if how == 0:
                r = shunting_yard_compute(tokens, tokenize=False)
            elif how == 1:
                (r,) = shunting_yard_postfix(tokens, table, output=RpnDequeAlg(map_operators=table) if rng.random() < .5 else RpnDequeAlg())
            else:
                s = ""
                for a in w:
                    s += {3: "+", 4: "-"}.get(a) or (rng.choice(["%d", "%d.0", "%d.", "0%d", "%d.000"]) % (a - 100) if 100 <= a < 20000 else
                                                     rng.choice(["%s", "%.3f", "%.5f", "0%s"]) % float(value(a)) if a >= 100 else text(a))
                    s += rng.choice(["", "", " ", "  ", "\t"])
                r = shunting_yard_compute(s)
            f = Fraction(r).limit_denominator(10 ** 5)
            if abs(f - Fraction(r)) > Fraction(1, 10 ** 8):
                f = Fraction(0, 1) if r != 0 else Fraction(1, 1)
                t.e("exc", what="not a small fraction: %r" % r)
            t.e("compute", w=w, r=[f.numerator, f.denominator])


def grow(rng, ops, n, operand):
    """A random expression with about n operators, as tokens; parentheses anywhere."""
    unary = [k + 3 for k, o in enumerate(ops) if o[0] == 1]
    binary = [k + 3 for k, o in enumerate(ops) if o[0] == 2]
    def gen(n, prefix, postfix):
        x = rng.random()
        if n <= 0:
            w = [operand()]
        elif unary and (x < .3 or not binary):
            o = rng.choice(unary)
            if prefix and (not postfix or rng.random() < .5):
                w = [o] + gen(n - 1, prefix, postfix)
            else:
                w = gen(n - 1, prefix, postfix) + [o]
        elif binary:
            k = rng.randrange(n)
            w = gen(k, prefix, postfix) + [rng.choice(binary)] + gen(n - 1 - k, prefix, postfix)
        else:
            w = [operand()]
        if rng.random() < .25:
            w = [1] + w + [2]
        return w
    return gen


def spoil(rng, w, ops):
    w = list(w)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        i = rng.randrange(len(w) + 1)
        r = rng.random()
        if r < .45 or not w:
            w.insert(i, rng.choice([1, 1, 2, 2, 100, 3 + rng.randrange(len(ops))]))
        elif r < .8:
            del w[min(i, len(w) - 1)]
        else:
            w[min(i, len(w) - 1)] = rng.choice([1, 2, 101, 3 + rng.randrange(len(ops))])
    return w


def number_tree(rng, n):
    """A tree over the algebra."""
    if n <= 0:
        if rng.random() < .15:
            return [rng.choice([100 + rng.choice([12, 25, 100, 360, 1024, 12345, rng.randrange(20000)]), 20000 + rng.choice([1, 2, 4, 12, 20, 85, 1001, 10003, 8 * rng.randrange(2000) + rng.randrange(1, 8)])])]
        return [100 + rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10])]
    if rng.random() < .25:
        return [rng.choice([3, 4]), number_tree(rng, n - 1)]
    k = rng.randrange(n)
    return [rng.choice([5, 6, 7, 8, 9, 8, 9]), number_tree(rng, k), number_tree(rng, n - 1 - k)]


PREC = {3: 3, 4: 3, 5: 4, 6: 3, 7: 3, 8: 2, 9: 2}


def written(rng, t, extra):
    """Some writing of the tree: parentheses wherever they might be needed, and at random."""
    def sub(c, must):
        w = written(rng, c, extra)
        return [1] + w + [2] if (must and len(c) > 1) or rng.random() < extra else w
    if len(t) == 1:
        return list(t)
    if len(t) == 2:
        c = t[1]
        return [t[0]] + sub(c, len(c) == 3 and PREC[c[0]] <= 3)
    a, b = t[1], t[2]
    left = PREC[t[0]] if t[0] != 5 else 5
    right = PREC[t[0]] + 1 if t[0] != 5 else 4
    # a sign on the right is never ambiguous for what is inside, but it is for what follows: keep it bare at times
    return sub(a, PREC.get(a[0], 9) < left) + [t[0]] + sub(b, len(b) == 3 and PREC[b[0]] < right)




def reread(w):
    """Generators only: the tree of a written expression over the algebra."""
    pos = [0]

    def operand():
        a = w[pos[0]]
        pos[0] += 1
        if a == 1:
            t = infix(0)
            pos[0] += 1
            return t
        return [a, infix(a)] if a in (3, 4) else [a]

    def infix(o):
        t = operand()
        while pos[0] < len(w) and w[pos[0]] != 2:
            a = w[pos[0]]
            if o and (PREC[o] > PREC[a] or (PREC[o] == PREC[a] and a != 5)):
                break
            pos[0] += 1
            t = [a, t, infix(a)]
        return t
    return infix(0)


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("Agrees", "Lossless", "StartOK", "Respects", "Stable")
    confs = [(2, 1, 2, 7), (3, 0, 3, 7), (1, 2, 3, 6)] if not big else [(2, 1, 2, 9), (3, 0, 3, 9), (1, 2, 3, 8), (2, 2, 2, 7)]
    ctx.models_parallel([dict(module="ShuntingModel", constants=dict(NBin=a, NUn=b, MaxPrec=c, MaxLen=n, Patience="TRUE"), invariants=inv, workers=4 if not big else 3)
                         for a, b, c, n in confs], timeout=840)
    rng = ctx.rng
    seed = lambda: rng.randrange(1 << 30)
    # every expression without parentheses with up to m binary operators of a small table
    cases = []
    for ops in itertools.product([[2, 1, 0], [2, 1, 1], [2, 2, 0], [2, 2, 1]], repeat=2):
        exprs = []
        for m in range(5 if big else 4):
            for c in itertools.product((3, 4), repeat=m):
                w = [100]
                for i, o in enumerate(c):
                    w += [o, 101 + i]
                exprs.append(w)
        cases.append(dict(table="own", ops=[list(o) for o in ops], exprs=exprs, seed=seed()))
    ctx.exhaustive_notes.append("every table of two binary operators of precedence 1 or 2, every expression of up to %d of them" % (4 if big else 3))
    ctx.conform("ShuntingTrace", record, cases, "small-tables")
    cases = []
    for _ in range(ctx.scale(350, 5000)):
        k = rng.randrange(1, 6)
        ops = [[rng.choice([1, 2, 2]), rng.randrange(1, 5), rng.randrange(2)] for _ in range(k)]
        n = [0]

        def operand():
            n[0] += 1
            return 100 + (n[0] - 1 if rng.random() < .8 else rng.randrange(3)) % len(OPERANDS)
        exprs = []
        for _ in range(4):
            n[0] = 0
            pre, post = rng.choice([(True, True), (True, False), (False, True)])
            exprs.append(grow(rng, ops, rng.randrange(0, 9), operand)(rng.randrange(0, 9), pre, post))
        cases.append(dict(table="own", ops=ops, exprs=exprs, seed=seed()))
    for _ in range(ctx.scale(100, 1500)):
        cases.append(dict(table="regex", seed=seed(), exprs=[
            grow(rng, [[1], [1], [1], [2], [2]], 0, lambda: 100 + rng.randrange(4))(rng.randrange(0, 9), False, True) for _ in range(4)]))
        cases.append(dict(table="algebra", seed=seed(), exprs=[
            grow(rng, [[1], [1], [2], [2], [2], [2], [2]], 0, lambda: 100 + rng.randrange(4))(rng.randrange(0, 9), True, False) for _ in range(4)]))
    for _ in range(ctx.scale(40, 500)):
        # stacks of many operators: ever higher precedences, then lower ones
        k = rng.randrange(4, 7)
        ops = [[2, i + 1, int(rng.random() < .8)] for i in range(k)]
        ops[-1] = [rng.choice([1, 2]), k, 1]
        w, level = [100], 0
        for i in range(rng.randrange(15, 60)):
            level = rng.randrange(k) if rng.random() < .06 else min(k - 1, level + (rng.random() < .3))
            w += [3 + level] if ops[level][0] == 2 else [3]
            if ops[-1][0] == 1:
                w += [2 + k] * rng.choice([0, 0, 1, 3, 12])
            w += [1] * (rng.random() < .05) + [101 + i % 50]
        d = w.count(1)
        cases.append(dict(table="own", ops=ops, exprs=[w + [2] * d], seed=seed()))
    ctx.conform("ShuntingTrace", record, cases, "random-tables")
    # trees far deeper than the interpreter's recursion limit
    n, cases = 1050, []
    for right, paren in rng.sample([(1, 0), (0, 0), (0, 1)], 3 if big else 2) + [(2, 0)] * big:
        ops = [[2, 1, int(right == 1)], [1, 2, 1]]
        w = [100]
        for i in range(1, n):
            w += [3] + [1] * paren + [4] * (right == 2) + [100 + i % 26]
        w += [2] * (paren * (n - 1))
        cases.append(dict(table="own", ops=ops, exprs=[w], seed=seed()))
    cases.append(dict(table="own", ops=[[1, 1, 0]], exprs=[[3] * n + [100], [100] + [3] * n], seed=seed()))
    ctx.conform("ShuntingTrace", record, cases, "deep-trees", timeout=30)
    cases = []
    while len(cases) < ctx.scale(400, 6000):
        exprs = []
        while len(exprs) < 3:
            tree = number_tree(rng, rng.randrange(0, 8))
            try:
                bounded(tree)
                w = written(rng, tree, rng.choice([0, .1, .3]))
                bounded(reread(w))
            except Ill:
                continue
            exprs.append(w)
        cases.append(dict(table="algebra", numeric=1, exprs=exprs, seed=seed()))
    ctx.conform("ShuntingTrace", record, cases, "values")
    cases = []
    for _ in range(ctx.scale(150, 2500)):
        k = rng.randrange(1, 5)
        ops = [[rng.choice([1, 2, 2]), rng.randrange(1, 5), rng.randrange(2)] for _ in range(k)]
        g = grow(rng, ops, 0, lambda: 100 + rng.randrange(5))
        cases.append(dict(table="own", ops=ops, exprs=[], seed=seed(),
                          spoiled=[spoil(rng, g(rng.randrange(0, 5), True, True), ops) for _ in range(6)]))
        if rng.random() < .4:
            # additions only, so that every value exists
            g = grow(rng, [[1]] * 2 + [[0]] * 3 + [[2]] * 2, 0, lambda: 100 + rng.randrange(5))
            ws = [spoil(rng, g(rng.randrange(0, 5), True, False), [0] * 2) for _ in range(6)]
            cases.append(dict(table="algebra", numeric=1, exprs=[], seed=seed(), spoiled=ws))
    for c in cases:
        c["spoiled"] += [[1], [1, 100], [2], [100, 2], [1, 2], [100, 100]]
    ctx.conform("ShuntingTrace", record, cases, "refused-expressions")
