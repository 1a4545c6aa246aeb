"""C07: the priority queue."""
import json
from vlib.walks import read_transitions, covering_walks
from .graphs import listing, num, boolean


class Thing:
    """An element without any order of its own."""
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "Thing(%d)" % self.i


def element(style, i):
    return [i, "w%d" % i, (i % 2, "x", i), Thing(i), complex(i, 1)][style]


def record(case, t):
    import random
    from pybgl.heap import Heap, Comparable, compare_to_key
    rng = random.Random(case["seed"])
    n = case["n"]
    elem = [element(case["style"], i) for i in range(n)]
    code = {id(x): i for i, x in enumerate(elem)} if case["style"] == 3 else {x: i for i, x in enumerate(elem)}
    cd = lambda x: code.get(id(x) if case["style"] == 3 else x, -1)
    table = {}
    how = case["how"]          # how keys are compared: 0 int, 1 tuple, 2/3 user preorder, 4 the elements themselves
    value = {0: lambda k: k, 1: lambda k: (k // 3, k % 3), 2: lambda k: k, 3: lambda k: -k, 4: lambda k: k, 5: lambda k: "x" * k}[how]
    kf = lambda x: value(table[cd(x)])
    if how == 2:
        tc = compare_to_key(lambda a, b: kf(a) <= kf(b))
    elif how == 3:
        tc = compare_to_key(lambda a, b: kf(a) >= kf(b))
    elif how == 4:
        tc = None
    elif how == 5:
        tc = lambda x: Comparable(kf(x), lambda a, b: len(a) <= len(b))
    else:
        tc = kf
    q0 = []
    for el, k in case["q0"]:
        table[el] = k if how != 4 else el
    q0 = [[el, table[el]] for el, _ in case["q0"]]
    els = [elem[el] for el, _ in q0]
    src = [lambda: els, lambda: tuple(els), lambda: iter(els), lambda: (x for x in els)][case["seed"] % 4]()
    kw = dict(to_comparable=tc) if tc else {}
    h = Heap(src, **kw) if els or rng.random() < .5 else Heap(**kw)
    t.init = dict(q=q0)
    present = [el for el, _ in q0]

    def obs(it=True):
        qs = [dict(op="len", r=num(len(h))), dict(op="bool", r=boolean(bool(h)))]
        if it:
            qs.append(dict(op="iter", r=[cd(x) for x in listing(iter(h))]))
        t.ev.append(dict(op="all", qs=qs))

    def rekey(el, k):
        table[el] = k
        h.decrease_key(elem[el])
        t.e("rekey", el=el, k=k)
    obs()
    for i, op in enumerate(case["ops"]):
        if op[0] == "push":
            el, k = op[1:]
            if how == 4:
                k = el
            if how in (2, 3) and el in present and table[el] != k:
                rekey(el, k)      # the order is read from the table: tell the queue at once
            table[el] = k
            h.push(elem[el])
            present.append(el)
            t.e("push", el=el, k=k)
        elif op[0] == "pop":
            x = cd(h.pop())
            t.e("pop", r=x)
            if x in present:
                present.remove(x)
        elif op[0] == "rekey" and how != 4:
            if op[1] in present:
                rekey(op[1], op[2])
        if i % case["every"] == 0:
            obs(rng.random() < .6)
    obs()
    if case.get("drain"):
        out = []
        while h:
            out.append(cd(h.pop()))
            if len(out) > 5000:
                raise RuntimeError("the queue never empties")
        t.e("drain", r=out)
        obs()


def record_cmp(case, t):
    from pybgl.heap import Comparable
    t.init = dict(q=[])
    rank, objs = case["rank"], case["objs"]
    rk = {repr(o): r for o, r in zip(objs, rank)}
    pre = lambda a, b: rk[repr(a)] <= rk[repr(b)]
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            x, y = Comparable(a, pre), Comparable(b, pre)
            t.e("cmp", a=rank[i], b=rank[j], r=[boolean(v) for v in (x < y, x <= y, x == y, x != y, x > y, x >= y)])


def walks(ctx, consts, label):
    r = ctx.model("HeapModel", consts, view="AbsView", action_constraint="Emit", workers=1, invariants=("SortOK",))
    tr = read_transitions(r)
    ws = covering_walks(tr, "[]", 40, ctx.rng)
    ctx.exhaustive_notes.append("%s: %d transitions of HeapModel replayed in %d histories" % (label, len(tr), len(ws)))
    return [dict(n=4, style=i % 5, how=(i // 5) % 4, q0=[], ops=w, every=1, seed=i, drain=1) for i, w in enumerate(ws)]


def random_case(rng, n_ops, n_el, keys):
    how = rng.randrange(6)
    style = rng.randrange(3) if how == 4 else rng.randrange(5)
    if how == 4 and style == 1:
        n_el = min(n_el, 10)      # strings order like the numbers they contain
    if how == 4 and style == 2:
        style = 0
    key = lambda: rng.randrange(keys)
    q0 = [[rng.randrange(n_el), key()] for _ in range(rng.choice([0, 0, 1, 2, 5, n_el * 2]))]
    last = dict((e, k) for e, k in q0)
    q0 = [[e, last[e]] for e, _ in q0]
    size, ops = len(q0), []
    p = rng.choice([.2, .4, .5])
    while len(ops) < n_ops:
        x = rng.random()
        if x < p and size:
            ops.append(["pop"])
            size -= 1
        elif x < p + .2:
            ops.append(["rekey", rng.randrange(n_el), key()])
        else:
            ops.append(["push", rng.randrange(n_el), key()])
            size += 1
    return dict(n=n_el, style=style, how=how, q0=q0, ops=ops, every=rng.choice([1, 3, 10]), seed=rng.randrange(1 << 30), drain=1)


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("RefineOK", "SortOK", "FifoOK", "RootOK")
    ctx.models_parallel([
        dict(module="HeapModel", constants=dict(Els="{0,1}", KeySet="{0,1}", MaxLen=4), view="AbsView", invariants=inv, properties=("Conserve",), workers=4),
        dict(module="HeapModel", constants=dict(Els="{0,1,2}", KeySet="{0,1,2}", MaxLen=3 if not big else 4), view="AbsView", invariants=inv, properties=("Conserve",), workers=4)])
    cases = walks(ctx, dict(Els="{0,1}", KeySet="{0,1}", MaxLen=4), "2 elements, 2 keys, length 4")
    cases += walks(ctx, dict(Els="{0,1,2}", KeySet="{0,1,2}", MaxLen=3), "3 elements, 3 keys, length 3")
    ctx.conform("HeapTrace", record, cases, "model-histories")
    n = ctx.scale((400, 150, 15), (6000, 3000, 300))
    cases = [random_case(ctx.rng, 30, 4, 3) for _ in range(n[0])] + [random_case(ctx.rng, 80, 15, 6) for _ in range(n[1])]
    cases += [random_case(ctx.rng, 250, 60, 30) for _ in range(n[2])]
    ctx.conform("HeapTrace", record, cases, "random-histories")
    cases = []
    for _ in range(ctx.scale(30, 300)):
        objs = ctx.rng.sample([0, 1, 2, -5, "a", "bb", (1, 2), None, 3.5, "é"], 5)
        cases.append(dict(objs=objs, rank=[ctx.rng.randrange(3) for _ in objs]))
    ctx.conform("HeapTrace", record_cmp, cases, "comparables")
    ctx.assumptions.append("the order in use is a total preorder; after the data behind a key changed, decrease_key is called before the queue is used again")
