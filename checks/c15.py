"""C15: inclusion of deterministic automata."""
from . import autom
from .c14 import cases_deep, cases_random, cases_small, pair


def ans(r):
    return 9 if r is None else r if type(r) is int and r in (-1, 0, 1) else 99


def record(case, t):
    from pybgl.deterministic_inclusion import DeterministicInclusionVisitor, deterministic_inclusion
    g1, g2, codes = pair(case)
    t.init = dict(m1=autom.encode(g1, codes), m2=autom.encode(g2, codes))
    vis = DeterministicInclusionVisitor()
    r = deterministic_inclusion(g1, g2) if case["k"] % 2 else deterministic_inclusion(g1, g2, vis) if case["k"] % 4 else deterministic_inclusion(g1, g2, vis=vis)
    t.e("incl", r=ans(r), vis=9 if case["k"] % 2 or r is None else ans(vis.ret), rev=ans(deterministic_inclusion(g2, g1)), after1=autom.encode(g1, codes), after2=autom.encode(g2, codes))


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="ParallelModel", constants=dict(N1=1, N2=2, L="{1,2}", Inis="{1}"), invariants=("InclusionOK",), workers=4),
        dict(module="ParallelModel", constants=dict(N1=2, N2=2, L="{1}", Inis="{0,1}") if not big else dict(N1=3, N2=3, L="{1}", Inis="{1}"), invariants=("InclusionOK",), workers=4)], timeout=840)
    ctx.conform("ProductTrace", record, cases_small(ctx, ctx.scale(2500, 40000)), "small-automata")
    ctx.conform("ProductTrace", record, cases_random(ctx, ctx.scale((2000, 400), (30000, 8000))), "random-automata")
    ctx.conform("ProductTrace", record, cases_deep(ctx, 4), "deep-automata")
