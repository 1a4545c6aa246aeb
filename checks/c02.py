"""C02: undirected graphs against Multigraph with dir = FALSE."""
from . import graphs


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="MultigraphModel", constants=dict(Dir="FALSE", MaxId=3, MaxEdges=2 if not big else 3, Keys="{0,1}", N0=0),
             invariants=graphs.INV, properties=graphs.PROPS, workers=4 if not big else 8)])
    cases = graphs.model_walks(ctx, dict(Dir="FALSE", MaxId=3, MaxEdges=3, Keys="{0,1}", N0=0), ["U"], False, "3 vertices, 3 edges")
    cases += graphs.model_walks(ctx, dict(Dir="FALSE", MaxId=2, MaxEdges=3 if not big else 4, Keys="{0,1,2}", N0=2), ["U"], False, "2 vertices, 3+ parallel edges")
    ctx.conform("MultigraphTrace", graphs.record, cases, "model-histories")
    cases = graphs.history_cases(ctx, ["U"], ctx.scale((120, 40, 10), (2000, 600, 120)))
    ctx.conform("MultigraphTrace", graphs.record, cases, "random-histories")
    ctx.assumptions.append("identifiers given to operations are those of present vertices and edges (an absent one is outside the property)")
