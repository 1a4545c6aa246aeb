"""C01: directed graphs against Multigraph."""
from . import graphs


def run(ctx):
    big = ctx.tier == "thorough"
    ctx.models_parallel([
        dict(module="MultigraphModel", constants=dict(Dir="TRUE", MaxId=3, MaxEdges=2 if not big else 3, Keys="{0,1}", N0=0),
             invariants=graphs.INV, properties=graphs.PROPS, workers=4 if not big else 8)])
    cases = graphs.model_walks(ctx, dict(Dir="TRUE", MaxId=3, MaxEdges=2, Keys="{0,1}", N0=0), ["D", "I", "Graph"], True, "3 vertices, 2 edges")
    cases += graphs.model_walks(ctx, dict(Dir="TRUE", MaxId=2, MaxEdges=3 if not big else 4, Keys="{0,1,2}", N0=2), ["D", "I", "Graph"], True, "2 vertices, 3+ parallel edges")
    ctx.conform("MultigraphTrace", graphs.record, cases, "model-histories")
    cases = graphs.history_cases(ctx, ["D", "I", "Graph"], ctx.scale((40, 15, 4), (800, 300, 60)))
    ctx.conform("MultigraphTrace", graphs.record, cases, "random-histories")
    ctx.assumptions.append("identifiers given to operations are those of present vertices and edges (an absent one is outside the property)")
