"""C27: Graphviz and JSON export, Graphviz import, rendering."""
import itertools, json, os, random, shutil, stat, tempfile
from collections import defaultdict
from .graphs import listing

LABEL, SHAPE = "label", "shape"
NONE = [-2]


def codes(s):
    return [ord(c) for c in s]


def uncodes(c):
    return "".join(map(chr, c))


# ------------------------------------------------------------------ reading the language
def lex(text, single=False):
    """Tokens <<kind, codes>> of the Graphviz language: 0 identifier, 1 quoted (single quotes too if asked), 2 HTML, 3 punctuation."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" and text[j + 1:j + 2] == '"' else 1
            out.append([1, codes(text[i + 1:j])] if j < n else [9, []])
            i = j + 1
        elif c == "'" and single and "'" in text[i + 1:]:
            j = text.index("'", i + 1)
            out.append([1, codes(text[i + 1:j])])
            i = j + 1
        elif c == "<":
            depth, j = 0, i
            while j < n:
                depth += (text[j] == "<") - (text[j] == ">")
                if depth == 0:
                    break
                j += 1
            out.append([2, codes(text[i + 1:j])] if j < n else [9, []])
            i = j + 1
        elif text[i:i + 2] in ("->", "--"):
            out.append([3, codes(text[i:i + 2])])
            i += 2
        elif c.isalnum() or c in "_.-" or ord(c) > 127:
            j = i + 1
            while j < n and (text[j].isalnum() or text[j] in "_." or ord(text[j]) > 127):
                j += 1
            out.append([0, codes(text[i:j])])
            i = j
        else:
            out.append([3, [ord(c)]] if c in "{}[]=;," else [9, codes(c)])
            i += 1
    return out


# ------------------------------------------------------------------ building
def build(case):
    """The graph, its edges as (descriptor or None, source, target, symbol index), vertices by index."""
    from pybgl.automaton import Automaton
    from pybgl.bk_tree import BKTree
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    from pybgl.nfa import Nfa
    from pybgl.node_automaton import NodeAutomaton
    from pybgl.trie import Trie
    cls = dict(D=DirectedGraph, U=UndirectedGraph, I=IncidenceGraph, A=Automaton, B=IncidenceAutomaton, T=Trie,
               N=NodeAutomaton, M=IncidenceNodeAutomaton, E=Nfa)[case["cls"]]
    n, gaps, syms = case["n"], case["gaps"], case["syms"]
    total = n + gaps
    if case["cls"] in "NM":
        g = cls(0)
        for i in range(total):
            g.add_vertex(syms[case["vsym"][i]])
    else:
        g = cls(num_vertices=total) if case["cls"] in "ABTE" else cls(total)
    keep = sorted(random.Random(case["seed"]).sample(range(total), n))
    for u in range(total):
        if u not in keep:
            g.remove_vertex(u)
    edges = []
    for i, (u, v, a) in enumerate(case["edges"]):
        args = [syms[a]] if case["cls"] in "ABTE" else []
        if case["cls"] == "E" and a == len(syms) - 1:
            args = [g.epsilon]
        e, _ = g.add_edge(keep[u], keep[v], *args)
        edges.append((e, u, v, a))
    if case["cls"] in "ABTNME":
        for u in case["fin"]:
            g.set_final(keep[u])
        if n:
            g.set_initial(keep[case["q0"]])
    return g, keep, edges


def record(case, t):
    from pybgl.automaton import Automaton
    from pybgl.node_automaton import NodeAutomaton
    from pybgl.graph import DirectedGraph, UndirectedGraph, EdgeDescriptor
    from pybgl.graph_dp import GraphDp
    from pybgl.graph_view import GraphView
    from pybgl.graphviz import read_graphviz, read_graphviz_dp, ReadGraphvizVisitor
    from pybgl.graphviz_impl import GraphvizStyle
    from pybgl.property_map import make_assoc_property_map, make_constant_property_map, make_func_property_map
    rng = random.Random(case["seed"])
    g, keep, edges = build(case)
    cls, syms, n = case["cls"], case["syms"], case["n"]
    directed = cls != "U"
    kind = dict(A="automaton", B="automaton", T="automaton", E="nfa", N="node", M="node").get(cls, "graph")
    if kind == "nfa":
        ids = lambda e: (g.source(e), g.target(e), g.label(e))
        index = {(keep[u], keep[v], syms[a] if a < len(syms) - 1 else g.epsilon): i for i, (e, u, v, a) in enumerate(edges)}
    else:
        ids = lambda e: e
        index = {e: i for i, (e, _, _, _) in enumerate(edges)}
    at = {u: i for i, u in enumerate(keep)}

    def pmaps(given, which):
        out = {}
        for k, vals in given.items():
            how = rng.randrange(2)
            if which == "v" and how:
                out[k] = make_assoc_property_map(defaultdict(lambda: None, {keep[i]: x for i, x in enumerate(vals)}))
            elif which == "v":
                out[k] = make_func_property_map(lambda u, vals=vals: vals[at[u]])
            elif how and kind != "nfa":
                d = defaultdict(lambda: None)
                for i, (e, _, _, _) in enumerate(edges):
                    d[e] = vals[i]
                out[k] = make_assoc_property_map(d)
            else:
                out[k] = make_func_property_map(lambda e, vals=vals: vals[index[ids(e)]])
        return out
    dpv, dpe = pmaps(case["dpv"], "v"), pmaps(case["dpe"], "e")
    vs = [i for i in range(n) if i in case["vs"]] if case["vs"] is not None else list(range(n))
    es = [i for i in range(len(edges)) if i in case["es"]] if case["es"] is not None else list(range(len(edges)))
    name = (lambda u: "v%dx" % u) if case["names"] else str
    kw = {}
    wrap = lambda x: rng.choice([list, iter, set])(x) if kind != "nfa" else rng.choice([list, iter])(x)
    es_desc = {}
    for e in listing(g.edges()):
        es_desc[index[ids(e)]] = e
    target, gv = g, None
    if case["view"] and kind != "nfa":
        # a part of the graph, at times narrowed further
        gv = set(rng.sample(vs, len(vs) if rng.random() < .5 else max(0, len(vs) - 1)))
        vs = [i for i in vs if i in gv]
        some = set(rng.sample(es, len(es) if rng.random() < .5 else max(0, len(es) - 1)))
        target = GraphView(g, make_func_property_map(lambda u: at[u] in gv), make_func_property_map(lambda e: index[e] in some))
        es = [i for i in es if i in some]
        if case["vs"] is not None:
            kw["vs"] = [keep[i] for i in case["vs"]]
            kw["vs"] = wrap(kw["vs"])
        if case["es"] is not None:
            kw["es"] = wrap([es_desc[i] for i in case["es"]])
        es = [i for i in es if edges[i][1] in gv and edges[i][2] in gv]
    else:
        if case["vs"] is not None:
            kw["vs"] = wrap([keep[i] for i in vs])
        if case["es"] is not None:
            kw["es"] = wrap([es_desc[i] for i in es])
    if case["names"]:
        kw["vertex_to_str"] = name
    style, defaults = case["style"], []
    base = [("graph", dict(GraphvizStyle.graph)), ("node", dict(GraphvizStyle.node)), ("edge", dict(GraphvizStyle.edge))]
    gdp = case["dp"] and not case["view"]
    if style == "":
        kw["graphviz_style"] = ""
    else:
        defaults += base
    own = [(k, case[x]) for k, x in (("graph", "dg"), ("node", "dv"), ("edge", "de"))]
    for (k, d), x in zip(own, ("dg", "dv", "de")):
        if gdp:
            # the graph's own style, or the default one, after the default style
            d = dict(d) if d else dict(dict(base)[k])
        elif d:
            kw[x] = dict(d)
        if d:
            defaults.append((k, d))
    if gdp and rng.random() < .5:
        # the style of another decorated graph is its own
        other = GraphDp(g)
        for d in (other.get_dg(), other.get_dv(), other.get_de()):
            d.update(color="other", fontcolor="other", bgcolor="other", mine="other")
        other.to_dot()
    if gdp:
        gd = GraphDp(g, dpv=dpv or None, dpe=dpe or None, dg=case["dg"] or None, dv=case["dv"] or None, de=case["de"] or None,
                     extra_style=["graph [x1=\"1\"]", "node [x2=\"2\"]"] if case["extra"] else None)
        if case["extra"]:
            defaults += [("graph", {"x1": "1"}), ("node", {"x2": "2"})]
        if gd.get_dpv() is not gd.dpv or gd.get_dpe() is not gd.dpe or (gd.get_dg(), gd.get_dv(), gd.get_de()) != (gd.dg, gd.dv, gd.de):
            raise RuntimeError("an accessor returns something else")
        text = gd.to_dot(**kw)
        kind = "graph"
    else:
        if dpv or rng.random() < .3:
            kw["dpv"] = dict(dpv)
        if dpe or rng.random() < .3:
            kw["dpe"] = dict(dpe)
        if case["extra"]:
            kw["extra_style"] = "graph [x1=\"1\"]; node [x2=\"2\"]"
            defaults += [("graph", {"x1": "1"}), ("node", {"x2": "2"})]
        if "dpv" in kw and "dpe" in kw and rng.random() < .6:
            # the same tables of attributes served for another automaton before
            other = Automaton(n + case["gaps"]) if rng.random() < .5 else NodeAutomaton(0)
            if isinstance(other, NodeAutomaton):
                for _ in range(n + case["gaps"]):
                    other.add_vertex("zz")
            for u in at:
                other.set_final(u, at[u] not in case["fin"])
            other.to_dot(vs=[], es=[], dpv=kw["dpv"], dpe=kw["dpe"])
        text = target.to_dot(**kw)

    sym = lambda a: ("<i>\u03b5</i>" if a == len(syms) - 1 else syms[a]) if kind == "nfa" else syms[a]
    attrs = lambda given, i: [[codes(k), codes(str(vals[i]))] for k, vals in given.items() if vals[i] is not None]
    t.init = dict(
        kind=kind, directed=int(directed),
        vs=[[codes(name(keep[i])), int(i in case["fin"]), int(n > 0 and i == case["q0"]), codes(str(syms[case["vsym"][keep[i]]])), attrs(case["dpv"], i)] for i in vs],
        es=[[codes(name(keep[edges[i][1]])), codes(name(keep[edges[i][2]])), codes(str(sym(case["vsym"][keep[edges[i][2]]] if kind == "node" else edges[i][3]))), attrs(case["dpe"], i)] for i in es],
        vkeys=[codes(k) for k in case["dpv"]], ekeys=[codes(k) for k in case["dpe"]],
        defaults=[[codes(k), [[codes(a), codes(str(b))] for a, b in d.items()]] for k, d in defaults])
    t.e("dot", toks=lex(text))
    present = set(vs)
    if not case["names"] and case["readable"] and all(edges[i][1] in present and edges[i][2] in present for i in es):
        # every vertex carries its own name, to be told from the others once read
        kw2 = dict(kw, dpv=dict(kw.get("dpv", {}), id=make_func_property_map(lambda u: "n%d" % u)))
        for k, x in (("vs", vs), ("es", es)):
            if k in kw2:
                kw2[k] = [keep[i] for i in x] if k == "vs" else [es_desc[i] for i in x]
        if gdp:
            kw2["dpv"].update({k: v for k, v in gd.dpv.items()})
        again = gd.to_dot(**kw2) if gdp else target.to_dot(**kw2)
        h = DirectedGraph() if directed else UndirectedGraph()
        vkeys = sorted(set(case["dpv"]) | ({SHAPE} if kind != "graph" else set()) | ({LABEL} if kind == "node" else set()))
        ekeys = sorted(set(case["dpe"]) | ({LABEL} if kind != "graph" else set()))
        mv = {k: defaultdict(lambda: None) for k in vkeys + ["id"]}
        me = {k: defaultdict(lambda: None) for k in ekeys}
        src = rng.choice([str, str.splitlines, lambda x: iter(x.split("\n"))])(again)
        if rng.random() < .6:
            read_graphviz_dp(src, h, {k: make_assoc_property_map(d) for k, d in mv.items()}, {k: make_assoc_property_map(d) for k, d in me.items()} if me or rng.random() < .5 else None)
        else:
            class Vis(ReadGraphvizVisitor):
                def on_install_vertex_property(self, u, g, key, value):
                    if key in mv:
                        mv[key][u] = value

                def on_install_edge_property(self, e, g, key, value):
                    if key in me:
                        me[key][e] = value
            read_graphviz(src, h, Vis())
        if rng.random() < .4:
            # without visitor: the shape alone
            h2 = DirectedGraph() if directed else UndirectedGraph()
            read_graphviz(again, h2)
            t.e("shape", n=len(listing(h2.vertices())), es=[[h2.source(e), h2.target(e)] for e in listing(h2.edges())], at=listing(h2.vertices()))
        who = lambda u: codes(mv["id"][u][1:]) if mv["id"][u] else [0]
        t.e("read", vkeys=[codes(k) for k in vkeys], ekeys=[codes(k) for k in ekeys],
            vs=[[who(u), [[codes(k), codes(mv[k][u])] for k in vkeys if mv[k][u] is not None]] for u in listing(h.vertices())],
            es=[[who(h.source(e)), who(h.target(e)), [[codes(k), codes(me[k][e])] for k in ekeys if me[k][e] is not None]] for e in listing(h.edges())])
    if gdp and kind == "graph":
        kj = {}
        if case["vs"] is not None:
            kj["vs"] = [keep[i] for i in vs]
        if case["es"] is not None:
            kj["es"] = [es_desc[i] for i in es]
        if all(None not in vals for vals in list(case["dpv"].values()) + list(case["dpe"].values())) and not case["names"]:
            x = json.loads(gd.to_json(**kj))
            strs = lambda d, skip: [[codes(k), codes(v) if isinstance(v, str) else [-1]] for k, v in d.items() if k not in skip]
            t.e("json", kind=codes(x["graph_type"]),
                vs=[[codes(str(v["id"])), strs(v, ("id",))] for v in x["vertices"]],
                es=[[codes(str(e["source"])), codes(str(e["target"])), strs(e, ("source", "target"))] for e in x["edges"]])


def record_trees(case, t):
    """BK-trees and syntax trees show their elements and symbols; styles set for all graphs."""
    from pybgl.bk_tree import BKTree, make_bk_tree
    from pybgl.graphviz_impl import GraphvizStyle, default_graphviz_style
    from pybgl.property_map import make_func_property_map
    from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, shunting_yard_ast, tokenizer_alg
    saved = [dict(d) for d in (GraphvizStyle.graph, GraphvizStyle.node, GraphvizStyle.edge)]
    try:
        base = [("graph", dict(saved[0])), ("node", dict(saved[1])), ("edge", dict(saved[2]))]
        for what, color in case["styles"]:
            # set_bg_color(c): the background; set_fg_color(c): every stroke and every text
            if what == "bg":
                GraphvizStyle.set_bg_color(color)
                base[0][1]["bgcolor"] = color
            else:
                GraphvizStyle.set_fg_color(color)
                for (k, d), keys in zip(base, (["fontcolor"], ["color", "fontcolor"], ["color", "fontcolor"])):
                    d.update({x: color for x in keys})
        kw = {}
        if case["color"]:
            kw["dpv"] = {"color": make_func_property_map(lambda u: case["color"])}
        if case["given"] is not None:
            kw.setdefault("dpv", {})["label"] = make_func_property_map(lambda u: case["given"])
        keys = list(kw.get("dpv", {}))
        if case["tree"] == "bk":
            g = make_bk_tree(case["words"]) if case["words"] else BKTree(lambda x, y: 0)
            kind, label = "automaton", lambda u: g.element(u)
        elif case["tree"] == "seq":
            from pybgl.digital_sequence import DigitalSequence
            w = "".join(case["words"])
            g, kind, label = DigitalSequence(w), "automaton", None
        else:
            g, _ = shunting_yard_ast(tokenizer_alg(case["expr"]), MAP_OPERATORS_ALG)
            kind, label = "graph", lambda u: "%s %s" % (u, g.symbol(u))
        shown = lambda u: case["given"] if case["given"] is not None else label(u) if label else None
        own = lambda u: ([[codes(LABEL), codes(shown(u))]] if shown(u) is not None else []) + ([[codes("color"), codes(case["color"])]] if case["color"] else [])
        t.init = dict(kind=kind, directed=1,
                      vs=[[codes(str(u)), int(case["tree"] == "seq" and u == len(w)), 0, [], own(u)] for u in listing(g.vertices())],
                      es=[[codes(str(g.source(e))), codes(str(g.target(e))), codes(str(e.distinguisher)) if kind == "automaton" else [], []] for e in listing(g.edges())],
                      vkeys=[codes(k) for k in keys + [LABEL]], ekeys=[],
                      defaults=[[codes(k), [[codes(a), codes(str(b))] for a, b in d.items()]] for k, d in base])
        t.e("dot", toks=lex(g.to_dot(**kw)))
    finally:
        for d, old in zip((GraphvizStyle.graph, GraphvizStyle.node, GraphvizStyle.edge), saved):
            d.clear()
            d.update(old)


def record_escape(case, t):
    from pybgl.graphviz_impl import graphviz_escape_char, graphviz_escape_html
    for s in case["texts"]:
        t.e("escape", s=codes(s), r=codes(graphviz_escape_html(s)), chars=[codes(graphviz_escape_char(c)) for c in s])


def record_hand(case, t):
    """Texts written by hand."""
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graphviz import GraphvizOptsParser, GraphvizVisitor, ReadGraphvizVisitor, read_graphviz, read_graphviz_dp
    from pybgl.property_map import make_assoc_property_map
    rng = random.Random(case["seed"])
    lines = case["lines"]
    toks = [lex(x, single=True) for x in lines]
    new = DirectedGraph if case["directed"] else UndirectedGraph
    calls = []

    def attrs(opts):
        p = GraphvizOptsParser()
        p.feed(opts)
        return [[codes(k), codes(v)] for k, v in p.items()]

    class Vis(GraphvizVisitor):
        def on_vertex(self, line, u, g, opts):
            calls.append(["vertex", codes(str(u)), [], attrs(opts), lex(line, single=True)])

        def on_edge(self, line, u, v, g, opts):
            calls.append(["edge", codes(str(u)), codes(str(v)), attrs(opts), lex(line, single=True)])

        def on_else(self, line):
            calls.append(["else", [], [], [], lex(line, single=True)])
    src = lambda: rng.choice([lambda: list(lines), lambda: "\n".join(lines), lambda: iter(x + "\n" for x in lines)])()
    g = new()
    read_graphviz(src(), g, Vis())
    if g.num_vertices():
        raise RuntimeError("the reader itself adds vertices")
    t.e("calls", lines=toks, calls=calls)
    vkeys, ekeys = ["id"] + rng.sample(HAND_KEYS, rng.randrange(len(HAND_KEYS) + 1)), rng.sample(HAND_KEYS, rng.randrange(len(HAND_KEYS) + 1))
    mv = {k: defaultdict(lambda: None) for k in vkeys}
    me = {k: defaultdict(lambda: None) for k in ekeys}
    how = rng.randrange(3)
    if how == 0:
        read_graphviz_dp(src(), new())
        read_graphviz_dp(src(), g, {k: make_assoc_property_map(d) for k, d in mv.items()}, {k: make_assoc_property_map(d) for k, d in me.items()})
    else:
        class Own(ReadGraphvizVisitor):
            def on_install_vertex_property(self, u, g, key, value):
                if key in mv:
                    mv[key][u] = value

            def on_install_edge_property(self, e, g, key, value):
                if key in me:
                    me[key][e] = value
        class Over(ReadGraphvizVisitor):
            def on_vertex(self, line, u, g, opts):
                x = super().on_vertex(line, u, g, opts)
                for k, v in map(lambda kv: map(uncodes, kv), attrs(opts)):
                    if k in mv:
                        mv[k][x] = v
                return x

            def on_edge(self, line, u, v, g, opts):
                x = super().on_edge(line, u, v, g, opts)
                for k, v in map(lambda kv: map(uncodes, kv), attrs(opts)):
                    if k in me:
                        me[k][x] = v
                return x
        read_graphviz(src(), g, Own() if how == 1 else Over())
    ident = lambda u: codes(mv["id"][u] or "none")
    t.e("hand", lines=toks, directed=case["directed"], vkeys=[codes(k) for k in vkeys], ekeys=[codes(k) for k in ekeys],
        vs=[[[codes(k), codes(mv[k][u])] for k in vkeys if mv[k][u] is not None] for u in listing(g.vertices())],
        es=[[ident(g.source(e)), ident(g.target(e)), [[codes(k), codes(me[k][e])] for k in ekeys if me[k][e] is not None]] for e in listing(g.edges())])


HAND_KEYS = ["label", "color", "shape", "a_1", "_x", "W"]
PLAIN_TEXTS = ["", "a", "x y", "];", "a=b", "]", "[", "k = v; z", "0 -> 1;", "it is", "//", "#12", "é", "&lt;b&gt;", "&#60;&amp;&#62;", "&amp;lt;", "&quot;q&quot;", "a, b", "{}", "--"]


def hand_attr(rng, key):
    how = rng.choice("isdddh")
    sp = lambda: rng.choice(["", "", " ", "  "])
    if how == "i":
        v = rng.choice(["red", "10", "0.5", "x_1", "-2", "A", "é", "007"])
    elif how == "s":
        v = "'%s'" % rng.choice(PLAIN_TEXTS + ['a"b', "<x>", "<"])
    elif how == "d":
        v = '"%s"' % rng.choice(PLAIN_TEXTS + ["it's", "<x>", "<", "a>b"])
    else:
        v = "<%s>" % rng.choice(["a", "", "x <b>y</b> z", "&#60;", "a=b; c", "<i>x</i>", "];", "it's", 'a"b', "<br/>", "b]"])
    return key + sp() + "=" + sp() + v


def hand_line(rng, head, attrs):
    sp = lambda: rng.choice(["", "", " ", "   ", "\t"])
    opts = ""
    if attrs or rng.random() < .2:
        sep = rng.choice([",", ";", " ", ", ", "; "])
        opts = "[" + sp() + sep.join(attrs) + (sep if attrs and rng.random() < .2 else "") + sp() + "]"
    return sp() + head + sp() + opts + sp() + ";" + sp()


def hand_case(rng):
    directed = rng.random() < .6
    n = rng.randrange(0, 6)
    ids = rng.sample(range(12), n) if rng.random() < .6 else rng.sample(range(3000), n)
    attrs = lambda: [hand_attr(rng, k) for k in rng.sample(HAND_KEYS, rng.choice([0, 0, 1, 2, 3]))]
    sp = lambda: rng.choice(["", " ", "  "])
    other = lambda: rng.choice(["", "  ", "// a comment", "# another", 'graph [rankdir="LR"];', "node [shape=box];", "edge [color=<red>];", "rankdir=LR;", "/* 0; */", "a;", "a -> b;", 'x [label="0"];'])
    lines = ["digraph G {" if directed else "graph G {"]
    for i, u in enumerate(ids):
        a = attrs() + ['id="n%d"' % i if rng.random() < .5 else "id=n%d" % i]
        rng.shuffle(a)
        lines.append(hand_line(rng, str(u), a))
        if rng.random() < .3:
            lines.append(other())
    for _ in range(rng.randrange(0, 7) if n else 0):
        lines.append(hand_line(rng, str(rng.choice(ids)) + sp() + ("->" if directed else "--") + sp() + str(rng.choice(ids)), attrs()))
        if rng.random() < .3:
            lines.append(other())
    return dict(directed=int(directed), lines=lines + ["}"], seed=rng.randrange(1 << 30))


FAKE = """#!/bin/sh
# stands for Graphviz: keeps what it is given and answers what it is told
printf '%%s\\n' "$@" > %(dir)s/args
cat > %(dir)s/stdin
cat %(dir)s/answer
exit %(status)d
"""


def record_render(case, t):
    import io
    from pybgl.graph import DirectedGraph
    from pybgl.graphviz import dot_to_svg, dotstr_to_html, graph_to_html, run_graphviz, write_graphviz
    d = tempfile.mkdtemp(prefix="vdot")
    path = os.environ["PATH"]
    try:
        exe = os.path.join(d, "dot")
        with open(exe, "w") as f:
            f.write(FAKE % dict(dir=d, status=case["status"]))
        os.chmod(exe, 0o755)
        answer = bytes(case["answer"])
        with open(os.path.join(d, "answer"), "wb") as f:
            f.write(answer)
        os.environ["PATH"] = d + os.pathsep + path
        text, how, engine, fmt = case["text"], case["how"], case["engine"], case["format"]
        want = answer
        # the engine is dot and the format svg unless told otherwise
        engine_kw = dict(engine=engine or "dot") if engine or case["seed"] % 3 == 0 else {}
        kw = dict(engine_kw, format=fmt) if fmt != "svg" or case["seed"] % 5 > 2 else engine_kw
        if how in ("graph", "show"):
            g = DirectedGraph(3)
            g.add_edge(0, 2)
            text = g.to_dot()
        try:
            if how == "run":
                r = run_graphviz(text, **kw)
            elif how == "file":
                p = os.path.join(d, "out")
                ok = write_graphviz(text, p, **kw)
                r = open(p, "rb").read() if ok is True else b"not written"
            elif how == "stream":
                s = io.BytesIO() if case["seed"] % 2 else io.StringIO()
                ok = write_graphviz(text, s, **kw)
                r = s.getvalue() if ok is True else b"not written"
            elif how == "html":
                r, fmt = dotstr_to_html(text, **engine_kw), "svg"
            elif how == "show":
                # in a notebook (a stand-in for it): the page that is shown holds the picture
                import sys
                import types
                from unittest import mock
                shown = []
                fake, disp = types.ModuleType("IPython"), types.ModuleType("IPython.display")
                fake.display, disp.HTML, disp.display = disp, str, shown.append
                with mock.patch.dict(sys.modules, {"IPython": fake, "IPython.display": disp}):
                    from pybgl.ipynb import ipynb_display_graph
                    kw = dict(engine_kw)
                    if case["seed"] % 2:
                        kw["background_color"] = "red"
                    ipynb_display_graph(g, **kw)
                fmt, r = "svg", "".join(shown)
                if case["seed"] % 2 and "red" in r and answer.decode() in r:
                    r = answer
            elif how == "svg":
                r, fmt = dot_to_svg(text, **engine_kw), "svg"
                want = answer[max(0, answer.find(b"<svg")):]
            else:
                r, fmt = graph_to_html(g, engine), "svg"
            r = list(r.encode() if isinstance(r, str) else r)
            if how in ("file", "stream") and r[len(want):] == [10]:
                r = r[:-1]           # a final end of line may be added
        except RuntimeError:
            r = [-1]
        args = open(os.path.join(d, "args")).read().split("\n")[:-1]
        asked_engine, asked_format = None, None
        i = 0
        while i < len(args):
            a = args[i]
            for opt in ("-T", "-K"):
                if a.startswith(opt):
                    v = a[2:] if len(a) > 2 else args[i + 1] if i + 1 < len(args) else ""
                    i += len(a) == 2
                    if opt == "-T":
                        asked_format = v
                    else:
                        asked_engine = v
            i += 1
        t.e("render", dot=list(text.encode()), stdin=list(open(os.path.join(d, "stdin"), "rb").read()), status=case["status"], r=r, answer=list(want),
            engine=asked_engine or "dot", format=asked_format or "none", asked=[engine or "dot", fmt])
    finally:
        os.environ["PATH"] = path
        shutil.rmtree(d, ignore_errors=True)


def record_show(case, t):
    """Pictures and pages that are saved and shown in a notebook (a stand-in for it)."""
    import sys, types
    from unittest import mock
    d = tempfile.mkdtemp(prefix="vdot")
    try:
        shown = []
        fake, disp = types.ModuleType("IPython"), types.ModuleType("IPython.display")
        fake.display, disp.HTML, disp.display = disp, str, shown.append
        with mock.patch.dict(sys.modules, {"IPython": fake, "IPython.display": disp}):
            from pybgl.html import beside, html
            from pybgl.ipynb import background_template_html, display_body, display_svg
            text, color, how = case["text"], case["color"], case["how"]
            p = os.path.join(d, "saved")
            kw = dict(background_color=color) if color or case["seed"] % 2 else {}
            saved = None
            if how in ("svg", "body"):
                (display_svg if how == "svg" else display_body)(text, p, **kw)
                saved = open(p).read()
            elif how == "html":
                html(text)
            elif how == "template":
                shown.append(background_template_html(color) % text)
            else:
                a, b = case["beside"]
                shown.append(beside(text, a, title=b) if case["seed"] % 2 else beside(text, a, title1=b))
                t.e("show", parts=[codes(x) for x in (a, b)], shown=codes(shown[-1]), saved=[-1], link=[], color=[])
        t.e("show", parts=[codes(text)], shown=codes("".join(shown)), saved=[-1] if saved is None else codes(saved), link=codes(p) if saved is not None else [],
            color=codes(color or "") if how in ("svg", "body", "template") else [])
    finally:
        shutil.rmtree(d, ignore_errors=True)


WORDS = ["a", "red", "x y", "<b>t</b>", "<", ">", "a&b", "[1]", "{n}", "];", "a;b", "k=v", "it's", "=", "<foo>", "1", "é", "a<br/>b", "", "&#60;", "c]", "label=<z>", ",", "->", "\u03b5", "0 -> 1;", "<B>&</B>", "// x", "#"]
PLAIN = ["a", "red", "x y", "10", "é", "[1]", "];", "a;b", "k=v", "it's", "box", "", "c]", "{", ",", "->", "a=b", "<x>", "label=<z>", "0 -> 1;", "// x", "#"]
WEIRD = ["\n", "a\nb", "\t", "\r", "\x01", "q\"q", "<font color='red'>x</font>", "<FONT>", "< b>", "</b >", "</br>", "<table border=\"1\">", "<bx>", "<b", "\x1f", "\\", "a\\"]
KEYS = ["label", "label", "color", "shape", "tooltip", "fontsize", "x_1"]


def random_case(rng, cls=None, big=0):
    """big: many vertices and edges, or identifiers of several digits."""
    cls = cls or rng.choice("DDUUIAABTNME")
    n, gaps, most = rng.randrange(0, 6), rng.choice([0, 0, 1, 3]), 9
    if big:
        n, gaps, most = rng.choice([(rng.randrange(10, 45), rng.choice([0, 2, 70, 100]), 45), (rng.randrange(2, 8), rng.choice([8, 97, 120, 1100]), 12)])
    weird = rng.random() < .25
    lab = WORDS + (WEIRD * 2 if weird else [])
    syms = rng.sample(sorted(set(lab) - {"\u03b5"}), 4)
    if cls == "T":
        gaps = 0
    if cls in "ABTNM":
        syms = [rng.choice([s, s, i]) for i, s in enumerate(syms)]
    edges, seen = [], set()
    for _ in range(rng.randrange(0, most) if n else 0):
        u, v, a = rng.randrange(n), rng.randrange(n), rng.randrange(4)
        k = {"A": (u, a), "B": (u, a), "T": (u, a), "N": (u, v), "M": (u, v), "E": (u, v, a), "D": len(edges), "I": len(edges), "U": len(edges)}[cls]
        if cls in "NM":
            continue
        if k not in seen:
            seen.add(k)
            edges.append([u, v, a])
    vsym = [rng.randrange(4) for _ in range(n + gaps)]
    c = dict(cls=cls, n=n, gaps=gaps, syms=syms, vsym=vsym, seed=rng.randrange(1 << 30), fin=[i for i in range(n) if rng.random() < .4], q0=rng.randrange(n) if n else 0)
    if cls in "NM" and n:
        # deterministic: the successors of a state have distinct symbols
        keep = sorted(random.Random(c["seed"]).sample(range(n + gaps), n))
        for _ in range(rng.randrange(0, most)):
            u, v = rng.randrange(n), rng.randrange(n)
            if (u, vsym[keep[v]]) not in seen:
                seen.add((u, vsym[keep[v]]))
                edges.append([u, v, 0])
    c["edges"] = edges

    def props(m):
        out = {}
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            k = rng.choice(KEYS)
            out[k] = [rng.choice(lab if k == "label" else PLAIN) if rng.random() < .85 else rng.choice([None, 3, 2.5]) for _ in range(m)]
        return out
    c["dpv"], c["dpe"] = props(n), props(len(edges))
    sub = lambda m: None if rng.random() < .6 else [i for i in range(m) if rng.random() < .7]
    style = lambda: {} if rng.random() < .7 else {k: rng.choice(PLAIN) for k in rng.sample(["color", "shape", "style", "rankdir"], rng.randrange(1, 3))}
    c.update(vs=sub(n), es=sub(len(edges)), names=int(rng.random() < .2), view=int(rng.random() < .25), dp=int(rng.random() < .35), extra=int(rng.random() < .2),
             style=rng.choice([None, None, ""]), dg=style(), dv=style(), de=style(), readable=int(not weird))
    return c


def run(ctx):
    big = ctx.tier == "thorough"
    m = lambda chars, w, v, e: dict(module="DotModel", constants=dict(Chars=chars, MaxWord=w, MaxV=v, MaxE=e, Escape="TRUE"), invariants=("RoundTrip", "Safe"), workers=3)
    jobs = [m("{98,60,62,38}", 3, 1, 1), m("{98,34,93,61}", 3, 1, 0), m("{59,60}", 2, 2, 1)]
    if big:
        jobs += [m("{98,60,62,38}", 4, 1, 0), m("{59,60,105}", 2, 2, 1), m("{62,60}", 2, 2, 3)]
    ctx.models_parallel(jobs, timeout=840)
    rng = ctx.rng
    cases = []
    # every graph on at most three vertices with at most two edges
    for cls in "DU":
        for n in range(4):
            pairs = list(itertools.product(range(n), repeat=2))
            for k in range(3):
                for es in itertools.combinations_with_replacement(pairs, k):
                    c = random_case(rng, cls)
                    c.update(n=n, gaps=0, vsym=[0] * n, fin=[], q0=0, edges=[[u, v, 0] for u, v in es], dpv={}, dpe={}, vs=None, es=None, view=0, names=0, readable=1)
                    cases.append(c)
    ctx.exhaustive_notes.append("every directed and undirected multigraph on at most 3 vertices with at most 2 edges")
    if not big:
        cases = cases[::2]
    ctx.conform("DotTrace", record, cases, "small-graphs")
    ctx.conform("DotTrace", record, [random_case(rng) for _ in range(ctx.scale(700, 9000))] + [random_case(rng, big=1) for _ in range(ctx.scale(70, 900))], "random-graphs")
    cases = []
    for i in range(ctx.scale(60, 600)):
        cases.append(dict(tree=("ast", "bk", "seq")[i % 3], words=[rng.choice(["a", "ab", "<b>", "abc", "x&y", "cab", "[", "bb", ""]) for _ in range(rng.randrange(0, 7))],
                          expr=rng.choice(["1", "1+2*3", "-(1-2)^3", "2*(3+4)/5", "--1"]), color=rng.choice(["", "", "red"]), given=rng.choice([None, None, None, "<i>&"]),
                          styles=[[rng.choice(["fg", "bg"]), rng.choice(["red", "blue", "#123456"])] for _ in range(rng.randrange(0, 3))]))
    ctx.conform("DotTrace", record_trees, cases, "trees-and-styles")
    pieces = ["<", ">", "b", "/", " ", "&", "table", "x='1'", "\n", "\t", "[", "]", "{", "}", "\x02", "é", "br", "<b>", "</b>", "hr", "<br/>", "B", "sup", "FONT", "I"]
    cases = [dict(texts=["".join(rng.choice(pieces) for _ in range(rng.randrange(0, 9))) for _ in range(6)]) for _ in range(ctx.scale(150, 2500))]
    cases.append(dict(texts=[chr(i) for i in range(160)]))
    cases.append(dict(texts=["<%s>" % x for x in WEIRD + ["b", "/b", "br", "br/", "font", "/font", "hr", "/hr", "i", "/i", "img", "/img", "o", "/o", "s", "/s", "sub", "/sub",
                                                          "sup", "/sup", "table", "/table", "td", "/td", "tr", "/tr", "u", "/u", "vr", "/vr", "bb", "a", "th", "p"]]))
    ctx.conform("DotTrace", record_escape, cases, "escapes")
    ctx.conform("DotTrace", record_hand, [hand_case(rng) for _ in range(ctx.scale(250, 4000))], "written-by-hand")
    cases = []
    for how in ("run", "file", "stream", "html", "svg", "graph", "show"):
        for fmt in ("svg", "png", "plain") if how in ("run", "file", "stream") else ("svg",):
            for engine in (None, "neato", "fdp"):
                for status in (0, 0, 1):
                    seed = rng.randrange(1 << 20)
                    text = rng.choice(["digraph G {0 -> 1}", "graph G {é -- b}\n"])
                    answer = list(rng.choice(["<?xml?>\n<svg a='é'>x</svg>\n", "<svg/>"]).encode())
                    if fmt == "png":
                        answer, seed = [137, 80, 78, 71, 0, 255, 10, 13], seed | 1
                    cases.append(dict(how=how, format=fmt, engine=engine, status=status, text=text, answer=answer, seed=seed))
    ctx.conform("DotTrace", record_render, cases, "rendering")
    cases = [dict(how=how, text=text, color=color, seed=rng.randrange(1 << 20), beside=["<p>right</p>", "caption"])
             for how in ("svg", "body", "html", "template", "beside") for text in ("<svg>x</svg>", "<p>50</p>\n<b>y</b>", "plain") for color in (None, "red", "#123456")]
    ctx.conform("DotTrace", record_show, cases, "shown")
