"""C31: colour conversions."""


def scaled(t, n, third, k=1):
    h, s, x = t
    return [round(h * 360000), round(s * n), round(x * third * k)]


def record(case, t):
    from pybgl.color import hsl_to_hsv, hsv_to_hsl, html_color_to_graphviz, normalize_color_tuple
    n, k = case.get("n", 100), case.get("k", 1)
    r = 10000 if n == 100 else 1000
    for h, s, x in case["colors"]:
        c = (h / 360, s / n, x / n / k)
        if n == 100 and k == 1:
            t.e("norm", h=h, s=s, x=x, r=scaled(normalize_color_tuple(h, s, x), 10000, 10000))
        o = hsl_to_hsv(*c)
        t.e("hsv", n=n, h=h, s=s, x=x, r=scaled(o, r, n * n, k), b=scaled(hsv_to_hsl(*o), 100 * n, 100 * n, k))
        o = hsv_to_hsl(*c)
        t.e("hsl", n=n, h=h, s=s, x=x, r=scaled(o, r, 2 * n * n, k), b=scaled(hsl_to_hsv(*o), 100 * n, 100 * n, k))
        for form in case["forms"]:
            o = html_color_to_graphviz(form % (h, s, x))
            t.e("html", n=n, h=h, s=s, x=x, r=scaled([float(y) for y in o.split(",")], r, n * n))
    for c in case["others"]:
        t.e("other", c=[ord(x) for x in c], r=[ord(x) for x in html_color_to_graphviz(c)])


FORMS = ["hsl(%d, %d%%, %d%%)", "hsl(%d,%d%%,%d%%)", "hsl( %d , %d%% , %d%% )", "hsl(%d, %d, %d)", "hsl (%d, %d%%, %d%%) "]


def run(ctx):
    big = ctx.tier == "thorough"
    inv = ("Bounds", "BackL", "BackS", "BackV", "BackSV", "Homogeneous", "Finer")
    ctx.models_parallel([dict(module="ColorModel", constants=dict(Step=1 if big else 2, Half="TRUE"), invariants=inv, workers=4)], timeout=840)
    rng = ctx.rng
    # every saturation and third component in whole percents, hues in turn
    grid = [[rng.choice([0, 360, rng.randrange(361)]), s, x] for s in range(101) for x in range(101)]
    ctx.exhaustive_notes.append("every pair of percents for saturation and lightness or value")
    names = ["turquoise", "#40e0d0", "", "red", "#fff", "transparent", "rgb(1, 2, 3)", "0.5, 0.5, 0.5", "chsl(1, 2, 3)", "Hsl"]
    cases = [dict(colors=grid[i:i + 101], forms=FORMS if big else [rng.choice(FORMS)], others=[rng.choice(names)]) for i in range(0, len(grid), 101)]
    cases.append(dict(colors=[[h, 71, 56] for h in range(361)], forms=FORMS[:2], others=names))
    ctx.conform("ColorTrace", record, cases, "colours")
    # finer colours, near black, white and grey above all, and scaled down to almost black
    cases = []
    for _ in range(ctx.scale(150, 3000)):
        k = rng.choice([1, 1, 1, 1000, 10 ** 6, 10 ** 9])
        near = lambda: rng.choice([rng.randrange(1001), rng.randrange(21), 1000 - rng.randrange(21), 500 + rng.randrange(-3, 4)])
        cases.append(dict(n=1000, k=k, forms=[], others=[],
                          colors=[[rng.randrange(361), near(), near() if k == 1 else near() // 2] for _ in range(20)]))
    ctx.conform("ColorTrace", record, cases, "fine-colours")
