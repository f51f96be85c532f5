"""C17: barcodes of weighted digraphs."""
import gr as g
from gr import replay
ASSUMPTIONS = ["weights are dyadic, non-negative or infinite; digraphs without loops", "bars are computed over the field with two elements, as the library does"]
FNS = [["grpph", "involution"], ["grpph"], ["involution"]]


def check(ctx, see="bars", need=("bars",)):
    r = ctx.rng
    for c in ("M", "SqM") if ctx.quick else ("Mt", "SqM", "3", "Sq2"):
        ctx.model("GrModel", "GrModel" + c)
    fns = lambda: r.choice(FNS) if see == "bars" else ["involution"]

    def run(cases, name):
        ctx.validate("GrTrace", g.run_module(ctx, cases, name), name, need=("input",) + need)
    cases = [g.graph_case(n, es, fns(), see, r) for n, ws, cap in ((0, [], 1), (1, [], 1), (2, [0, 4, 8, g.INF], 100), (3, [4, 8, g.INF], ctx.size(700, 4096)),
                                                             (4, [4, 6, 12], ctx.size(1000, 20000))) for es in g.small_graphs(ctx, n, ws, cap)]
    run(cases, "small")
    cases = []
    for _ in range(ctx.size(4000, 30000)):
        n = r.randint(2, 7)
        cases.append(g.graph_case(n, g.weighted(r, n), fns(), see, r))
    run(cases, "random")
    cases = []
    for _ in range(ctx.size(80, 400)):
        n = r.randint(8, ctx.size(14, 18))
        cases.append(g.graph_case(n, g.weighted(r, n), fns(), see, r))
    for _ in range(ctx.size(20, 100)):
        n = r.randint(257, 300)
        cases.append(g.graph_case(n, g.scattered(r, n), fns(), see, r))
    for _ in range(ctx.size(24, 150)):
        cases.append(g.graph_case(*g.wheel(r), fns(), see, r))
    for _ in range(ctx.size(24, 150)):
        cases.append(g.graph_case(*g.bundle(r), fns(), see, r))
    for i in range(ctx.size(6, 24)):
        cases.append(g.graph_case(*g.crowd(r, i % 4 == 0), fns(), see, r))
    run(cases, "large")
