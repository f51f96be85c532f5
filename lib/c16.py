"""C16: matrices of the grounded path complex."""
import gr as g
from gr import replay
ASSUMPTIONS = ["edge times are dyadic and finite (an edge without a time never appears)", "digraphs without loops"]


def check(ctx):
    r = ctx.rng
    for c in ("M", "Sq") if ctx.quick else ("M", "Sq", "SqM", "3", "3t"):
        ctx.model("GrModel", "GrModel" + c)
    exe = ctx.harness("gr")

    def run(cases, name, **kw):
        recs, _ = ctx.run_cases(exe, cases, name)
        ctx.validate("GrTrace", recs, name, cfg="TraceV", need=("digraph", "basis", "cob", "fcob", "all", "bd", "fbd", "fval"), **kw)
    # every filtered digraph on 3 nodes with times 1, 2 (or none); random grounding, also by edges that never appear
    cases = []
    for es in g.small_graphs(ctx, 3, [1, 2], ctx.size(730, 730)):
        cases.append(g.matrix_case(r, r.choice(g.FIELDS), 3, es, [e for e in g.pairs(3) if r.random() < .4]))
    if not ctx.quick:
        for es in g.small_graphs(ctx, 3, [0, 1, 2, 3], 15625):
            cases.append(g.matrix_case(r, r.choice(g.FIELDS), 3, es, [e for e in g.pairs(3) if r.random() < .4]))
    run(cases, "small")
    cases = []
    for _ in range(ctx.size(600, 8000)):
        n = r.randint(0, 6)
        if r.random() < .5:
            es = g.weighted(r, n)
            cases.append(g.matrix_case(r, r.choice(g.FIELDS), n, g.times_of(n, es), es))
        else:
            m = r.choice([1, 2, 4, 30])
            dens = r.choice([.3, .6, 1])
            es = [[a, b, r.randint(0, m)] for a, b in g.pairs(n) if r.random() < dens]
            cases.append(g.matrix_case(r, r.choice(g.FIELDS), n, es, [e for e in g.pairs(n) if r.random() < .3]))
    run(cases, "random")
    cases = []
    for _ in range(ctx.size(12, 150)):
        n = r.randint(7, ctx.size(9, 11))
        es = g.weighted(r, n)
        cases.append(g.matrix_case(r, r.choice(g.FIELDS), n, g.times_of(n, es), es))
    for _ in range(ctx.size(5, 30)):
        n = r.randint(257, 300)
        es = g.scattered(r, n)
        cases.append(g.matrix_case(r, r.choice(g.FIELDS), n, g.times_on(es), es))
    for _ in range(ctx.size(6, 40)):
        n, es = g.wheel(r)
        cases.append(g.matrix_case(r, r.choice(g.FIELDS), n, g.times_on(es), es))
    for _ in range(ctx.size(6, 40)):
        n, es = g.bundle(r)
        cases.append(g.matrix_case(r, r.choice(g.FIELDS), n, g.times_on(es), es))
    run(cases, "large")
    # node numbers up to 65535: the boundary matrix, with times in a map
    recs, _ = ctx.run_cases(exe, [g.far_cells(r) for _ in range(ctx.size(60, 600))], "far")
    ctx.validate("GrTrace", recs, "far", cfg="TraceV", need=("digraph", "bd", "fbd", "fval"))
