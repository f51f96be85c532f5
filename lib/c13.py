"""C13: boundary and coboundary matrices."""
import rips as g
from rips import replay
ASSUMPTIONS = ["distances are dyadic numbers (compared exactly) or infinite"]
SEE = ["col", "fcol", "heap", "fval"]


def cols(mat, view, sx, k, see=SEE):
    return {"op": "cols", "mat": mat, "view": view, "k": k, "simplices": sx, "see": list(see)}


def check(ctx):
    r = ctx.rng
    ctx.model("RipsModel", "RipsModel2")
    ctx.model("RipsModel", "RipsModel3")
    # every view of both matrices over every field, every simplex of every dimension
    cases = []
    for p in g.FIELDS:
        for n in range(1, 6):
            d = g.random_dist(r, n)
            sx = g.simplices(n, range(n))
            cases += [g.case(p, d, [cols(m, v, sx, r.randint(0, 2)) for v in g.VIEWS], rng=r) for m in ("bd", "cobd")]
    g.run(ctx, cases, "all_views", ("col", "fcol", "heap", "fval"))
    # every small distance matrix
    cases = []
    for d in g.model_dists(ctx, ctx.size("RipsGen", "RipsGenT")):
        n = len(d)
        if n:
            sx = g.simplices(n, range(n))
            cases.append(g.case(r.choice(g.FIELDS), d, [cols(m, r.choice(g.VIEWS), sx, r.randint(0, 2), r.sample(SEE, 2)) for m in ("bd", "cobd")], rng=r))
    g.run(ctx, cases, "all_small", ("col", "fcol"))
    cases = []
    for _ in range(ctx.size(600, 6000)):
        n = r.randint(1, 10)
        sx = g.simplices(n, range(n), r, 10)
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), [cols(r.choice(["bd", "cobd"]), r.choice(g.VIEWS), sx, r.randint(0, 1)) for _ in range(2)], rng=r))
    for _ in range(ctx.size(150, 3000)):            # a diameter decided by one pair
        n = r.randint(5, 12)
        (a, b), d = g.far_pair(r, n)
        sx = []
        for _ in range(6):
            m = r.randint(3, n)
            s = {a, b} | set(r.sample(range(n), m - 2))
            sx.append(sorted(s - ({r.choice([a, b])} if r.random() < .6 else set())))
        cases.append(g.case(r.choice(g.FIELDS), d, [cols(mt, "inner" if r.random() < .7 else r.choice(g.VIEWS), sx, 0, ["fcol", r.choice(["heap", "fval"])]) for mt in ("bd", "cobd")], rng=r))
    for _ in range(ctx.size(10, 200)):
        n = r.randint(11, 40)
        sx = [sorted(r.sample(range(n), r.randint(1, 6))) for _ in range(4)]
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), [cols(r.choice(["bd", "cobd"]), r.choice(g.VIEWS), sx, 0)], rng=r))
    for _ in range(ctx.size(2, 12)):
        n = r.randint(100, 300)
        m = 7 if n < 256 else 6
        sx = [sorted(r.sample(range(n), r.randint(1, m))) for _ in range(3)] + [sorted(r.sample(range(n - 9, n), 5))]
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), [cols(mt, r.choice(g.VIEWS), sx, 0) for mt in ("bd", "cobd")], rng=r))
    g.run(ctx, cases, "random", ("col", "fcol", "heap", "fval"))
