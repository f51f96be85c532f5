"""C14: barcodes of Rips filtrations, by every route."""
import rips as g
from rips import replay
ASSUMPTIONS = ["bars of length zero carry no information and are not compared here (C08, C10 do)",
               "the boundary matrix up to dimension k determines degrees below k, the coboundary matrix degrees up to k"]


def bars(k, route, via):
    return {"op": "bars", "k": k, "route": route, "via": via}


def some(r, ks, m):
    return [bars(r.choice(ks), r.choice(g.ROUTES), r.choice(g.VIAS)) for _ in range(m)]


def check(ctx):
    r = ctx.rng
    ctx.model("RipsModel", "RipsModel2")
    ctx.model("RipsModel", "RipsModel3")
    ctx.model("RipsTorsion", "RipsTorsion")
    cases = [g.case(r.choice(g.FIELDS), d, some(r, [0, 1, 2, 3], 3), rng=r) for d in g.model_dists(ctx, ctx.size("RipsGen", "RipsGenT"))]
    cases += [g.case(r.choice(g.FIELDS), d, some(r, [1, 2, 3], 3), rng=r) for d in g.model_dists(ctx, "RipsGen5") if len(d) == 5]
    g.run(ctx, cases, "all_small", ("bars",))
    cases = []
    for p in g.FIELDS:
        for via in g.VIAS[1:]:
            for rt in g.ROUTES:
                n = r.randint(4, 7)
                cases.append(g.case(p, g.random_dist(r, n), [bars(k, rt, via) for k in ((0, 1, 2) if n > 5 else (1, 2, 3, 4))], rng=r))
    g.run(ctx, cases, "all_routes", ("bars",))
    cases = []
    for _ in range(ctx.size(300, 3000)):
        n = r.randint(0, 8)
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), some(r, [1, 2], 4), rng=r))
    for _ in range(ctx.size(4, 60)):
        n = r.randint(9, ctx.size(11, 13))
        cases.append(g.case(r.choice(g.FIELDS), g.sym(n, lambda i, j: min((i - j) % n, (j - i) % n)), some(r, [1], 4), rng=r))
    for p in g.FIELDS:
        d = g.rp2(r)
        for _ in range(ctx.size(1, 6)):
            m = r.choice(["b_", "c_"])
            cases.append(g.case(p, d, [bars(1 if m == "c_" else 2, m + r.choice(["std", "clr"]), "plain")], rng=r))
    for _ in range(ctx.size(1, 6)):
        p = r.choice(g.FIELDS)
        cases.append(g.case(p, g.rp2(r), [bars(2, "c_" + a, "plain") for a in ("std", "clr")], rng=r))
    for _ in range(ctx.size(6, 60)):                # many points, degree 0
        n = r.randint(12, 40)
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), [bars(0, r.choice(g.ROUTES[4:]), r.choice(g.VIAS)), bars(1, r.choice(g.ROUTES[:4]), "plain")], rng=r))
    for n in [r.randint(47, 50)] if ctx.quick else [48, 50, 60, 66, 75]:       # more than 1024 edges
        m = r.choice("bc")
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), [bars(1 if m == "b" else 0, m + r.choice(["_std", "_clr"]), r.choice(g.VIAS))], rng=r))
    for n in [r.randint(150, 300)] * ctx.size(1, 6):
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), [bars(0, r.choice(["c_std", "c_clr"]), "plain")], rng=r))
    for _ in range(ctx.size(6, 60)):                # few points, all degrees
        n = r.randint(5, 7)
        cases.append(g.case(r.choice(g.FIELDS), g.random_dist(r, n), some(r, range(3, n + 2), 2), rng=r))
    for _ in range(ctx.size(16, 60)):                # one pair far apart, all degrees
        n = r.choice([6, 7, 8, 9])
        _, d = g.far_pair(r, n)
        cases.append(g.case(r.choice(g.FIELDS), d, some(r, [n - 1, n, r.randint(3, n)], 2), rng=r))
    for _ in range(ctx.size(2, 12)):                # spheres of dimension 3
        n = 8
        q = r.sample(range(n), n)
        d = g.sym(n, lambda i, j: 8 if q[i] // 2 == q[j] // 2 else r.choice([1, 2]))
        cases.append(g.case(r.choice(g.FIELDS), d, [bars(3, r.choice(g.ROUTES[4:]), r.choice(g.VIAS)), bars(4, r.choice(g.ROUTES[:4]), "plain")], rng=r))
    g.run(ctx, cases, "random", ("bars",))
