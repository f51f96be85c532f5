"""C12-C15: inputs for the Vietoris-Rips checks (shared driver).  Nothing here decides a property."""
import itertools, math
FIELDS = [2, 3, 5, 7, 11, 13, 0]
INF = 999999
VIEWS = ["inner", "plain", "ref", "cached", "cons", "sub", "unrev", "rev"]
ROUTES = ["b_std", "b_stdt", "b_read", "b_clr", "c_std", "c_stdt", "c_read", "c_clr"]
VIAS = ["plain", "plain", "cached", "cons"]


def sym(n, f):
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = f(i, j)
    return d


def random_dist(rng, n, big=False):
    k = rng.randint(0, 7)
    if k == 0:
        return sym(n, lambda i, j: rng.randint(1, 400))                       # generic
    if k == 1:
        return sym(n, lambda i, j: rng.randint(1, rng.choice([2, 3, 5])))     # many ties
    if k == 2:
        return sym(n, lambda i, j: rng.choice([0, 0, 1, 2, 4]))               # coincident points
    if k == 3:
        return sym(n, lambda i, j: rng.choice([1, 2, 4, INF]))                # disconnected
    if k == 4 and n > 2:                                                      # a cycle (a long bar in degree 1)
        return sym(n, lambda i, j: min((i - j) % n, (j - i) % n) * rng.choice([1, 1, 4]))
    if k == 5 and n > 5:                                                      # octahedra: a bar in degree 2
        perm = rng.sample(range(n), n)
        return sym(n, lambda i, j: 8 if abs(perm[i] - perm[j]) * 2 == n - n % 2 else rng.choice([1, 2]))
    if k == 6:                                                                # points of a grid
        pts = [(rng.randint(0, 9), rng.randint(0, 9)) for _ in range(n)]
        return sym(n, lambda i, j: abs(pts[i][0] - pts[j][0]) + abs(pts[i][1] - pts[j][1]))
    perm = rng.sample(range(1, n * (n - 1) // 2 + 1), n * (n - 1) // 2)       # all distances differ
    return sym(n, lambda i, j: perm[i * (i - 1) // 2 + j])


def far_pair(rng, n):
    """one pair far apart (any position): it alone decides the diameters of the simplices that contain it"""
    a, b = rng.choice([sorted(rng.sample(range(n), 2)), [0, 1], [0, n - 1], [n - 2, n - 1]])
    k = rng.choice([1, 1, 3, 30])
    return (a, b), sym(n, lambda i, j: 50 if (j, i) == (a, b) else rng.randint(1, k))


# a flag triangulation of the projective plane: its barcode depends on the field
RP2 = [(0, 1), (0, 2), (0, 3), (0, 4), (0, 6), (0, 8), (1, 2), (1, 5), (1, 8), (1, 9), (2, 4), (2, 5), (2, 7), (3, 4),
       (3, 5), (3, 6), (3, 9), (4, 7), (4, 9), (4, 10), (5, 6), (5, 7), (5, 9), (6, 7), (6, 8), (7, 8), (7, 10), (8, 9),
       (8, 10), (9, 10)]


def rp2(rng):
    perm = rng.sample(range(11), 11)
    e = {frozenset((perm[a], perm[b])) for a, b in RP2}
    return sym(11, lambda i, j: rng.choice([1, 1, 1, 2]) if frozenset((i, j)) in e else 5)


def simplices(n, dims, rng=None, most=None):
    s = [list(x) for k in dims for x in itertools.combinations(range(n), k + 1)]
    if most and len(s) > most:
        s = rng.sample(s, most)
    return s


def up(x, k=1):
    for _ in range(k):
        x = math.nextafter(x, math.inf)
    return x


def increasing(rng, m):
    """m increasing positive doubles of some awkward kind"""
    k = rng.randint(0, 9)
    if k == 0:                                           # neighbours
        v, b = [], rng.choice([1.0, 0.1, 3e-9, 16777216.0, 1e17, 2.0 ** -1060])
        for _ in range(m):
            b = up(b, rng.randint(1, 3))
            v.append(b)
        return v
    if k == 1:                                           # differ from the eighth digit on
        return [1 + i * 1e-8 for i in range(1, m + 1)]
    if k == 2:                                           # differ from the thirteenth digit on
        return [.7 + i * 1e-13 for i in range(1, m + 1)]
    if k == 3:                                           # above 2^24, 2^32, 2^53
        b = rng.choice([2 ** 24, 2 ** 32, 2 ** 53])
        return [float(b + 2 * i) for i in range(1, m + 1)]
    if k == 4:
        return sorted(5e-324 * x for x in rng.sample(range(1, 5 * m), m))
    if k == 5:                                           # up to the greatest double
        return sorted([1.7976931348623157e308] + [x * 1e300 for x in rng.sample(range(1, 10 ** 6), m - 1)]) if m else []
    if k == 6:                                           # within one unit
        return sorted(x / 10007 for x in rng.sample(range(1, 10007), m))
    if k == 7:                                           # all magnitudes
        return sorted({rng.uniform(1, 9) * 10.0 ** rng.randint(-300, 300) for _ in range(m)})
    return sorted({rng.random() * rng.choice([1, 10, 1000]) for _ in range(m)})


def awkward(rng, c):
    """the same case with other distances in the same order"""
    vs = sorted({x for row in c["d"] for x in row} - {INF, 0})
    while True:
        t = increasing(rng, len(vs))
        if len(t) == len(vs) and all(a < b for a, b in zip(t, t[1:])):
            break
    at = {x: i + 1 for i, x in enumerate(vs)}
    at[0], at[INF] = 0, INF
    c["d"] = [[at[x] for x in row] for row in c["d"]]
    c["vals"] = [rng.choice(["0", "0", "-0.0"])] + [repr(x) for x in t]
    return c


def case(p, d, ops, scale=4, rng=None):
    c = {"k": "rips", "p": p, "n": len(d), "d": d, "scale": scale, "ops": ops}
    return awkward(rng, c) if rng and rng.random() < .4 else c


def model_dists(ctx, cfg):
    return [c["d"] for c in ctx.generate("RipsModel", cfg, workers=1)]


def run(ctx, cases, name, need=(), **kw):
    recs, _ = ctx.run_cases(ctx.harness("rips"), cases, name)
    ctx.validate("RipsTrace", recs, name, need=need, **kw)


def replay(ctx, rep):
    rec = dict(rep["record"])
    for k in ("ev", "outcome", "msg"):
        rec.pop(k, None)
    run(ctx, [rec], "replay")
