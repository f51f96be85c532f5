"""C12: simplex indices and bases."""
import rips as g
from rips import replay
ASSUMPTIONS = ["indices are 64-bit; lists whose positional value does not fit are outside the property"]


def enc(s):
    return {"op": "enc", "s": list(s)}


def bases(ctx, n, ks):
    return [{"op": "order", "k": k} for k in range(0, max(ks) + 1)] + [
        {"op": "basis", "how": h, "k": k} for k in ks for h in ("build", "bd", "cobd")]


def codec_cases(ctx):
    r = ctx.rng
    res = []
    import itertools
    # every list of length <= 3 (also with repetitions, in any order) for few points
    for n in range(1, 5):
        ls = [x for m in range(1, 4 if n > 2 else 6) for x in itertools.product(range(n), repeat=m)]
        res.append(g.case(2, [[0] * n] * n, [enc(s) for s in ls]))
    # all simplices
    for n in range(5, 9):
        ls = [x for m in range(1, n + 1) for x in itertools.combinations(range(n), m)]
        res.append(g.case(2, [[0] * n] * n, [enc(s) for s in ls[:ctx.size(120, 400)]]))
    # large numbers of points, long lists, close to the greatest index
    for _ in range(ctx.size(300, 6000)):
        b = r.choice([2, 3, 5, 10, 16, 21, 100, 255, 256, 1000, 1625, 2642244, 65535, 65534, r.randint(1, 2000), r.randint(1, 10 ** 6)])
        n = b
        top, v = 0, n + 1
        while v <= 2 ** 64:
            top, v = top + 1, v * (n + 1)
        ops = []
        for _ in range(4):
            m = r.choice([top, top, r.randint(1, top)])
            how = r.randint(0, 4)
            s = ([n - 1] * m if how == 0 else [0] * m if how == 1 else
                 [r.randint(0, n - 1) for _ in range(m)] if how < 4 or m > n else sorted(r.sample(range(n), m)))
            if how == 3:
                s[-1] = 0
            ops.append(enc(s))
        s = list(ops[0]["s"])
        ops.append(enc(s))
        s[r.randrange(len(s))] = r.randint(0, n - 1)
        ops.append(enc(s))
        # one digit more than always fits
        if r.random() < .5:
            ops.append(enc([r.randint(0, n - 1) for _ in range(top)] + [r.choice([0, 0, 1, n - 1]) % n]))
        c = g.case(2, [], ops)
        c["n"] = n
        res.append(c)
    return res


def check(ctx):
    r = ctx.rng
    ctx.model("RipsModel", "RipsModel2")
    ctx.model("CodecModel", "CodecModel")
    g.run(ctx, codec_cases(ctx), "codec", ("enc",))
    ds = g.model_dists(ctx, ctx.size("RipsGen", "RipsGenT"))
    cases = [g.case(2, d, bases(ctx, len(d), [r.choice([0, 1, 2, 3, 5])] if len(d) > 3 else range(0, 6)), rng=r) for d in ds]
    g.run(ctx, cases, "all_small", ("order", "basis"))
    cases = []
    for _ in range(ctx.size(400, 2500)):
        n = r.choice([0, 1, 5, 6, 7, 8])
        cases.append(g.case(2, g.random_dist(r, n), bases(ctx, n, [r.choice([0, 1, 2, 3, n, n + 1]) if n < 7 else r.randint(0, 3)]), rng=r))
    g.run(ctx, cases, "random", ("basis",))
    cases = []
    for _ in range(ctx.size(24, 200)):              # long simplices, one pair far apart
        n = r.choice([7, 8, 9, 9, 10])
        _, d = g.far_pair(r, n)
        k = r.choice([r.randint(4, n - 1), n - 1])
        cases.append(g.case(2, d, bases(ctx, n, [k])[:k + 1] + [{"op": "basis", "how": r.choice(["build", "bd", "cobd"]), "k": k}], rng=r))
    for _ in range(ctx.size(3, 30)):
        n = r.randint(9, 16)
        cases.append(g.case(2, g.random_dist(r, n), bases(ctx, n, [r.randint(1, 2)]), rng=r))
    for n, k in ctx.size([(70, 1), (24, 2), (300, 0), (9, 8)], [(80, 1), (100, 1), (26, 2), (30, 2), (400, 0), (10, 9), (9, 8)] * 2):
        d = g.random_dist(r, n)
        cases.append(g.case(2, d, bases(ctx, n, [k])[:k + 1] + [{"op": "basis", "how": r.choice(["build", "bd", "cobd"]), "k": k}], rng=r))
    g.run(ctx, cases, "large", ("basis",))
    # more simplices than 2^16
    cases = []
    for n, k in ctx.size([r.choice([(370, 1), (76, 2), (38, 3)])], [(370, 1), (76, 2), (38, 3), (520, 1), (100, 2), (13, 12)]):
        cases.append(g.case(2, g.random_dist(r, n), [{"op": "long", "how": r.choice(["build", "bd", "cobd"]), "k": k}], rng=r))
    for n, k in [(r.randint(91, 130), 1), (r.randint(30, 40), 2), (r.randint(14, 20), 4)]:
        cases.append(g.case(2, g.random_dist(r, n), [{"op": "long", "how": h, "k": k} for h in ("build", "bd", "cobd")], rng=r))
    g.run(ctx, cases, "long", ("long",))
