"""C07: the standard reduction returns a valid R = DV."""
import redgen as g
from redgen import replay
ASSUMPTIONS = ["rationals: inputs whose reduction keeps numerators and denominators small"]


def ops(rng, nd, rev):
    return [{"op": "std", "see": ["v"], "sub": 0 if rng.random() < .75 else rng.randint(1, nd), "flag": rng.random() < .5,
             "how": rng.choice(["algo", "diag"])}]


def check(ctx):
    r = ctx.rng
    ctx.model("RedModel", "RedModel2")
    ctx.model("RedModel", "RedModel3")
    ctx.model("StdAlgo", "StdAlgo2")
    ctx.model("StdAlgo", "StdAlgo3")
    cases = g.model_matrices(ctx, "RedGenStd2", 2, ops) + g.model_matrices(ctx, "RedGenStd3", 3, ops)
    g.run(ctx, cases, "all_small_matrices", ("setup", "std", "v"))
    n = ctx.size(1500, 25000)
    cases = g.many(n, lambda: g.matrix_case(r, r.choice(g.FIELDS), r.randint(0, 12), ops, r.choice([2, 3, 5])))
    cases += g.many(n // 3, lambda: g.complex_case(r, *(lambda p: (p, *g.random_complex(r, p)))(r.choice(g.FIELDS)), ops, order="any"))
    g.run(ctx, cases, "random", ("v",))
    cases = g.many(ctx.size(6, 60), lambda: g.matrix_case(r, r.choice([2, 3, 5, 7, 11, 13]), r.randint(30, 60), ops, 3))
    cases += g.many(ctx.size(6, 60), lambda: g.complex_case(r, *(lambda p: (p, *g.random_complex(r, p, True)))(r.choice(g.FIELDS)), ops, order="any"))
    p = r.choice([2, 3, 5, 7, 11, 13])
    cases += g.many(ctx.size(1, 6), lambda: g.matrix_case(r, p, r.randint(100, 140), ops, 2))
    cases += g.many(ctx.size(1, 6), lambda: g.complex_case(r, p, *g.random_complex(r, p, 2), ops, order="any"))
    cases += g.chains(ctx, ops, "any", True)
    cases += g.wides(ctx, ops, "any")
    g.run(ctx, cases, "large", ("v",))
