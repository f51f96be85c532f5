"""C08: the standard diagram is the persistence pairing."""
import redgen as g
from redgen import replay
ASSUMPTIONS = ["rationals: inputs whose reduction keeps numerators and denominators small"]


def ops(rng, nd, rev):
    how = rng.choice(["diag", "both"])
    return [{"op": "std", "see": ["diag"], "sub": 0 if rng.random() < .8 else rng.randint(1, nd), "flag": rng.random() < .5, "how": how}]


def check(ctx):
    r = ctx.rng
    ctx.model("RedModel", "RedModel2")
    ctx.model("RedModel", "RedModel3")
    ctx.model("StdAlgo", "StdAlgo2")
    cases = g.model_matrices(ctx, "RedGenStd2", 2, ops) + g.model_matrices(ctx, "RedGenStd3", 3, ops)
    cases += g.model_complexes(ctx, ctx.size("RedGenClr2", "RedGenClrT"), 2, ops, "any")
    cases += g.model_complexes(ctx, "RedGenClr3", 3, ops, "any")
    g.run(ctx, cases, "all_small_inputs", ("setup", "std", "diag"))
    n = ctx.size(1500, 25000)
    rc = lambda big=False: (lambda p: g.complex_case(r, p, *g.random_complex(r, p, big), ops, order="any"))(r.choice(g.FIELDS))
    cases = g.many(n, rc) + g.many(n // 4, lambda: g.matrix_case(r, r.choice(g.FIELDS), r.randint(0, 12), ops, r.choice([2, 3, 5])))
    g.run(ctx, cases, "random", ("diag",))
    cases = g.many(ctx.size(20, 200), lambda: rc(True))
    p = r.choice([2, 3, 5, 7, 11, 13])
    cases += g.many(ctx.size(1, 6), lambda: g.complex_case(r, p, *g.random_complex(r, p, 2), ops, order="any"))
    cases += g.chains(ctx, ops, "any", True)
    cases += g.wides(ctx, ops, "any")
    g.run(ctx, cases, "large", ("diag",))
