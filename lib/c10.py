"""C10: clearing and standard algorithm return the same diagram."""
import redgen as g
from redgen import replay
ASSUMPTIONS = ["rationals: inputs whose reduction keeps numerators and denominators small",
               "dimensions are reduced in the documented order"]


def ops(rng, nd, rev):
    std = {"op": "std", "see": ["diag"], "sub": 0, "flag": rev, "how": "diag"}
    full = {"op": "clr", "see": ["diag"], "order": g.degree_order(rng, nd, rev, True)}
    part = {"op": "clr", "see": ["diag"], "order": g.degree_order(rng, nd, rev)}
    one = rng.randint(1, nd)
    return [std, full, part] + ([{"op": "clr", "see": ["diag"], "order": [one]}, {"op": "std", "see": ["diag"], "sub": one, "flag": rev, "how": "diag"},
                                 {"op": "clr", "see": ["diag"], "order": [one]}] if rng.random() < .4 else [])


def check(ctx):
    r = ctx.rng
    ctx.model("ClrAlgo", ctx.size("ClrAlgo2", "ClrAlgoT"))
    ctx.model("ClrAlgo", "ClrAlgo3")
    ctx.model("RedModel", "RedModel2")
    cases = g.model_complexes(ctx, ctx.size("RedGenClr2", "RedGenClrT"), 2, ops)
    cases += g.model_complexes(ctx, "RedGenClr3", 3, ops)
    g.run(ctx, cases, "all_small_complexes", ("setup", "std", "clr", "diag"))
    n = ctx.size(1200, 20000)
    rc = lambda big=False: (lambda p: g.complex_case(r, p, *g.random_complex(r, p, big), ops))(r.choice(g.FIELDS))
    g.run(ctx, g.many(n, rc), "random", ("diag",))
    cases = g.many(ctx.size(12, 120), lambda: rc(True))
    p = r.choice([2, 3, 5, 7, 11, 13])
    cases += g.many(ctx.size(1, 6), lambda: g.complex_case(r, p, *g.random_complex(r, p, 2), ops))
    cases += g.chains(ctx, ops)
    cases += g.wides(ctx, ops)
    g.run(ctx, cases, "large", ("diag",))
