"""C09: the clearing reduction returns a valid R = DV."""
import redgen as g
from redgen import replay
ASSUMPTIONS = ["rationals: inputs whose reduction keeps numerators and denominators small",
               "dimensions are reduced in the documented order"]


def ops(rng, nd, rev):
    return [{"op": "clr", "see": ["v"], "order": g.degree_order(rng, nd, rev)}]


def ops_full(rng, nd, rev):
    return [{"op": "clr", "see": ["v"], "order": g.degree_order(rng, nd, rev, True)}]


def check(ctx):
    r = ctx.rng
    ctx.model("ClrAlgo", ctx.size("ClrAlgo2", "ClrAlgoT"))
    ctx.model("ClrAlgo", "ClrAlgo3")
    ctx.model("ClrAlgo", "ClrAlgoSub")
    cases = g.model_complexes(ctx, ctx.size("RedGenClr2", "RedGenClrT"), 2, ops_full)
    cases += g.model_complexes(ctx, "RedGenClr3", 3, ops_full) + g.model_complexes(ctx, "RedGenClr2", 2, ops)
    g.run(ctx, cases, "all_small_complexes", ("setup", "clr", "v", "cyc"))
    n = ctx.size(2000, 30000)
    rc = lambda big=False: (lambda p: g.complex_case(r, p, *g.random_complex(r, p, big), ops))(r.choice(g.FIELDS))
    g.run(ctx, g.many(n, rc), "random", ("v", "cyc"))
    cases = g.many(ctx.size(20, 200), lambda: rc(True))
    p = r.choice([2, 3, 5, 7, 11, 13])
    cases += g.many(ctx.size(1, 6), lambda: g.complex_case(r, p, *g.random_complex(r, p, 2), ops))
    cases += g.chains(ctx, ops)
    cases += g.wides(ctx, ops_full)
    g.run(ctx, cases, "large", ("v", "cyc"))
