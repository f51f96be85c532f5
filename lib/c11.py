"""C11: which requests reach the user's matrix."""
import orc
import redgen as g
ASSUMPTIONS = ["requests are recorded by a user-supplied matrix; looking at the returned matrix V afterwards is not part of the reduction"]


def ops(rng, nd, rev):
    o = [{"op": "std", "sub": 0 if rng.random() < .5 else rng.randint(1, nd), "flag": rng.random() < .5,
          "how": rng.choice(["algo", "diag", "both"]), "log": 1, "see": []},
         {"op": "clr", "order": g.degree_order(rng, nd, rev), "log": 1, "see": []}]
    return [rng.choice(o)] if rng.random() < .6 else o


def mops(rng, nd, rev):
    return [{"op": "std", "sub": 0, "flag": rng.random() < .5, "how": rng.choice(["algo", "diag", "both"]), "log": 1, "see": []}]


def check(ctx):
    r = ctx.rng
    ctx.model("ClrAlgo", "ClrAlgo2")
    cases = g.model_complexes(ctx, ctx.size("RedGenClr2", "RedGenClrT"), 2, ops)
    g.run(ctx, cases, "all_small_complexes", ("setup", "std", "clr", "req"))
    n = ctx.size(1200, 20000)
    rc = lambda big=False: (lambda p: g.complex_case(r, p, *g.random_complex(r, p, big), ops, order="any"))(r.choice(g.FIELDS))
    cases = g.many(n, rc) + g.many(n // 2, lambda: g.matrix_case(r, r.choice(g.FIELDS), r.randint(0, 10), mops, r.choice([2, 3, 5])))
    g.run(ctx, cases, "random", ("req",))
    cases = g.many(ctx.size(10, 100), lambda: rc(True))
    p = r.choice([2, 3, 5, 7, 11, 13])
    cases += g.many(ctx.size(1, 6), lambda: g.complex_case(r, p, *g.random_complex(r, p, 2), ops, order="any"))
    cases += g.chains(ctx, ops, "any")
    cases += g.wides(ctx, ops, "any")
    g.run(ctx, cases, "large", ("req",))
    # adaptors and combinators over user-supplied matrices: building asks for nothing, listing a column only for what it needs
    w = {k: 2 for k in orc.ALL}
    w.update(ask=40, prod=8, sum=5, prodprod=4, sumprod=4, split=4, cache=4)
    cases = [orc.program(r, w, 24, ("custom",)) for _ in range(ctx.size(1500, 20000))]
    for c in cases:
        c["log"] = 1
    recs, _ = ctx.run_cases(ctx.harness("mat"), cases, "programs")
    ctx.validate("OracleTrace", recs, "programs", need=orc.ALL + ["ask"])


def replay(ctx, rep):
    (orc if rep["trace_spec"] == "OracleTrace" else g).replay(ctx, rep)
