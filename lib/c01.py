"""C01: coefficient fields."""
from fractions import Fraction
from math import gcd
ASSUMPTIONS = ["rationals: numerators and denominators over the common denominator stay within the signed 64-bit range"]
FIELDS = [2, 3, 5, 7, 11, 13]


def prog(rng, p, n, lim, ev=(), vals=()):
    """random register program; the simulation only keeps rationals within range"""
    ev = list(ev) + [{"op": "one"}]
    vals = list(vals) + [Fraction(1) if p == 0 else 1]

    def norm(x):
        return x if p == 0 else x % p
    tries = 0
    while len(ev) < n and tries < 20 * n:
        tries += 1
        a = rng.randint(max(1, len(vals) - 25), len(vals)) if rng.random() < .7 else rng.randint(1, len(vals))
        b = rng.randint(1, len(vals))
        op = rng.choice(["add", "add", "addo", "mul", "neg", "inv", "eq", "one"] if p or lim > 10**6 else
                        ["add", "add", "addo", "mul", "neg", "inv", "eq"])
        x, y = vals[a - 1], vals[b - 1]
        r = 0
        if op == "one":
            r = norm(Fraction(1) if p == 0 else 1)
            if rng.random() < .8:
                continue
        elif op in ("add", "addo"):
            r = x + y
            if x == 0 or (op == "add" and y == 0):
                if rng.random() < .8:
                    continue
                r = 0
            elif p == 0:
                d = x.denominator * y.denominator // gcd(x.denominator, y.denominator)
                if d > lim or abs(x * d) > lim or abs(y * d) > lim or abs(r * d) > lim:
                    continue
        elif op == "mul":
            r = x * y
            if p == 0 and (abs(x.numerator * y.numerator) > lim or x.denominator * y.denominator > lim):
                continue
        elif op == "neg":
            r = -x
        elif op == "inv":
            if x == 0:
                r = 0
            else:
                r = 1 / x if p == 0 else pow(x, -1, p)
        elif op == "eq":
            r = 0
        if op in ("neg", "inv", "mul", "eq") and (x == 0 or (op in ("mul", "eq") and y == 0)):
            if rng.random() < .8:
                continue
            r = 0
        e = {"op": op}
        if op != "one":
            e["a"] = a
        if op in ("add", "addo", "mul", "eq"):
            e["b"] = b
        ev.append(e)
        vals.append(norm(r) if p else Fraction(r))
    return {"k": "fld", "p": p, "ev": ev}


def shape(rng, lim):
    """magnitudes around powers of two, of every length"""
    b = rng.randint(1, lim.bit_length() - 1)
    x = rng.choice([2 ** b, 2 ** b - 1, 2 ** b + 1, rng.getrandbits(b), rng.getrandbits(b), 10 ** rng.randint(0, 18), lim - rng.choice([0, 0, 1, 2])])
    return min(max(1, x), lim)


def lit_prog(rng, n, lim=2 ** 63 - 1):
    """rationals of every size, with denominators that share large factors"""
    gs = [shape(rng, 2 ** rng.choice([8, 20, 31, 33, 45])) for _ in range(2)] + [1]
    ev, vals = [], []
    for _ in range(rng.randint(3, 8)):
        g = rng.choice(gs)
        d = g * shape(rng, 2 ** rng.choice([1, 2, 6, 14, 16]))
        if rng.random() < .4:
            d = 1
        v = Fraction(rng.choice([1, -1]) * shape(rng, min(lim, 2 ** rng.choice([3, 12, 20, 31, 32, 40, 55, 62, 63, 63]))), d)
        if abs(v.numerator) * v.denominator <= lim or v.denominator == 1 or rng.random() < .5:
            if abs(v.numerator) <= lim and v.denominator <= lim:
                ev.append({"op": "lit", "v": [v.numerator, v.denominator]})
                vals.append(v)
    k = len(ev)
    out = prog(rng, 0, n + k, lim, ev, vals)
    return out


def limbs(n):
    out = []
    while n:
        out.append(n % 1000)
        n //= 1000
    return out


def big(v):
    n, d = v
    if n == 0:
        return [0, [], [1]] if d == 1 else [7, [], []]     # [0,0] = no field element
    return [1 if n > 0 else -1, limbs(abs(n)), limbs(d)]


def check(ctx):
    exe = ctx.harness("fld")
    ctx.model("FieldModel", ctx.size("FieldModel", "FieldModelT"))
    ctx.model("BigModel", "BigModel")
    cases = [dict(k="fld", **s) for s in ctx.generate("FieldGen", "FieldGen")]
    recs, _ = ctx.run_cases(exe, cases, "transitions")
    ctx.validate("FieldTrace", recs, "transitions", need=("one", "add", "addo", "mul", "neg", "inv", "eq"))
    rng = ctx.rng
    cases = [prog(rng, p, 60, 0) for p in FIELDS for _ in range(ctx.size(15, 300))]
    cases += [prog(rng, 0, 60, 12000) for _ in range(ctx.size(250, 5000))]
    recs, _ = ctx.run_cases(exe, cases, "random")
    ctx.validate("FieldTrace", recs, "random")
    cases = [prog(rng, 0, 70, 2 ** rng.choice([31, 33, 45, 62, 63]) - 1) for _ in range(ctx.size(250, 4000))]
    cases += [lit_prog(rng, rng.choice([6, 25])) for _ in range(ctx.size(900, 12000))]
    recs, _ = ctx.run_cases(exe, cases, "bigq")
    conv(recs)
    ctx.validate("FieldBigTrace", recs, "bigq", need=("lit", "add", "mul", "inv", "neg", "eq"))
    ctx.notes["largest_rational_digits"] = max(
        len(e["r"][1]) * 3 for r in recs for e in r["ev"] if e["op"] != "eq")


def conv(recs):
    """integers of a record -> digits base 1000 (TLC integers have 32 bits)"""
    for r in recs:
        for e in r["ev"]:
            if "v" in e and isinstance(e["v"][1], int):
                e["v"] = big(e["v"])
            if e["op"] != "eq" or e.get("na"):
                e["r"] = big(e["r"])


def replay(ctx, rep):
    exe = ctx.harness("fld")
    recs, _ = ctx.run_cases(exe, [rep["record"]], "replay")
    if rep["trace_spec"] == "FieldBigTrace":
        conv(recs)
    ctx.validate(rep["trace_spec"], recs, "replay")
