"""C05: column caches."""
import orc
ASSUMPTIONS = ["the user's matrix returns the same column whenever it is asked for it",
               "a copy of a cache may ask for a column again once"]
SETUPS = {
    "A": [{"op": "cache", "m": 1}, {"op": "prod", "a": 2, "b": 2}, {"op": "rec", "m": 3}, {"op": "cache", "m": 4}],
    "B": [{"op": "cache", "m": 1, "via": "manual"}, {"op": "prod", "a": 2, "b": 2}, {"op": "rec", "m": 3},
          {"op": "cache", "m": 4, "via": "manual"}]}
T2 = [[0, [[1, 0], [2, 1]]], [1, [[1, 0]]]]
T3 = [[0, [[1, 1]]], [1, [[1, 2], [1, 0]]], [2, []]]


def base(t):
    ids = [c[0] for c in t]
    return {"op": "base", "cols": t, "rows": ids, "f": [[r, r % 2] for r in ids], "b": ids}


def tail(n, ids):
    """read everything again at the end"""
    return ([{"op": "colf", "m": m, "x": x} for m in (2, 5) for x in ids] +
            [{"op": "meta", "m": m, "rs": ids} for m in (2, 5)])


def scripts(ctx, cfg, p, t):
    out = []
    for i, ev in enumerate(ctx.generate("CacheMC", cfg)):
        out.append({"k": "cache", "p": p, "ev": [base(t)] + SETUPS["AB"[i % 2]] + ev + tail(5, [c[0] for c in t])})
    return out


def by_ref(rng, e):
    """the cache itself or a reference to it"""
    return dict(e, ref=1) if rng.random() < .3 else e


def random_case(rng, n_ops):
    p = rng.choice(orc.FIELDS)
    ev, regs, kind, below, its = [], [], [], {}, {}
    ids = list(range(rng.choice([2, 3, 4, 5])))
    if rng.random() < .04:
        ids = list(range(rng.choice([17, 33, 40, 70])))
    elif rng.random() < .1:
        ids = sorted(rng.sample(range(9), len(ids)))

    def push(e, r, k):
        ev.append(e)
        regs.append(r)
        kind.append(k)

    def mk_base():
        t, S = [], 1
        for x in ids:
            col = [[orc.coef(rng, p), rng.choice(ids)] for _ in range(rng.choice([0, 1, 2, 3]))]
            S = max(S, 2 * len(col))
            t.append([x, col])
        b = rng.sample(ids, rng.randint(1, len(ids)))
        push({"op": "base", "cols": t, "rows": list(ids), "f": [[r, rng.randint(-2, 2)] for r in ids], "b": b},
             orc.Reg(ids, list(ids), True, b, None, S, 2 if p == 0 else 1), "rec")

    mk_base()
    if rng.random() < .4:
        mk_base()
    nxt = 1
    for _ in range(n_ops):
        x = rng.random()
        m = rng.randint(1, len(regs))
        r = regs[m - 1]
        if x < .25 and len(regs) < 12:
            op = rng.choice(["cache", "cache", "cache", "rec", "clone", "cons", "rev", "prod", "prod", "prod", "sum"])
            if op == "cache":
                # prefer to cache what has a recorder directly below
                recs = [i for i, k in enumerate(kind) if k == "rec"]
                if rng.random() < .7:
                    m = rng.choice(recs) + 1
                push(by_ref(rng, {"op": "cache", "m": m, "via": rng.choice(["", "manual"])}), regs[m - 1], "cache")
                below[len(regs)] = m
            elif op == "rec":
                push({"op": "rec", "m": m}, r, "rec")
            elif op == "clone":
                cs = [i + 1 for i, k in enumerate(kind) if k == "cache"]
                if cs:
                    m = rng.choice(cs)
                    push(by_ref(rng, {"op": "clone", "m": m, "below": below[m]}), regs[m - 1], "cache")
                    below[len(regs)] = below[m]
            elif op in ("cons", "rev"):
                push({"op": op, "m": m}, r.rev() if op == "rev" else r, "view")
            else:
                good = []
                for a in range(1, len(regs) + 1):
                    for b in range(1, len(regs) + 1):
                        u, v = regs[a - 1], regs[b - 1]
                        s, q = (u.S * v.S if op == "prod" else u.S + v.S), u.Q * v.Q
                        ok = set(v.rows) <= set(u.cols) if op == "prod" else set(u.cols) == set(v.cols)
                        if ok and s <= 800 and (p or s * q * q < 2 ** 28):
                            w = 1 + (kind[a - 1] == "cache") * 3 + (kind[b - 1] == "cache") * 3
                            good += [(a, b, s, q)] * w
                if good:
                    a, b, s, q = rng.choice(good)
                    u, v = regs[a - 1], regs[b - 1]
                    push({"op": op, "a": a, "b": b},
                         orc.Reg(v.cols, u.rows, u.F, v.B, None, s, q) if op == "prod" else
                         orc.Reg(u.cols, sorted(set(u.rows) | set(v.rows)), False, None, None, s, q), "view")
            continue
        # mostly through caches and what is built on them
        good = [i + 1 for i, k in enumerate(kind) if k != "rec"]
        if good and rng.random() < .95:
            m = rng.choice(good)
        elif rng.random() < .7:
            continue
        r = regs[m - 1]
        c = rng.choice(r.cols)
        if x < .45:
            ev.append({"op": "open", "i": nxt, "m": m, "x": c})
            its[nxt] = [m, c]
            nxt += 1
        elif x < .75:
            if its:
                i = rng.choice(list(its))
                for _ in range(rng.choice([1, 1, 2, 4])):
                    ev.append({"op": "next", "i": i})
        elif x < .79:
            if its:
                i = rng.choice(list(its))
                ev.append({"op": "drop", "i": i})
                del its[i]
        elif x < .87:
            ev.append({"op": "col", "m": m, "x": c})
        elif x < .92 and r.F:
            ev.append({"op": rng.choice(["colf", "heap"]), "m": m, "x": c})
        elif x < .96:
            ev.append({"op": "meta", "m": m, "rs": r.rows})
        elif r.F and r.B is not None and p and set(r.B) <= set(r.cols) and r.S <= 100:
            ev.append({"op": "reduce", "m": m})
    for m, r in enumerate(regs, 1):
        if kind[m - 1] == "cache":
            ev += [{"op": rng.choice(["col", "colf", "heap"]) if r.F else "col", "m": m, "x": x} for x in r.cols] + [{"op": "meta", "m": m, "rs": r.rows}]
    return {"k": "cache", "p": p, "ev": ev}


def long_case(rng, n, width):
    """many columns, or very long ones, each asked for again and again (directly and while iterators are alive)"""
    p = rng.choice(orc.FIELDS)
    ids = rng.sample(range(3 * n), n) if rng.random() < .5 else list(range(n))
    wide = set(rng.sample(ids, min(n, 4)))
    t = []
    for x in ids:
        k = rng.randint(width // 2, width) if x in wide else rng.choice([0, 1, 1, 2])
        t.append([x, [[orc.coef(rng, p), rng.choice(ids)] for _ in range(k)]])
    ev = [{"op": "base", "cols": t, "rows": list(ids), "f": [[r, rng.randint(-2, 2)] for r in ids], "b": rng.sample(ids, n)},
          by_ref(rng, {"op": "cache", "m": 1, "via": rng.choice(["", "manual"])})]
    late = rng.sample(ids, min(n, 4)) + sorted(wide)
    for i, x in enumerate(late):
        ev.append({"op": "open", "i": i, "m": 2, "x": x})
        ev += [{"op": "next", "i": i}] * rng.randint(0, 2)
    seq = rng.sample(ids, n)
    ev += [{"op": rng.choice(["col", "col", "colf"]), "m": 2, "x": x} for x in seq + rng.sample(seq, n) + sorted(wide)]
    for i, x in enumerate(late):
        ev += [{"op": "next", "i": i}] * (2 + sum(len(c) for y, c in t if y == x))
    return {"k": "cache", "p": p, "ev": ev}


def check(ctx):
    exe = ctx.harness("cache")
    cases = scripts(ctx, "CacheMC", 3, T2)
    if not ctx.quick:
        cases += scripts(ctx, "CacheMCT", 2, T3)
    recs, _ = ctx.run_cases(exe, cases, "transitions")
    ctx.validate("CacheTrace", recs, "transitions", need=("open", "next", "drop"))
    cases = [random_case(ctx.rng, ctx.rng.choice([20, 50])) for _ in range(ctx.size(2000, 30000))]
    cases += [long_case(ctx.rng, n, w) for n, w in [(3, 80), (2, 300), (300, 5), (1030, 3)] * ctx.size(1, 5) + ([] if ctx.quick else [(4200, 3)])]
    recs, _ = ctx.run_cases(exe, cases, "random")
    ctx.validate("CacheTrace", recs, "random",
                 need=("cache", "clone", "rec", "prod", "sum", "cons", "rev", "open", "next", "drop", "col", "colf", "heap",
                       "meta", "reduce"))


def replay(ctx, rep):
    recs, _ = ctx.run_cases(ctx.harness("cache"), [rep["record"]], "replay")
    ctx.validate("CacheTrace", recs, "replay")
