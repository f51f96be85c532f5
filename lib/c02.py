"""C02: column heaps."""
FIELDS = [2, 3, 5, 7, 11, 13, 0]
RT = ["usize", "isize", "rusize", "rrix", "name"]
FT = ["unit", "usize", "isize", "f64", "f32", "rf64", "runit", "name"]
ASSUMPTIONS = ["equal rows carry equal filtration values (documented precondition of ColumnEntry)"]


def coef(rng, p):
    if p:
        return rng.randint(1, p - 1)
    from fractions import Fraction
    x = Fraction(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 1, 2, 3]))
    return [x.numerator, x.denominator]


def neg(p, c):
    return p - c if p else [-c[0], c[1]]


def random_case(rng, n_ops, big=0):
    p = rng.choice(FIELDS)
    rt, ft = (rng.choice(RT), rng.choice(FT)) if p in (2, 3) else ("usize", "f64")
    nrows = rng.choice([2, 3, 4, 6, 12]) if not big else rng.choice([30, 80, 300] if big != 2 else [5, 700])
    rows = rng.sample(range(1, 40 if not big else 2000), nrows)
    if ft in ("unit", "runit"):
        filt = {r: 0 for r in rows}
    else:
        vals = [rng.randint(0, 12) for _ in range(rng.choice([1, 2, nrows]))]
        filt = {r: rng.choice(vals) for r in rows}
    nh = rng.choice([1, 1, 2, 3])
    ev, past = [], []

    def term():
        if past and rng.random() < 0.35:          # cancel or repeat an earlier term
            c, r, f = rng.choice(past)
            t = [neg(p, c) if rng.random() < 0.75 else c, r, f]
        else:
            r = rng.choice(rows)
            t = [coef(rng, p), r, filt[r]]
        past.append(t)
        return t

    if big == 3:                                  # bulk additions onto heaps holding little, and small ones onto large heaps
        for h in range(1, nh + 1):
            for _ in range(2):
                for t in [term() for _ in range(rng.choice([0, 1, 3, 10, 40]))]:
                    ev.append({"op": "add", "h": h, "t": t, "via": "entry"})
                if rng.random() < .5:
                    ev.append({"op": "adds", "h": h, "ts": [term() for _ in range(rng.choice([0, 1, 20, 90]))], "via": "entries"})
                n = rng.choice([100, 300, 700, 1100])
                ts = [term() for _ in range(n)]
                if rng.random() < .35:
                    ev.append({"op": "addsc", "h": h, "c": coef(rng, p), "ts": ts})
                else:
                    ev.append({"op": "adds", "h": h, "ts": ts, "via": rng.choice(["entries", "tuples", "entries", "filtered"])})
                ev.append({"op": rng.choice(["clone", "pop", "peek"]), "h": h})
                if rng.random() < .4:
                    ev.append({"op": "drain", "h": h, "n": rng.choice([3, nrows // 2, 2 * nrows])})
    elif big:                                     # many live rows, many terms on each
        for h in range(1, nh + 1):
            for _ in range(rng.choice([1, 5]) if big == 1 else 1):
                ts = [term() for _ in range(rng.randint(nrows // 2, 2 * nrows) if nrows > 20 else 1100)]
                if big == 2 and nrows > 20 and rng.random() < .7:       # every row once
                    ts = [[coef(rng, p), r, filt[r]] for r in rows]
                    rng.shuffle(ts)
                    past += ts
                ev.append({"op": "adds", "h": h, "ts": ts, "via": rng.choice(["entries", "tuples", "filtered"])})
                if rng.random() < .5:
                    ev.append({"op": "addsc", "h": h, "c": coef(rng, p), "ts": rng.sample(ts, len(ts) // 2)})
            if rng.random() < .3:
                ev.append({"op": "drain", "h": h, "n": rng.randint(0, 2 * nrows)})
    for _ in range(n_ops):
        h = rng.randint(1, nh)
        x = rng.random()
        if x < 0.30:
            ev.append({"op": "add", "h": h, "t": term(), "via": rng.choice(["entry", "tuple"])})
        elif x < 0.42:
            ev.append({"op": "adds", "h": h, "ts": [term() for _ in range(rng.randint(0, 7))],
                       "via": rng.choice(["entries", "tuples", "filtered"])})
        elif x < 0.50:
            ev.append({"op": "addsc", "h": h, "c": coef(rng, p), "ts": [term() for _ in range(rng.randint(1, 5))]})
        elif x < 0.64:
            ev.append({"op": "pop", "h": h})
        elif x < 0.76:
            ev.append({"op": "clone", "h": h})
        elif x < 0.86:
            ev.append({"op": "peek", "h": h})
        elif x < 0.92:
            ev.append({"op": "drain", "h": h, "n": rng.randint(0, 4)})
        elif x < 0.94:
            ev.append({"op": "vec", "h": h})
        elif x < 0.97 and nh > 1:
            ev.append({"op": "copy", "h": h, "from": rng.choice([g for g in range(1, nh + 1) if g != h])})
        elif x < .985:
            ev.append({"op": "cmp", "h": h, "a": term(), "b": term()})
        else:
            ev.append({"op": "scale", "h": h, "t": term(), "c": coef(rng, p)})
    return finish({"k": "heap", "p": p, "rt": rt, "ft": ft, "nh": nh, "ev": ev}, big)


def finish(case, big=0):
    """observe the final contents"""
    for h in range(1, case["nh"] + 1):
        if big:
            case["ev"] += [{"op": "copy", "h": h, "from": h % case["nh"] + 1}] if case["nh"] > 1 else []
            case["ev"] += [{"op": "drain", "h": h, "n": 3000}, {"op": "peek", "h": h}]
            continue
        case["ev"] += [{"op": "clone", "h": h}, {"op": "peek", "h": h}, {"op": "vec", "h": h}, {"op": "pop", "h": h},
                       {"op": "peek", "h": h}]
    return case


def scripts(ctx, cfg, p, nh):
    cases = []
    for i, ev in enumerate(ctx.generate("HeapGen", cfg)):
        cases.append(finish({"k": "heap", "p": p, "rt": RT[i % len(RT)],
                             "ft": ["usize", "isize", "f64", "f32", "rf64", "name"][(i // 5) % 6], "nh": nh, "ev": ev}))
    return cases


def check(ctx):
    exe = ctx.harness("heap")
    ctx.model("HeapMC", "HeapMC")
    cases = scripts(ctx, ctx.size("HeapGen", "HeapGenT"), 3, 1) + scripts(ctx, "HeapGen2", 2, 2)
    recs, _ = ctx.run_cases(exe, cases, "transitions")
    ctx.validate("HeapTrace", recs, "transitions", need=("add", "pop", "clone", "peek", "drain", "vec", "copy"))
    n = ctx.size(3000, 30000)
    cases = [random_case(ctx.rng, ctx.rng.choice([8, 20, 60])) for _ in range(n)]
    cases += [random_case(ctx.rng, 400) for _ in range(ctx.size(10, 100))]
    cases += [random_case(ctx.rng, ctx.rng.choice([5, 30]), 1) for _ in range(ctx.size(40, 400))]
    cases += [random_case(ctx.rng, 5, 2) for _ in range(ctx.size(6, 60))]
    cases += [random_case(ctx.rng, 5, 3) for _ in range(ctx.size(16, 160))]
    recs, _ = ctx.run_cases(exe, cases, "random")
    ctx.validate("HeapTrace", recs, "random", need=("adds", "addsc", "scale", "copy", "cmp"))


def replay(ctx, rep):
    exe = ctx.harness("heap")
    c = rep["record"]
    recs, _ = ctx.run_cases(exe, [c], "replay")
    ctx.validate("HeapTrace", recs, "replay")
