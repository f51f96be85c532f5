"""C03 C04 C06: programs over matrix oracles (shared driver).  The generator only tracks which ids a
register has and which operations apply to it; all values are decided by spec/OracleTrace.tla."""
FIELDS = [2, 3, 5, 7, 11, 13, 0]
ALL = ["trivial", "filt", "discard", "basis", "split", "cons", "cache", "ref", "ptr", "rev", "unrev", "revunrev",
       "revrev", "revsub", "unrevsub", "subrev", "sub", "index", "revindex", "subindex", "prod", "sum", "prodcons",
       "prodprod", "sumprod"]
VIAS = {"vecvec": ["owned", "borrowed", "cow", "new", "allone"], "mapvec": ["owned", "ref"], "basis": ["vec", "ref", "new", "lit"],
        "split": ["own", "ref"], "cache": ["", "manual", "clone"], "ref": ["", "refref"], "ptr": ["box", "rc", "arc"],
        "rev": ["", "ref"], "revunrev": ["inherent", "ref", ""], "prod": ["", "ref", "clone"], "sum": ["", "ref"],
        "prodprod": ["", "cached", "cons"]}


class Reg:
    def __init__(self, cols, rows, F=False, B=None, D=None, S=1, Q=1):
        self.cols, self.rows, self.F, self.B, self.D, self.S, self.Q = cols, rows, F, B, D, S, Q

    def but(self, **k):
        r = Reg(self.cols, self.rows, self.F, self.B, self.D, self.S, self.Q)
        r.__dict__.update(k)
        return r

    def rev(self):
        n = lambda s: [-x for x in reversed(s)]
        return self.but(cols=n(self.cols), rows=n(self.rows), B=None if self.B is None else n(self.B),
                        D=None if self.D is None else [n(d) for d in self.D])

    def sub(self, d):
        return self.but(B=self.D[d], D=None)

    def index(self):
        return self.but(cols=list(range(len(self.B))), B=None, D=None)


def coef(rng, p):
    if p:
        return rng.randint(1, p - 1)
    return rng.choice([[1, 1], [1, 1], [-1, 1], [2, 1], [-1, 2]])


def store(rng, p, kind, size=0, long=False):
    via = rng.choice(VIAS.get(kind, [""]))
    big = rng.random() < .12 and not size
    n, top = (size, 2 * size) if size else (rng.randint(9, 40), 64) if big else (rng.choice([1, 2, 3, 4, 5]), 8)
    if kind == "vecvec":
        cols = list(range(n))
    else:
        cols = rng.sample(range(top), n) if rng.random() < .5 else list(range(n))
    rows = list(cols) if rng.random() < .7 else rng.sample(range(top), rng.randint(1, n + 1))
    S, data = 1, []
    wide = rng.random() < .015 and not size
    if wide:                                  # few columns with hundreds of entries
        rows = rng.sample(range(500), rng.choice([70, 130, 260]))
    for x in cols:
        t = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 5, 24 if big and rng.random() < .1 else 4]) if not wide or len(data) > 2 else
                       rng.randint(60, 300)):
            c = ([1, 1] if p == 0 else 1) if via == "allone" else coef(rng, p)
            t.append([c, rng.choice(rows)])
            if rng.random() < .2 and via != "allone":
                t.append([([-c[0], c[1]] if p == 0 else p - c), t[-1][1]])
        rng.shuffle(t)
        S = max(S, len(t) * 2)
        if long and x == cols[0]:             # one column with an entry in (nearly) every row
            t = [[([1, 1] if p == 0 else 1) if via == "allone" else coef(rng, p), y] for y in rng.sample(rows, len(rows) - rng.randint(0, 2))]
        data.append([x, t])
    if kind != "vecvec":
        rng.shuffle(data)
    B = list(range(n)) if kind == "vecvec" else None
    return ({"op": kind, "via": via, "cols": data, "rows": rows},
            Reg(cols, rows, B=B, S=S, Q=2 if p == 0 else 1))


def neg(p, c):
    return [-c[0], c[1]] if p == 0 else p - c


def eq_long(rng, m):
    """comparisons of long columns that differ in one place, or in none"""
    p = rng.choice(FIELDS)
    rows = sorted(rng.sample(range(3 * m), m))
    t = [[coef(rng, p), y] for y in rows]
    free = [y for y in (-1, rows[m // 2] + 1, rows[-1] + 1, rows[0] + 1) if y not in rows and y >= 0]

    def variant(v):
        q = [list(e) for e in t]
        i = m - 1 if v == 1 else rng.choice([0, 1, rng.randrange(m), m // 2, m - 1])
        k = [4, rng.randint(0, 1), rng.randint(0, 4)][v]
        if k == 0:
            other = [c for c in ([[1, 1], [-1, 1], [2, 1]] if p == 0 else range(1, p)) if c != q[i][0]]
            q[i][0] = rng.choice(other) if other else q[i][0]
        elif k == 1:
            del q[i]
        elif k == 2 and free:
            q.append([coef(rng, p), rng.choice(free)])
        elif k == 3:
            c = coef(rng, p)
            q += [[c, q[i][1]], [neg(p, c), q[i][1]]]
        rng.shuffle(q)
        return q
    ev, everything = [], sorted(set(rows) | set(free))
    for v in range(3):
        kind = rng.choice(["vecvec", "mapvec", "custom"])
        ev.append({"op": kind, "via": rng.choice([v for v in VIAS.get(kind, [""]) if v != "allone"]),
                   "cols": [[0, variant(v)], [1, variant(v)]], "rows": everything})
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            ev.append({"op": "eq", "a": a, "b": b, "x": rng.choice([0, 1])})
    return {"k": "mat", "p": p, "ev": ev}


def some(rng, s, most):
    """most elements of a long list, its ends among them"""
    return s if len(s) <= most else s[:3] + s[-3:] + rng.sample(s[3:-3], most - 6)


def program(rng, weights, n_ops, stores=("vecvec", "vecvec", "mapvec", "custom"), size=0, long=False):
    p = rng.choice(FIELDS)
    ev, regs = [], []
    lim = 400 if long else 4000

    def push(e, r):
        ev.append(e)
        regs.append(r)

    def obs(i):
        r = regs[i - 1]
        cs, rs = some(rng, list(r.cols), 60 if size else 10 ** 9), some(rng, list(r.rows), 60 if size else 10 ** 9)
        rng.shuffle(cs)
        rng.shuffle(rs)
        ev.append({"op": "obs", "m": i, "cs": cs, "rs": rs, **({"part": 1} if size else {})})

    for _ in range(rng.choice([1, 2, 3])):
        push(*store(rng, p, rng.choice(stores), size, long))
    ops, ws = list(weights), list(weights.values())

    def fits(s, q):
        return s <= lim and (p or s * q * q < 2 ** 28)

    for _ in range(n_ops):
        op = rng.choices(ops, ws)[0]
        k = len(regs) if rng.random() < .6 else rng.randint(1, len(regs))
        m = regs[k - 1]
        e = {"op": op, "m": k}
        if op in VIAS:
            e["via"] = rng.choice(VIAS[op])
        d = rng.randrange(len(m.D)) if m.D else None
        if op == "trivial":
            push(e, m.but(F=True))
        elif op in ("filt", "discard"):
            e["f"] = [[r, rng.randint(-3, 3)] for r in m.rows]
            push(e, m.but(F=True) if op == "filt" else m)
        elif op == "basis":
            e["b"] = rng.sample(m.cols, rng.randint(0 if not size else len(m.cols) * 9 // 10, len(m.cols)))
            push(e, m.but(B=e["b"], D=None))
        elif op == "split":
            b = rng.sample(m.cols, rng.randint(0 if not size else len(m.cols) * 9 // 10, len(m.cols)))
            nd = rng.choice([1, 2, 3])
            ds = [[] for _ in range(nd)]
            for x in b:
                rng.choice(ds).append(x)
            e["d"] = ds
            push(e, m.but(B=sum(ds, []), D=ds))
        elif op in ("cons", "cache", "ref", "revrev", "revunrev"):
            if op == "cache" and e["via"] == "clone":
                if not m.cols:
                    continue
                e["x"] = rng.choice(m.cols)
            push(e, m)
        elif op == "ptr":
            push(e, m.but(F=False, B=None, D=None))
        elif op in ("rev", "unrev"):
            push(e, m.rev())
        elif op in ("revsub", "unrevsub", "subrev", "sub", "subindex"):
            if d is None:
                continue
            e["d"] = d + 1
            push(e, m.sub(d) if op == "sub" else m.sub(d).index() if op == "subindex" else m.rev().sub(d))
        elif op in ("index", "revindex"):
            if m.B is None:
                continue
            push(e, m.index() if op == "index" else m.rev().index())
        elif op in ("prod", "prodcons", "sum", "prodprod", "sumprod"):
            trip = [(a, b, c) for a in range(1, len(regs) + 1) for b in range(1, len(regs) + 1)
                    for c in (range(1, len(regs) + 1) if op in ("prodprod", "sumprod") else [1])]
            if size and len(trip) > 60:
                trip = rng.sample(trip, 60)
            cp = lambda x, y: y.rows is x.cols or set(y.rows) <= set(x.cols)
            good = []
            for a, b, c in trip:
                x, y, z = regs[a - 1], regs[b - 1], regs[c - 1]
                if op == "sum":
                    ok, s, q = set(x.cols) == set(y.cols), x.S + y.S, x.Q * y.Q
                elif op in ("prod", "prodcons"):
                    ok, s, q = cp(x, y), x.S * y.S, x.Q * y.Q
                elif op == "prodprod":
                    ok, s, q = cp(y, z) and cp(x, y), x.S * y.S * z.S, x.Q * y.Q * z.Q
                else:
                    ok = set(y.cols) == set(z.cols) and cp(x, y) and cp(x, z)
                    s, q = x.S * (y.S + z.S), x.Q * y.Q * z.Q
                if ok and fits(s, q):
                    good.append((a, b, c, s, q))
            if not good:
                continue
            a, b, c, s, q = rng.choice(good)
            del e["m"]
            e.update(a=a, b=b)
            x, y, z = regs[a - 1], regs[b - 1], regs[c - 1]
            if op == "sum":
                r = Reg(x.cols, sorted(set(x.rows) | set(y.rows)))
            elif op in ("prod", "prodcons"):
                r = Reg(y.cols, x.rows, x.F, y.B, y.D)
            else:
                e["c"] = c
                r = Reg(z.cols, x.rows, x.F, z.B, z.D) if op == "prodprod" else Reg(y.cols, x.rows, x.F)
            push(e, r.but(S=s, Q=q))
        elif op == "eq":
            pairs = [(a, b) for a in range(1, len(regs) + 1) for b in range(1, len(regs) + 1)
                     if set(regs[a - 1].cols) & set(regs[b - 1].cols)]
            if not pairs:
                continue
            a, b = rng.choice(pairs)
            ev.append({"op": "eq", "a": a, "b": b,
                       "x": rng.choice(sorted(set(regs[a - 1].cols) & set(regs[b - 1].cols)))})
        elif op == "ask":
            if m.cols:
                ev.append({"op": "ask", "m": k, "x": rng.choice(m.cols)})
        elif op == "bobs":
            via = rng.choice(["std", "vec", "split"])
            b = list(range(rng.randint(0, 6) if rng.random() < .7 else rng.randint(7, 50)))
            if size:
                b = list(range(size + rng.randint(-3, 3)))
            if via != "std":
                b = rng.sample(range(-5, 9) if len(b) < 7 else range(-40, max(60, len(b))), len(b))
            ev.append({"op": "bobs", "via": via, "b": b})
        if rng.random() < .15:
            obs(rng.randint(1, len(regs)))
    for i in range(1, len(regs) + 1):
        if i == len(regs) or rng.random() < .5:
            obs(i)
    return {"k": "mat", "p": p, "ev": ev}


def scripts(ctx, cfg, p):
    return [{"k": "mat", "p": p, "ev": ev} for ev in ctx.generate("OracleGen", cfg)]


def check(ctx, weights, need, n):
    exe = ctx.harness("mat")
    ctx.model("OracleModel", ctx.size("OracleModel2", "OracleModel3"))
    cases = scripts(ctx, "OracleGen1", 3) + scripts(ctx, "OracleGen2", 3)
    if not ctx.quick:
        cases += scripts(ctx, "OracleGen3", 2)
    recs, _ = ctx.run_cases(exe, cases, "programs")
    ctx.validate("OracleTrace", recs, "programs", need=ALL + ["vecvec", "mapvec", "custom"])
    cases = [program(ctx.rng, weights, ctx.rng.choice([3, 6, 10])) for _ in range(n)]
    for size in [66, 130, 260, 300, 1030] * ctx.size(4, 30) + ([] if ctx.quick else [4200] * 4):
        cases.append(program(ctx.rng, weights, ctx.rng.choice([3, 5, 7]), size=size))
    for size in [340, 1030, 1100] * ctx.size(2, 12) + ([] if ctx.quick else [4200] * 2):
        cases.append(program(ctx.rng, weights, ctx.rng.choice([3, 5]), size=size, long=True))
    if "eq" in weights:
        cases += [eq_long(ctx.rng, m) for m in [20, 70, 130, 270] * ctx.size(4, 20) + [600, 1100, 2100] * ctx.size(1, 6)]
    recs, _ = ctx.run_cases(exe, cases, "random")
    ctx.validate("OracleTrace", recs, "random", need=need)


def replay(ctx, rep):
    recs, _ = ctx.run_cases(ctx.harness("mat"), [rep["record"]], "replay")
    ctx.validate("OracleTrace", recs, "replay")
