"""C07-C11: inputs for the reduction algorithms (shared driver).  Nothing here decides a property."""
from fractions import Fraction
import itertools
FIELDS = [2, 3, 5, 7, 11, 13, 0]
VIAS = ["plain", "plain", "ref", "cached", "cons", "attach", "attach2", "prod", "revunrev", "cachedrev"]
RT = ["isize", "rusize", "rrix", "name"]
FT = ["unit", "usize", "isize", "f64", "f32", "rf64", "runit", "name"]


def enc(p, x):
    if p:
        return x % p
    x = Fraction(x)
    return [x.numerator, x.denominator]


def q_ok(cols, order, pos):
    """over the rationals: would a plain reduction keep small numbers?  (TLC integers have 32 bits)"""
    lows, big = {}, 1
    for j in order:
        r, v = {k: Fraction(x) for k, x in cols[j].items()}, {j: Fraction(1)}
        while r:
            piv = max(r, key=pos)
            if piv not in lows:
                lows[piv] = (r, v)
                break
            r2, v2 = lows[piv]
            m = -r[piv] / r2[piv]
            for a, b in ((r, r2), (v, v2)):
                for k, x in b.items():
                    y = a.get(k, 0) + m * x
                    big = max(big, abs(y.numerator), y.denominator, abs(m.numerator), m.denominator)
                    if y:
                        a[k] = y
                    else:
                        a.pop(k, None)
        if big > 60:
            return False
    return True


def case(rng, p, cols, filt, basis, dims, rev, ops, cplx, via=None, types=None, noise=.1):
    """cols: id -> {row: coef}"""
    data = []
    for x, col in cols.items():
        t = []
        for r, v in col.items():
            if p and v % p == 0 or v == 0:
                continue
            if rng.random() < noise and p != 2:
                w = rng.choice([1, -1])
                if (v - w) % p if p else v - w:
                    t += [[enc(p, w), r], [enc(p, v - w), r]]
                    continue
            t.append([enc(p, v), r])
        if rng.random() < noise and filt:
            w, r = rng.choice([1, -1]), rng.choice(sorted(filt))
            t += [[enc(p, w), r], [enc(p, -w), r]]
        rng.shuffle(t)
        data.append([x, t])
    rt, ft = types or ("ix", "fv")
    return {"k": "red", "p": p, "rt": rt, "ft": ft, "rev": rev, "via": via or rng.choice(VIAS),
            "cols": data, "filt": sorted([r, f] for r, f in filt.items()), "basis": basis, "dims": dims,
            "complex": cplx, "ranks": len(filt) <= 7, "ops": ops}


def place(rng, n, unit=False):
    """ids and filtration values for positions 0..n-1, so that (filtration, id) order is position order"""
    if unit:
        ids = sorted(rng.sample(range(3 * n + 2), n))
        return ids, [0] * n
    ids = rng.sample(range(3 * n + 2), n)
    fs, f = [], rng.randint(0, 2)
    for i in range(n):
        if i and not (ids[i] > ids[i - 1] and rng.random() < .5):
            f += rng.randint(1, 2)
        fs.append(f)
    return ids, fs


def rnd_types(rng, p):
    if p != 3 or rng.random() < .5:
        return ("ix", "fv")
    return (rng.choice(RT), "usize") if rng.random() < .5 else ("usize", rng.choice(FT))


# ---------------------------------------------------------------- complexes, as (deg, columns by position)
def simplicial(rng, p, nv, ns, maxdim):
    sx = {(v,) for v in range(nv)}
    for _ in range(ns):
        k = rng.randint(2, maxdim + 1)
        if k <= nv:
            s = tuple(sorted(rng.sample(range(nv), k)))
            for m in range(1, k + 1):
                sx |= set(itertools.combinations(s, m))
    val = {}
    tie = rng.choice([1, 3, 10])
    for s in sorted(sx, key=len):
        faces = [val[f] for f in itertools.combinations(s, len(s) - 1)] if len(s) > 1 else []
        val[s] = max(faces + [rng.randint(0, tie) if len(s) > 1 or rng.random() < .5 else 0])
    order = sorted(sx, key=lambda s: (val[s], len(s), rng.random()))
    pos = {s: i for i, s in enumerate(order)}
    deg = [len(s) - 1 for s in order]
    cols = [{pos[s[:i] + s[i + 1:]]: (-1) ** i for i in range(len(s))} if len(s) > 1 else {} for s in order]
    return deg, cols


def conj(rng, p, n, maxdeg):
    """a complex with a random pairing, seen through a random filtered change of basis"""
    deg = [0] + [rng.randint(0, maxdeg) for _ in range(n - 1)]
    D = [[0] * n for _ in range(n)]      # D[row][col]
    free = set(range(n))
    for j in range(n):
        c = [i for i in free if i < j and deg[i] == deg[j] - 1]
        if j in free and c and rng.random() < .7:
            i = rng.choice(c)
            D[i][j] = rng.randint(1, max(1, p - 1)) if p else 1
            free -= {i, j}
    # elementary operations  D -> E^-1 D E, with E = I + a e_{s,t}, s < t of the same degree
    md = (lambda x: x % p) if p else (lambda x: x)
    for _ in range(rng.choice([n, 2 * n, 4 * n])):
        t = rng.randrange(n)
        ss = [s for s in range(t) if deg[s] == deg[t]]
        if not ss:
            continue
        s = rng.choice(ss)
        a = rng.randint(1, p - 1) if p else rng.choice([1, -1])
        for r in range(n):               # column t += a column s
            D[r][t] = md(D[r][t] + a * D[r][s])
        for q in range(n):               # row s -= a row t
            D[s][q] = md(D[s][q] - a * D[t][q])
    return deg, [{r: D[r][j] for r in range(n) if D[r][j]} for j in range(n)]


def complex_case(rng, p, deg, pcols, ops_of, rev=None, order="dims", **kw):
    n = len(deg)
    rev = rng.random() < .5 if rev is None else rev
    types = kw.pop("types", None) or rnd_types(rng, p)
    ids, fs = place(rng, n, unit=types[1] in ("unit", "runit"))
    cols = {ids[j]: {ids[r]: v for r, v in c.items()} for j, c in enumerate(pcols)}
    if rev:
        tr = {x: {} for x in cols}
        for x, c in cols.items():
            for r, v in c.items():
                tr[r][x] = v
        cols = tr
    top = max(deg) + rng.choice([0, 0, 1])
    dims = [[ids[j] for j in range(n) if deg[j] == d] for d in range(top + 1)]
    basis = sum(dims, [])
    if order == "any":
        k = rng.choice([0, 1, 2, 3])
        if k == 1:
            perm = list(dims)
            rng.shuffle(perm)
            basis = sum(perm, [])
        elif k == 2:
            basis = list(ids)             # interleaved, in filtration order
        elif k == 3:                      # a random merge of the dimensions
            qs = [list(d) for d in dims if d]
            basis = []
            while qs:
                q = rng.choice(qs)
                basis.append(q.pop(0))
                qs = [q for q in qs if q]
    if not p:
        pos = dict((x, -i if rev else i) for i, x in enumerate(ids))
        if not q_ok(cols, basis[::-1] if rev else basis, pos.get):
            return None
    return case(rng, p, cols, dict(zip(ids, fs)), basis, dims, rev, ops_of(rng, len(dims), rev), True, types=types, **kw)


def matrix_case(rng, p, n, ops_of, density):
    types = rnd_types(rng, p)
    ids, fs = place(rng, n, unit=types[1] in ("unit", "runit"))
    cols = {}
    for x in ids:
        k = min(n, rng.choice([0, 1, 2, density, density]))
        cols[x] = {r: (rng.randint(1, p - 1) if p else rng.choice([1, -1, 2])) for r in rng.sample(ids, k)}
    basis = rng.sample(ids, n if rng.random() < .7 else rng.randint(0, n))
    rev = rng.random() < .3
    if not p:
        pos = dict((x, -i if rev else i) for i, x in enumerate(ids))
        if not q_ok(cols, basis[::-1] if rev else basis, pos.get):
            return None
    return case(rng, p, cols, dict(zip(ids, fs)), basis, [basis], rev, ops_of(rng, 1, rev), False, types=types)


def degree_order(rng, nd, rev, full=None):
    """a contiguous range of dimensions in the documented order (1-based)"""
    lo, hi = 1, nd
    if not full and rng.random() < .4:
        lo = rng.randint(1, nd)
        hi = rng.randint(lo, nd)
    r = list(range(lo, hi + 1))
    return r if rev else r[::-1]


def chain(rng, n):
    """columns that need a long sequence of additions: a path of n edges seen by further edges, last or in between
    (boundary), or the same with the roles of vertices and edges exchanged (coboundary); some triangles on top"""
    extra = rng.randint(1, 3)
    link = [(i, i + 1) for i in range(n)]
    a, b = n + 1, n + 2                       # two more vertices, older than the path
    far = [rng.choice([(0, n), (a, n), (b, n), (a, n - rng.randint(0, 3))]) for _ in range(extra)]
    if rng.random() < .3:
        rng.shuffle(link)
    vs = [a, b] + list(range(n + 1))
    es = list(dict.fromkeys(link + far))
    if rng.random() < .3:                     # the long columns are not the last ones
        k = rng.randint(0, 3)
        es += [(a, j) for j in rng.sample(range(n), k) if (a, j) not in es]
    order = [("v", v) for v in vs] + [("e", e) for e in es]
    tri = [(a, e[0], e[1]) for e in es if (a, e[0]) in es and (a, e[1]) in es][:2]
    order += [("t", t) for t in tri]
    pos = {x[1]: i for i, x in enumerate(order)}
    deg = [{"v": 0, "e": 1, "t": 2}[k] for k, _ in order]
    cols = []
    for k, s in order:
        if k == "v":
            cols.append({})
        elif k == "e":
            cols.append({pos[s[1]]: 1, pos[s[0]]: -1})
        else:
            u, v, w = s
            cols.append({pos[v, w]: 1, pos[u, w]: -1, pos[u, v]: 1})
    return deg, cols


def dual(deg, cols):
    """the transposed complex, in the opposite order"""
    n, top = len(deg), max(deg)
    out = [{} for _ in range(n)]
    for j, c in enumerate(cols):
        for r, v in c.items():
            out[n - 1 - r][n - 1 - j] = v
    return [top - d for d in reversed(deg)], out


def chain_complex(rng, n):
    d, c = chain(rng, n)
    return dual(d, c) if rng.random() < .4 else (d, c)


def chain_matrix(rng, p, n, ops_of):
    """column j is e_j + a e_(j-1), then columns that run down the whole chain"""
    extra = rng.randint(1, 3)
    m = n + extra
    types = ("ix", "fv")
    ids, fs = place(rng, m)
    u = lambda: rng.randint(1, p - 1) if p else rng.choice([1, -1])
    cols = {ids[j]: ({ids[j]: u(), ids[j - 1]: u()} if j else {ids[0]: u()} if rng.random() < .5 else {}) for j in range(n)}
    for j in range(n, m):
        cols[ids[j]] = {ids[n - 1 - rng.randint(0, 2)]: u()}
        if rng.random() < .5:
            cols[ids[j]][ids[rng.randrange(n)]] = u()
    return case(rng, p, cols, dict(zip(ids, fs)), list(ids), [list(ids)], False, ops_of(rng, 1, False), False, types=types)


def wide(rng, n):
    """thousands of columns, each reduced in a few steps: a forest with short branches, some cycles, some of them filled"""
    par = [None] + [rng.randrange(max(0, i - 40), i) if rng.random() < .97 else None for i in range(1, n)]
    es = [(par[i], i) for i in range(1, n) if par[i] is not None]
    tri = []
    for i in range(2, n):
        u = par[i]
        if u is not None and par[u] is not None and rng.random() < .3:
            es.append((par[u], i))
            if rng.random() < .7:
                tri.append((par[u], u, i))
    rng.shuffle(es)
    order = [("v", v) for v in range(n)] + [("e", e) for e in es] + [("t", t) for t in tri]
    pos = {x[1]: i for i, x in enumerate(order)}
    cols = []
    for k, s in order:
        cols.append({} if k == "v" else {pos[s[1]]: 1, pos[s[0]]: -1} if k == "e" else
                    {pos[s[1], s[2]]: 1, pos[s[0], s[2]]: -1, pos[s[0], s[1]]: 1})
    return [{"v": 0, "e": 1, "t": 2}[k] for k, _ in order], cols


def wides(ctx, ops_of, order="dims"):
    r = ctx.rng
    out = []
    for n in [1100] if ctx.quick else [1100, 1100, 2100, 4200]:
        out += many(1, lambda: (lambda p: complex_case(r, p, *wide(r, n), ops_of, order=order, types=("ix", "fv")))(r.choice(FIELDS)))
    return out


def random_complex(rng, p, big=False):
    if big == "chain":
        return chain_complex(rng, rng.choice([20, 40, 100, 300]))
    if big == 2:
        return conj(rng, p or 3, rng.randint(257, 300), 3)
    if big:
        if rng.random() < .5 and p:
            return conj(rng, p, rng.randint(40, 90), 3)
        return simplicial(rng, p, 12, rng.randint(8, 20), 3)
    k = rng.random()
    if k < .5:
        return conj(rng, p, rng.randint(1, 16), rng.choice([1, 2, 3]))
    if k < .55:                           # many dimensions
        return conj(rng, p, rng.randint(8, 26), rng.randint(4, 9))
    if k < .6:                            # high dimensions only
        deg, cols = conj(rng, p, rng.randint(2, 12), rng.choice([1, 2]))
        off = rng.randint(1, 8)
        return [d + off for d in deg], cols
    return simplicial(rng, p, rng.randint(1, 6), rng.randint(0, 6), rng.choice([1, 2, 3]))


def chains(ctx, ops_of, order="dims", matrices=False):
    r = ctx.rng
    out = many(ctx.size(8, 60), lambda: (lambda p: complex_case(r, p, *random_complex(r, p, "chain"), ops_of, order=order))(r.choice(FIELDS)))
    if matrices:
        out += [chain_matrix(r, r.choice(FIELDS), r.choice([20, 70, 150, 300]), ops_of) for _ in range(ctx.size(4, 40))]
    return out


def many(n, make):
    out = []
    while len(out) < n:
        c = make()
        if c:
            out.append(c)
    return out


def model_matrices(ctx, cfg, p, ops_of):
    out = []
    for g in ctx.generate("RedGenStd", cfg):
        ids, fs = place(ctx.rng, len(g["cols"]))
        cols = {ids[j - 1]: {ids[t[1] - 1]: t[0] for t in col} for j, col in g["cols"]}
        b = [ids[j - 1] for j in g["basis"]]
        rev = ctx.rng.random() < .2
        out.append(case(ctx.rng, p, cols, dict(zip(ids, fs)), b, [b], rev, ops_of(ctx.rng, 1, rev), False))
    return out


def model_complexes(ctx, cfg, p, ops_of, order="dims"):
    out = []
    for g in ctx.generate("RedGenClr", cfg):
        deg = [0] * len(g["cols"])
        for d, xs in enumerate(g["dims"]):
            for x in xs:
                deg[x - 1] = d
        pcols = [{t[1] - 1: t[0] for t in col} for _, col in g["cols"]]
        for rev in (False, True):
            out.append(complex_case(ctx.rng, p, deg, pcols, ops_of, rev=rev, order=order))
    return out


def run(ctx, cases, name, need):
    recs, _ = ctx.run_cases(ctx.harness("red"), cases, name, secs=40)
    ctx.validate("RedTrace", recs, name, need=need, heap="10g")


def replay(ctx, rep):
    recs, _ = ctx.run_cases(ctx.harness("red"), [rep["record"]], "replay")
    ctx.validate("RedTrace", recs, "replay")
