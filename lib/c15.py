"""C15: the command line program."""
import fractions, json, os, re, shutil, subprocess
import rips as g
import vlib
from concurrent.futures import ThreadPoolExecutor
ASSUMPTIONS = ["a report line is known by its shape (Dimension d: n / dim, birth, f / dim, pair, f); headings and empty lines carry no data",
               "bars whose length is within rounding of the 0.01 threshold are not generated, except those from 0 to 0.01"]
INF = g.INF
NUM = r"([-+0-9.eEinfNa∞]+)"
SIZE = re.compile(r"^Dimension (\d+): (\d+)$")
ESS = re.compile(r"^\s*dim=(\d+), birth=.*, f=\(" + NUM + r", ∞\)$")
FIN = re.compile(r"^\s*dim=(\d+), pair=.*, f=\(" + NUM + ", " + NUM + r"\)$")
HEAD = {"Basis sizes:", "Essential:", "Pairings:"}


def build(ctx):
    import fcntl
    os.makedirs(vlib.BUILD, exist_ok=True)
    exe = os.path.join(ctx.work, "cli")
    with open(os.path.join(vlib.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_cli(exe)
    return exe


def build_cli(copy_to=None):
    vlib.cargo_build(vlib.REPO, ("-p", "phlite_rips", "--bin", "phlite_rips_cli"))
    if copy_to:
        shutil.copy2(os.path.join(vlib.TARGET, "debug", "phlite_rips_cli"), copy_to)


def num(t, scale, table=None):
    if t == "inf":
        return INF
    try:
        x = fractions.Fraction(t)
    except ValueError:
        return -8888888
    if table:
        return table.index(x) if x in table else -7777777
    x *= scale
    return int(x) if x.denominator == 1 and abs(x) < 10 ** 8 else -7777777


def text(x, scale, style, rng, table=None):
    if x == INF:
        return rng.choice(["inf", "Infinity", "+inf"]) if style else "inf"
    f = table[x] if table else fractions.Fraction(x, scale)
    if style == 3 and x == 0 and rng.random() < .3:
        return rng.choice(["-0", "-0.0", "0e5"])
    s = str(int(f)) if f.denominator == 1 else repr(float(f))
    if style == 1:
        s = repr(float(f))
    elif style == 2:
        s = "%.6e" % float(f) if scale != 256 or True else s
        if fractions.Fraction(s) != f:
            s = repr(float(f))
    elif style == 3 and "e" not in s:
        s = "+" + s + ("0" if "." in s else ".")
    return s


def limbs(f):
    """f * 10^18 in base 1000"""
    n, r = f * 10 ** 18, []
    assert n.denominator == 1
    n = int(n)
    while n:
        r.append(n % 1000)
        n //= 1000
    return r


def loop(rng, n):
    """distances around a cycle, sometimes with a further point, sometimes disturbed"""
    step = [rng.randint(1, 3) for _ in range(n)]
    tot, at, s = sum(step), [], 0
    for x in step:
        at.append(s)
        s += x
    d = [[min(abs(a - b), tot - abs(a - b)) for b in at] for a in at]
    for _ in range(rng.choice([0, 0, 1, 2])):
        i, j = rng.sample(range(n), 2)
        d[i][j] = d[j][i] = rng.randint(1, tot)
    return d


def decimals(rng, m):
    """m increasing decimals (at most 15 digits) after 0, no two close to 0.01 apart"""
    F = fractions.Fraction
    while True:
        k = rng.randint(0, 6)
        if k == 0:
            t = {F(rng.randint(1, 2 * 10 ** 6), 10 ** 6) for _ in range(m)}
        elif k == 1:                       # around the threshold
            t = {F(rng.randint(0, 60), 10) + F(rng.choice([0, 9, 99, 999, 1001, 101, 11, 12]), 100000 if rng.random() < .3 else 1000) for _ in range(m)}
        elif k == 2:                       # large
            b = rng.choice([2 ** 24, 10 ** 9, 2 ** 32, 10 ** 12])
            t = {b + F(rng.randint(1, 400), rng.choice([10, 4])) for _ in range(m)}
        elif k == 3:                       # tiny differences
            t = {F(7, 10) + F(rng.randint(1, 9 * m), 10 ** 13) for _ in range(m)}
        elif k == 4:                       # both
            t = {F(rng.randint(1, 5)) + F(rng.choice([0, 1, 2]), 10 ** 12) for _ in range(m)}
        elif k == 5:
            t = {F(rng.randint(1, 999), 10 ** rng.randint(0, 15)) for _ in range(m)}
        else:
            t = {F(rng.randint(1, 10 ** 15), 10 ** 12) for _ in range(m)}
        if t and k != 3 and rng.random() < .2:      # a bar from 0 to 0.01 is exactly as long as the threshold
            t = set(sorted(t)[1:]) | {F(1, 100)}
        t = [F(0)] + sorted(t - {0})
        if len(t) == m + 1 and not any(abs(b - a - F(1, 100)) < F(1, 10 ** 8) and (a, b) != (0, F(1, 100)) for a in t for b in t):
            return t


def awkward(rng, d):
    vs = sorted({x for row in d for x in row} - {0, INF})
    at = {x: i + 1 for i, x in enumerate(vs)}
    at.update({0: 0, INF: INF})
    return [[at[x] for x in row] for row in d], decimals(rng, len(vs))


def make(rng, d, scale, arg, table=None):
    style = rng.choice([0, 0, 0, 1, 2, 3])
    nl = rng.choice(["\n", "\n", "\r\n"])
    rows = [",".join(text(x, scale, style, rng, table) for x in row) for row in d]
    q = nl.join(rows) + (nl if rng.random() < .8 else "")
    if style == 1 and rng.random() < .3:
        q = nl.join(",".join('"%s"' % x for x in r.split(",")) for r in rows) + nl
    c = {"k": "cli", "p": 2, "n": len(d), "d": d, "scale": scale, "arg": arg, "csv": q}
    if table:
        c["vals"] = [limbs(f) for f in table]
    return c


def run_one(exe, case, cwd):
    c = dict(case)
    csv = c.pop("csv")
    try:
        r = subprocess.run([exe] + ([c["arg"]] if c["arg"] else []), input=csv.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, cwd=cwd)
        code, out = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        code, out = 999, ""
    table = [fractions.Fraction(sum(v * 1000 ** i for i, v in enumerate(x)), 10 ** 18) for x in c["vals"]] if "vals" in c else None
    val = lambda t: num(t, c["scale"], table)
    ev = [{"op": "run", "arg": c["arg"], "k": int(c["arg"] or 0)}]
    for line in out.splitlines():
        s = line.strip()
        if not s or s in HEAD:
            continue
        m = SIZE.match(s)
        if m:
            ev.append({"op": "line", "t": "size", "a": [int(m[1]), int(m[2]), 0]})
            continue
        m = ESS.match(s)
        if m:
            ev.append({"op": "line", "t": "ess", "a": [int(m[1]), val(m[2]), 0]})
            continue
        m = FIN.match(s)
        if m:
            ev.append({"op": "line", "t": "fin", "a": [int(m[1]), val(m[2]), val(m[3])]})
            continue
        ev.append({"op": "line", "t": "other: " + s[:200], "a": [0, 0, 0]})
    ev.append({"op": "end", "code": code})
    c.update(csv=csv[:2000], ev=ev, outcome="ok")
    return c


def run(ctx, cases, name, need=("run", "line", "end")):
    exe = build(ctx)
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda c: run_one(exe, c, ctx.work), cases))
    for i, r in enumerate(recs):
        r["id"] = i
    ctx.validate("RipsTrace", recs, name, need=need)


def near(d, scale):
    """would a bar be as long as the threshold, up to rounding?"""
    v = {x for row in d for x in row if x != INF}
    return any(a and (b - a) * 100 == scale for a in v for b in v)


def check(ctx):
    r = ctx.rng
    ctx.model("RipsModel", "RipsModel2")
    ds = g.model_dists(ctx, "RipsGen")
    if ctx.quick:
        ds = [d for d in ds if len(d) < 4] + r.sample([d for d in ds if len(d) == 4], 300)
    arg = lambda: r.choice(["", "", "0", "1", "2", "3"])
    # scale 256: 1/256 and 2/256 are below the threshold, 3/256 is above
    cases = [make(r, [[x * 3 - (x > 1) for x in row] for row in d] if r.random() < .5 else d, r.choice([1, 4, 256]), arg()) for d in ds]
    run(ctx, cases, "all_small")
    cases = []
    while len(cases) < ctx.size(300, 4000):
        n = r.randint(0, 9)
        scale = r.choice([1, 2, 64, 256, 256, 1000, 1000, 100, 10])
        d, t = g.random_dist(r, n), None
        if r.random() < .4:
            d, t = awkward(r, d)
        elif near(d, scale):
            continue
        k = arg()
        if n > 6 and k == "3" or n > 7 and k == "2":
            k = ""
        cases.append(make(r, d, scale, k, t))
    for _ in range(ctx.size(3, 20)):
        cases.append(make(r, g.rp2(r), 4, "1"))
    for _ in range(ctx.size(4, 40)):       # many points
        n = r.randint(12, ctx.size(40, 70)) if _ else r.randint(47, 50)
        d, t = awkward(r, g.random_dist(r, n)) if r.random() < .5 else (g.random_dist(r, n), None)
        if t or not near(d, 64):
            cases.append(make(r, d, 64, "0", t))
    for _ in range(ctx.size(1, 6)):        # hundreds of points
        n = r.randint(510, 560)
        d, t = g.random_dist(r, n), None
        while near(d, 64) or any(0 in row[:i] for i, row in enumerate(d)):
            d = g.random_dist(r, n)
        cases.append(make(r, d, 64, "0", t))
    for _ in range(ctx.size(3, 30)):
        n = r.randint(10, ctx.size(14, 18))
        d, t = awkward(r, g.random_dist(r, n))
        cases.append(make(r, d, 64, r.choice(["", "1"]), t))
    for _ in range(ctx.size(4, 40)):       # few points, high dimensions
        n = r.randint(5, 6)
        d, t = awkward(r, g.random_dist(r, n))
        cases.append(make(r, d, 64, str(r.randint(4, 12)), t))
    for _ in range(ctx.size(40, 400)):     # a loop that dies, at every scale
        d, t = awkward(r, loop(r, r.randint(4, 9)))
        cases.append(make(r, d, 64, r.choice(["", "", "1"]), t))
    run(ctx, cases, "random")


def replay(ctx, rep):
    rec = dict(rep["record"])
    for k in ("ev", "outcome", "msg"):
        rec.pop(k, None)
    run(ctx, [rec], "replay", ())
