"""C16-C18: weighted digraphs (shared driver).  Nothing here decides a property."""
import itertools, json, os, resource, shutil, subprocess, sys
import vlib
FIELDS = [2, 3, 5, 7, 11, 13, 0]
INF = 999999
TARGET_MOD = os.path.join(vlib.BUILD, "target_mod")
VIEWS = ["plain", "plain", "inner", "cached", "rev"]


def pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def weighted(rng, n):
    """a weighted digraph: list of [a, b, w]"""
    k = rng.randint(0, 9)
    if n < 2:
        return []
    ps = pairs(n)
    if k == 0:
        return [[a, b, 4] for a, b in ps]                                            # complete, equal weights
    if k == 1:
        return [[i, (i + 1) % n, rng.randint(1, 9)] for i in range(n)]               # a directed cycle
    wmax = rng.choice([1, 2, 4, 20, 400])
    dens = rng.choice([.15, .3, .5, .8, 1])
    w = lambda: rng.randint(0 if k == 2 else 1, wmax)
    es = [[a, b, w()] for a, b in ps if rng.random() < dens]
    if k == 3:                                                                       # infinite weights
        es = [[a, b, INF if rng.random() < .3 else x] for a, b, x in es]
    if k == 4 and es:                                                                # parallel edges
        es += [[a, b, rng.choice([w(), w(), INF])] for a, b, x in rng.choices(es, k=rng.randint(1, 4))]
    if k == 5:                                                                       # two components
        h = n // 2
        es = [[a, b, x] for a, b, x in es if (a < h) == (b < h)]
    if k == 6:                                                                       # acyclic
        es = [[a, b, x] for a, b, x in es if a < b]
    if k == 7 and n > 3:                                                             # squares: a source, a sink, middles
        es = [[0, m, w()] for m in range(1, n - 1)] + [[m, n - 1, w()] for m in range(1, n - 1)]
        if rng.random() < .7:
            es.append([0, n - 1, rng.randint(1, 2 * wmax)])
        if rng.random() < .5:
            es.append([n - 1, 0, rng.choice([w(), INF])])
        es += [[a, b, w()] for a, b in rng.sample(ps, rng.randint(0, 3)) if [a, b] not in [e[:2] for e in es]]
        p = rng.sample(range(n), n)
        es = [[p[a], p[b], x] for a, b, x in es]
    if k == 9:                                                                       # layers, the last before the first
        m = rng.choice([3, 3, 4])
        at = [rng.randrange(m) for _ in range(n)]
        back = rng.random() < .7
        es = [[a, b, w()] for a, b in ps if at[b] == at[a] + 1 or (back and at[a] == m - 1 and at[b] == 0)]
    rng.shuffle(es)
    return es


def times_of(n, es):
    """edge times for C16: shortest path lengths (any times would do)"""
    d = {(a, b): INF for a, b in pairs(n)}
    for a, b, w in es:
        d[a, b] = min(d[a, b], w)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if len({i, j, k}) == 3:
                    d[i, j] = min(d[i, j], d[i, k] + d[k, j])
    return [[a, b, t] for (a, b), t in d.items() if t < INF]


def times_on(es):
    """the same when few nodes touch an edge"""
    v = sorted({x for e in es for x in e[:2]})
    at = {x: i for i, x in enumerate(v)}
    return [[v[a], v[b], t] for a, b, t in times_of(len(v), [[at[a], at[b], w] for a, b, w in es])]


def more_cells(rng, times):
    """2-cells all of whose edges appear, chosen without regard to which of them form a basis"""
    out = {}
    for a, b, _ in times:
        out.setdefault(a, []).append(b)
    has = {(a, b) for a, b, _ in times}
    cells = []
    for _ in range(rng.choice([0, 4, 12])):
        if not times:
            break
        a, b, _ = rng.choice(times)
        c = rng.choice(out.get(b, [b]))
        if c == b:
            continue
        if c == a:
            cells.append([2, a, b])
            continue
        if (a, c) in has:
            cells.append([3, a, b, c])
        mid = [x for x in out[a] if x != b and (x, c) in has]
        if mid:
            cells.append([4, a, b, rng.choice(mid), c])
    return cells


def matrix_case(rng, p, n, times, ground):
    return {"more": more_cells(rng, times), "k": "gr", "p": p, "n": n, "times": times, "ground": sorted({tuple(g[:2]) for g in ground}),
            "ft": rng.choice(["vec", "map"]), "u": repr(unit(rng)), "view": rng.choice(VIEWS)}


def far_cells(rng):
    """the boundary matrix of a digraph on node numbers up to 65535"""
    while True:
        n = rng.choice([257, 4097, 65536])
        k = rng.randint(3, 7)
        ids = rng.sample(sorted({x for b in (0, 256, 512, 4096, 32768, 65536) for x in (b - 1, b, b + 1, b + 2) if 0 <= x < n}), k) \
            if rng.random() < .7 and n > 300 else rng.sample(range(n), k)
        es = [[ids[a], ids[b], rng.randint(0, 30)] for a, b in pairs(k) if rng.random() < rng.choice([.5, 1])]
        c = dict(matrix_case(rng, rng.choice(FIELDS), n, es, [e for e in es if rng.random() < .3]), ft="map", view="bd")
        if c["more"]:
            return c


# ----------------------------------------------------------------- the Python module
RUNNER = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
sys.stdout = sys.stderr
import phlite_grpph as m
INF = 999999
def num(x, u):
    if x == float("inf"): return INF
    y = x / u
    return round(y) if abs(y) < 1e8 and round(y) * u == x else -7777777
out = open(sys.argv[3], "a")
start = int(sys.argv[4])
for i, line in enumerate(open(sys.argv[2])):
    if i < start: continue
    c = json.loads(line)
    u = float(c["u"])
    es = [(a, b, float("inf") if w == INF else w * u) for a, b, w in c["edges"]]
    ev = [{"op": "input"}]
    try:
        for f in c["fns"]:
            reps = None
            if f == "grpph":
                ess, fin = m.grpph(c["n"], es)
            else:
                ess, fin, reps = m.grpph_with_involution(c["n"], es)
            if c["see"] == "bars":
                ev.append({"op": "bars", "fn": f, "ess": [sorted(num(x, u) for x in d) for d in ess],
                           "fin": [sorted([num(a, u), num(b, u)] for a, b in d) for d in fin]})
            elif reps is not None:
                ev.append({"op": "reps"})
                ev += [{"op": "rep", "e": [list(e) for e in r]} for r in reps]
                ev.append({"op": "repsend"})
        c["outcome"] = "ok"
    except BaseException as x:
        c["outcome"], c["msg"] = "panic", repr(x)[:300]
    c["ev"] = ev
    out.write(json.dumps(c, separators=(",", ":")) + "\n")
    out.flush()
'''


def build_module(to=None):
    # a target directory of its own: cargo gives a cdylib crate the same file names here and in the harness
    vlib.cargo_build(vlib.REPO, ("-p", "phlite_grpph", "--lib"), TARGET_MOD)
    if to:
        shutil.copy2(os.path.join(TARGET_MOD, "debug", "libphlite_grpph.so"), os.path.join(to, "phlite_grpph.so"))


def run_module(ctx, cases, name, parts=8):
    """Call the exported functions on every case, in separate processes."""
    import fcntl
    from concurrent.futures import ThreadPoolExecutor
    mod = os.path.join(ctx.work, "mod")
    if not os.path.exists(mod):
        os.makedirs(mod)
        with open(os.path.join(vlib.BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            build_module(mod)
        open(os.path.join(mod, "runner.py"), "w").write(RUNNER)
    cases = ctx.mixed(cases)
    for i, c in enumerate(cases):
        c["id"] = i

    def part(k):
        mine = cases[k::parts]
        if not mine:
            return []
        cf, of = (os.path.join(ctx.work, "%s.%d.%s" % (name, k, s)) for s in ("cases", "out"))
        open(cf, "w").write("".join(json.dumps(c) + "\n" for c in mine))
        open(of, "w").close()
        start, bad = 0, 0
        while start < len(mine) and bad < 2:
            lim = lambda: (resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)), resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            try:
                r = subprocess.run([sys.executable, os.path.join(mod, "runner.py"), mod, cf, of, str(start)], cwd=ctx.work,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=lim, timeout=120)
                rc, err = r.returncode, r.stderr[-300:]
            except subprocess.TimeoutExpired:
                rc, err = None, "no result within 120 s"
            got = sum(1 for _ in open(of))
            if rc == 0 and got == len(mine):
                break
            if "ModuleNotFoundError" in err or "ImportError" in err:
                raise vlib.ToolError(err)
            with open(of, "a") as f:
                f.write(json.dumps(dict(mine[got], ev=[], outcome="hang" if rc is None else "abort", msg=err)) + "\n")
            start, bad = got + 1, bad + 1
        return [json.loads(x) for x in open(of)]
    with ThreadPoolExecutor(parts) as ex:
        recs = [r for q in ex.map(part, range(parts)) for r in q]
    return sorted(recs, key=lambda r: r["id"])


def graph_case(n, es, fns, see, rng=None):
    return {"k": "py", "p": 2, "n": n, "edges": es, "fns": fns, "see": see, "u": repr(unit(rng) if rng else .25)}


def unit(rng):
    """what the weight 1 stands for: sums of multiples (below 2^20) are exact doubles"""
    return rng.choice([.25, .25, 1.0, 1 + 2.0 ** -25, (1 + 2.0 ** -30) * 2.0 ** 20, 2.0 ** -40, 2.0 ** -1060, 2.0 ** 900, 2.0 ** 1003,
                       (1 + 2.0 ** -30) / 1024])


def scattered(rng, n):
    """few edges among many nodes: some small digraphs placed anywhere, also around multiples of 256"""
    es = []
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(3, 6)
        pool = [x for x in (0, 1, 2, 3, 254, 255, 256, 257, 258, 259, n - 1, n - 2) if x < n]
        at = rng.sample(range(n), k) if rng.random() < .4 else rng.sample(sorted(set(pool)), k)
        es += [[at[a], at[b], w] for a, b, w in weighted(rng, k)]
    return list({tuple(e[:2]): e for e in es}.values())


def wheel(rng):
    """a hub over a ring of alternating edges: few pairs have a path, the ring is a cycle of up to 90 edges"""
    m = 2 * rng.randint(4, 45)
    k = rng.randint(0, 3)
    rim = [[i, j, rng.choice([1, 1, rng.randint(1, 4)])] for i in range(0, m, 2) for j in ((i + 1) % m, (i - 1) % m)]
    spoke = (lambda: 5) if k < 2 else (lambda: rng.randint(4, 60))
    es = rim + [[m, v, spoke()] for v in range(m)]
    n = m + 1
    if k == 1:                                                    # the hub is a sink
        es = rim + [[v, m, spoke()] for v in range(m)]
    if k == 3:                                                    # a second hub: octahedron-like
        es += [[n, v, spoke()] for v in rng.sample(range(m), m - rng.randint(0, 2))]
        n += 1
    if rng.random() < .4:
        es += [[a, b, rng.randint(1, 80)] for a, b in (rng.sample(range(m), 2) for _ in range(rng.randint(1, 2))) if [a, b] not in [e[:2] for e in es]]
        es = list({tuple(e[:2]): e for e in es}.values())
    if rng.random() < .4:
        p = rng.sample(range(n), n)
        es = [[p[a], p[b], w] for a, b, w in es]
    return n, es


def crowd(rng, ring):
    """hundreds of classes: all edges from one half of the nodes to the other, or a ring, and few other edges"""
    if ring:
        n = rng.randint(21, 24)
        es = [[i, (i + 1) % n, rng.randint(1, 9)] for i in range(n)]
        m = rng.randint(0, n)
    else:
        n = rng.randint(44, 60)
        es = [[a, b, rng.randint(1, 60)] for a in range(n // 2) for b in range(n // 2, n)]
        m = rng.randint(0, 3)
        if rng.random() < .5:              # a node that sees them all: hundreds of classes die
            es += [[n, v, rng.randint(1, 60)] for v in range(n // 2)]
            n += 1
    es += [[a, b, rng.randint(1, 60)] for a, b in (rng.sample(range(n), 2) for _ in range(m)) if [a, b] not in [e[:2] for e in es]]
    es = list({tuple(e[:2]): e for e in es}.values())
    p = rng.sample(range(n), n)
    return n, [[p[a], p[b], w] for a, b, w in es]


def bundle(rng):
    """many paths of two edges between the same nodes, or a long directed path"""
    if rng.random() < .3:
        n = rng.randint(15, 20)
        es = [[i, i + 1, rng.randint(1, 9)] for i in range(n - 1)]
        es += [[a, b, rng.randint(1, 40)] for a, b in (rng.sample(range(n), 2) for _ in range(rng.randint(0, 4))) if a < b]
    else:
        m = rng.randint(15, 80)
        hi = rng.choice([1, 4, 100])
        w = lambda: rng.randint(1, hi)
        n = m + 2
        es = [[m, v, w()] for v in range(m)] + [[v, m + 1, w()] for v in range(m)]
        if rng.random() < .5:
            es.append([m, m + 1, rng.randint(1, 2 * hi)])
        if rng.random() < .3:                                     # a second source
            n += 1
            es += [[m + 2, v, w()] for v in rng.sample(range(m), rng.randint(1, m))]
        for _ in range(rng.choice([0, 0, 2])):
            es.append(rng.sample(range(m), 2) + [rng.randint(1, 2 * hi)])
    es = list({tuple(e[:2]): e for e in es}.values())
    p = rng.sample(range(n), n)
    return n, [[p[a], p[b], x] for a, b, x in es]


def small_graphs(ctx, n, weights, cap):
    """all weighted digraphs on n nodes with the given weights (0: no edge is -1), or a sample of them"""
    ps = pairs(n)
    total = (len(weights) + 1) ** len(ps)
    it = itertools.product([None] + list(weights), repeat=len(ps))
    if total > cap:
        it = ([ctx.rng.choice([None] + list(weights)) for _ in ps] for _ in range(cap))
    for ws in it:
        yield [[a, b, w] for (a, b), w in zip(ps, ws) if w is not None]


def replay(ctx, rep):
    rec = dict(rep["record"])
    for k in ("ev", "outcome", "msg"):
        rec.pop(k, None)
    if rec["k"] == "gr":
        recs, _ = ctx.run_cases(ctx.harness("gr"), [rec], "replay")
    else:
        recs = run_module(ctx, [rec], "replay", 1)
    ctx.validate("GrTrace", recs, "replay")
