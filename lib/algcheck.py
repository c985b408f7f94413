"""C10, C11, C13: routines with explicit inputs and answers.  Cases come from
the specification (TLC enumerates them) and from a random generator; the real
routines answer; TLC judges the answers."""
import json, os, random, re, subprocess, concurrent.futures as cf
from common import SEED
import build, tlcrun

HERE = os.path.dirname(os.path.abspath(__file__))
JOBS = 8

def emitted(out, tag="CASE|"):
    r = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            r.append(json.loads(json.loads(line)[len(tag):]))
    return r

def closed_model(res, module, cfg, workers=8, timeout=600, args=()):
    ok, g, d, out = tlcrun.model(module, cfg, res.work, workers, timeout)
    if not ok: raise tlcrun.ToolError("%s/%s: %s" % (module, cfg, out[-3000:]))
    res.states += d; res.transitions += g
    res.extra.setdefault("closed_models", []).append(dict(module=module, cfg=cfg, distinct=d, generated=g))
    return out

def chunk(xs, k):
    n = max(1, min(len(xs), k))
    return [xs[i::n] for i in range(n)]

def run_cpp(exe, kind, cases, d, timeout=300):
    """cases: list of integer lists.  -> (trace file, problem)"""
    os.makedirs(d, exist_ok=True)
    cin, out = d + "/cases", d + "/trace.ndjson"
    with open(cin, "w") as f:
        for c in cases: f.write(" ".join(map(str, c)) + "\n")
    return out, run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", exe, kind, cin, out], out, len(cases), timeout)

def run_py(ext, kind, cases, d, timeout=300):
    os.makedirs(d, exist_ok=True)
    cin, out = d + "/cases", d + "/trace.ndjson"
    with open(cin, "w") as f:
        for c in cases: f.write(json.dumps(c) + "\n")
    return out, run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", build.PY, os.path.join(build.HERE, "pyapi.py"), ext, kind, cin, out, d + "/scratch"], out, len(cases), timeout)

def run(cmd, out, n, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        if r.returncode: p = "ended with status %d: %s" % (r.returncode, r.stderr[-400:])
        else: p = None
    except subprocess.TimeoutExpired:
        p = "did not end within %d s" % timeout
    k = sum(1 for _ in open(out)) if os.path.exists(out) else 0
    if p: return "case %d: %s" % (k + 1, p)
    if k != n: return "answered %d of %d cases" % (k, n)
    return None

def judge(res, groups, module, prop, focus=None):
    """groups: [(runner, tool, kind, cases)]; every case is run by the real code
    and its answer judged by the TLA+ module."""
    parts = []
    for runner, tool, kind, cases in groups:
        for i, ch in enumerate(chunk(cases, JOBS)):
            if ch: parts.append((runner, tool, kind, ch, os.path.join(res.work, "%s-%s-%d" % (runner.__name__, kind, i))))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(lambda p: p[0](p[1], p[2], p[3], p[4]), parts))
    bad = []
    files = {}
    for p, (out, prob) in zip(parts, outs):
        if prob:
            k = int(re.match(r"case (\d+)", prob).group(1)) if prob.startswith("case") else 1
            bad.append((p, k, prob))
        else: files[out] = p
        res.extra["answers"] = res.extra.get("answers", 0) + len(p[3])
    rej, err, (g, d) = tlcrun.validate_all(module, list(files), focus or [prop], os.path.join(res.work, "tlc"), jobs=4)
    res.transitions += g; res.states += d
    for f, p in files.items():
        if f in rej:
            for l, t in rej[f][:3]: bad.append((p, l, t))
        elif f in err: bad.append((p, 1, "the answers cannot be evaluated: " + err[f][-1500:]))
        else: res.traces += len(p[3])
    for p, k, what in bad[:4]:
        # repeat alone
        case = p[3][min(k, len(p[3])) - 1]
        if what.startswith("the answers"):
            res.violation(what, dict(kind=p[2])); continue
        dd = os.path.join(res.work, "again%d" % len(res.viol))
        out, prob = p[0](p[1], p[2], [case], dd, 60)
        w2 = prob
        if not prob:
            r2, e2, _ = tlcrun.validate_all(module, [out], focus or [prop], dd + "/tlc", jobs=1)
            w2 = "; ".join(t for _, t in r2[out][:4]) if r2 else e2.get(out)
        if w2 is None:
            # depends on the cases before it: report the whole file
            out, prob = p[0](p[1], p[2], p[3], dd)
            r2, e2, _ = tlcrun.validate_all(module, [out], focus or [prop], dd + "/tlc", jobs=1)
            w2 = prob or ("; ".join(t for _, t in r2[out][:4]) if r2 else e2.get(out))
            case = p[3]
        if w2 is None: raise tlcrun.ToolError("rejection not repeated: " + what)
        res.violation(w2, dict(kind=p[2], case=case))
    return bad

# ---------------------------------------------------------------- C10
def ids(rng, n):
    return rng.sample(range(1, 5000), n)

def sp_case(rng, n, links, phases):
    nid, lid = ids(rng, n), ids(rng, len(links))
    c = [n, len(links)] + nid
    for i, (f, t) in enumerate(links): c += [lid[i], f, t]
    c.append(len(phases))
    for d, cost in phases: c += [d] + cost
    return c

def rand_graph(rng, nmax=8, mmax=20):
    n = rng.randint(2, nmax)
    m = rng.randint(1, mmax)
    l = []
    while len(l) < m:
        f, t = rng.randint(1, n), rng.randint(1, n)
        if f != t: l.append((f, t))
    return n, l

def rand_cost(rng, m):
    k = rng.random()
    if k < .3: return [rng.choice([0, 1, 2, 4]) for _ in range(m)]
    if k < .5: return [rng.choice([0, 0, 4]) for _ in range(m)]
    if k < .7: return [rng.choice([4, 4, 4, 8, -1]) for _ in range(m)]
    return [rng.randint(0, 60) for _ in range(m)]

def tdsp_tables(rng, m, M, inf=True):
    def tab(lo, hi, pinf):
        z = rng.random()
        out = []
        for _ in range(m):
            base = rng.randint(lo, hi)
            row = []
            for _ in range(M):
                if z < .4: base = min(hi, max(lo, base + rng.randint(-3, 3)))
                elif z < .7: base = rng.randint(lo, hi)
                row.append(-1 if rng.random() < pinf else base)
            out.append(row)
        return out
    return tab(0, 20, .1 if inf and rng.random() < .3 else 0), tab(1, 14, 0)

def c10(res, prop, tier):
    rng = random.Random("C10/%d" % SEED)
    big = tier == "thorough"
    exe = build.build("alg")
    ext = build.build_ext()
    cases = []
    for cfg in (["MCSp3x", "MCSp4"] if big else ["MCSp3"]):
        out = closed_model(res, "MCSp", cfg)
        for c in emitted(out):
            ln = [tuple(x) for x in c["l"]]; cost = list(c["c"])
            # the same maps are used again for other destinations and costs
            ph = [(1, cost), (1, cost[::-1]), (1, [-1 if x == 4 else x for x in cost]), (2, cost)]
            cases.append(sp_case(rng, c["n"], ln, ph))
    res.extra["graphs_enumerated_by_TLC"] = len(cases)
    for _ in range(30000 if big else 2500):
        n, l = rand_graph(rng) if rng.random() < .8 else rand_graph(rng, 26, 80)
        d = rng.randint(1, n)
        ph = []
        for _ in range(rng.randint(1, 4)):
            ph.append((d, rand_cost(rng, len(l))))
            if rng.random() < .2: d = rng.randint(1, n)
        cases.append(sp_case(rng, n, l, ph))
    td, py = [], []
    for _ in range(8000 if big else 900):
        wide = rng.random() < .12
        n, l = rand_graph(rng, 14, 30) if wide else rand_graph(rng, 6, 10)
        M = rng.randint(2, 24) if wide else rng.randint(1, 7); d = rng.randint(1, n)
        nid, lid = ids(rng, n), ids(rng, len(l))
        c = [n, len(l)] + nid
        for i, (f, t) in enumerate(l): c += [lid[i], f, t]
        P = rng.randint(1, 3)
        c += [M, d, P]
        for _ in range(P):
            co, tt = tdsp_tables(rng, len(l), M)
            if rng.random() < .3: co = tt
            c += [rng.choice([0, 0, 1])] + sum(co, []) + sum(tt, [])
        td.append(c)
    for _ in range(2500 if big else 350):
        n, l = rand_graph(rng, 6, 10)
        used = sorted({x for e in l for x in e}); ren = {x: i + 1 for i, x in enumerate(used)}
        l = [(ren[a], ren[b]) for a, b in l]; n = len(used)
        M = rng.randint(1, 7)
        co, tt = tdsp_tables(rng, len(l), M)
        order = list(range(len(l))); rng.shuffle(order)
        py.append(dict(n=n, l=l, M=M, d=rng.randint(1, n), c=co, t=tt, nid=ids(rng, n), lid=ids(rng, len(l)), order=order,
                       txt=rng.random() < .3, predest=rng.choice([0, rng.randint(1, n)]),
                       ask=[(rng.randint(1, n), rng.randint(1, M)) for _ in range(8)]))
    res.samples += [dict(kind="static", case=cases[-1]), dict(kind="time-dependent", case=td[-1]), dict(kind="python", case=py[-1])]
    judge(res, [(run_cpp, exe, "sp", cases), (run_cpp, exe, "tdsp", td), (run_py, ext, "tdsp", py)], "TraceSp", prop)

# ---------------------------------------------------------------- C13
def graph_histories(res, rng, big):
    """Histories that perform every operation in every graph TLC reaches, plus
    longer random ones (ids re-used, parallel links, failing operations)."""
    out = closed_model(res, "MCGraph", "MCGraphx" if big else "MCGraph")
    hs = []
    for c in emitted(out):
        h, fail, ask, do = c["h"], c["fail"], c["ask"], c["do"]
        rng.shuffle(fail)
        hs.append(h + fail + ask)
        if big or rng.random() < .3:
            for o in do: hs.append(h + [o, rng.choice(fail)] if fail else h + [o])
    res.extra["graphs_reached_by_TLC"] = len(emitted(out))
    for _ in range(1500 if big else 150):
        N, L = rng.randint(2, 7), rng.randint(2, 12)
        base = rng.choice([0, 100, -5])
        h = []
        for _ in range(rng.randint(4, 26)):
            z = rng.random()
            if z < .3: h.append([1, base + rng.randint(1, N), rng.randint(0, 99), 0, 0])
            elif z < .85: h.append([2, base + rng.randint(1, L), base + rng.randint(1, N), base + rng.randint(1, N), rng.randint(0, 99)])
            else: h.append([rng.choice([3, 4, 5]), base + rng.randint(1, L), 0, 0, 0])
        hs.append(h)
    return hs

def c13(res, prop, tier):
    rng = random.Random("C13/%d" % SEED)
    big = tier == "thorough"
    exe = build.build("alg")
    ext = build.build_ext()
    hs = graph_histories(res, rng, big)
    res.samples += [dict(history=h) for h in rng.sample(hs, 3)]
    res.extra["histories"] = len(hs)
    cpp = [[len(h)] + sum(h, []) for h in hs]
    py = [dict(ops=h) for h in (hs if big else rng.sample(hs, len(hs) // 2))]
    judge(res, [(run_cpp, exe, "graph", cpp), (run_py, ext, "graph", py)], "TraceGraph", prop)

# ---------------------------------------------------------------- C11
def fifo_history(rng, H, amax, ff, gap, scale=1):
    """In- and out-increments of a FIFO link over H intervals."""
    i, o, stock, t = [], [], [], 0
    while t < H:
        t += 1 if gap <= 1 else rng.randint(1, gap)
        if t > H: break
        if rng.random() < .6:
            a = rng.randint(1, amax) * scale
            i.append((t, a)); stock.append([t, a])
            if rng.random() < .1:
                b = rng.randint(1, amax); i.append((t, b)); stock[-1][1] += b
        if rng.random() < .6:
            ready = sum(a for s, a in stock if t - s >= ff)
            if ready:
                d = ready if rng.random() < .4 else rng.randint(1, ready)
                o.append((t, d))
                while d:
                    k = min(d, stock[0][1]); d -= k; stock[0][1] -= k
                    if not stock[0][1]: stock.pop(0)
    return i, o

def curve_case(rng, mc, S, U, links, end, times, counts, starts, rob):
    c = [int(mc), S, U, len(links)]
    for typ, ln, cvs in links:
        c += [typ, ln]
        for i, o in cvs:
            c += [len(i)] + [x for p in i for x in p] + [len(o)] + [x for p in o for x in p]
    c.append(end)
    for xs in (times, counts, starts): c += [len(xs)] + list(xs)
    c.append(len(rob))
    for r in rob: c += list(r)
    return c

def rob_windows(rng, end, n):
    out = []
    while len(out) < n:
        ln = rng.randint(1, max(1, min(60, end))); tr = rng.randint(1, 12)
        if (4 * ln) % min(ln, tr): continue
        out.append((4 * rng.randint(0, end) + rng.choice([0, 0, 4, 2]), ln, tr))
    return out

def c11(res, prop, tier):
    rng = random.Random("C11/%d" % SEED)
    big = tier == "thorough"
    exe = build.build("alg")
    cases = []
    for cfg, H, ff in ([("MCCurvex", 5, 1), ("MCCurve2", 5, 2)] if big else [("MCCurve", 4, 1)]):
        cs = emitted(closed_model(res, "MCCurve", cfg))
        res.extra["histories_enumerated_by_TLC"] = res.extra.get("histories_enumerated_by_TLC", 0) + len(cs)
        rng.shuffle(cs)
        # one case carries several histories: links of one path
        mc = False
        while cs:
            mc = not mc
            k = rng.randint(1, 3) * (2 if mc else 1)
            part, cs = cs[:k], cs[k:]
            if mc and len(part) % 2: part.append(part[0])
            U, S = rng.choice([1, 5, 6]), rng.choice([1, 4, 10, 3])
            cv = [(c["i"], c["o"]) for c in part]
            ls = [(rng.choice([0, 1, 2]), 10 * U * ff, cv[j:j + (2 if mc else 1)]) for j in range(0, len(cv), 2 if mc else 1)]
            n = max(sum(a for _, a in x[0]) for x in cv)
            cases.append(curve_case(rng, mc, S, U, ls, H, range(0, 4 * (H + 2), rng.choice([1, 2])), range(0, 2 * n + 4),
                                    range(0, H + 1), rob_windows(rng, H, 2)))
    for _ in range(2000 if big else 220):
        mc = rng.random() < .5
        U, S = rng.choice([1, 5, 6, 10]), rng.choice([1, 4, 10, 3])
        long_ = rng.random() < .35
        H = rng.choice([rng.randint(11000, 30000), rng.randint(200, 2000)]) if long_ else rng.randint(5, 60)
        gap = max(1, H // rng.randint(15, 60)) if long_ else rng.randint(1, 3)
        if long_ and rng.random() < .4: gap = 1; base = H - 30
        else: base = 0
        scale = rng.choice([1, 1, 1, 400, 2500])
        links, mx = [], 0
        for _ in range(rng.randint(1, 3)):
            typ = rng.choice([0, 1, 2]); ln = rng.randint(1, 6) * 10 * U + rng.choice([0, 0, 3, 5 * U])
            cvs = []
            for c in range(2 if mc else 1):
                cells = max(1, ln // (10 * U))
                i, o = fifo_history(rng, H - base, rng.randint(1, 5), cells, gap, scale)
                i = [(t + base, a) for t, a in i]; o = [(t + base, a) for t, a in o]
                mx = max(mx, sum(a for _, a in i)); cvs.append((i, o))
            links.append((typ, ln, cvs))
        pts = sorted({t for _, _, cvs in links for i, o in cvs for t, _ in i + o})
        tt = sorted({max(0, 4 * t + d) for t in rng.sample(pts, min(len(pts), 12)) for d in (-4, -1, 0, 2, 4)} | {0, 4 * H, 4 * H + 9})
        sums = set()
        for _, _, cvs in links:
            for x in cvs:
                for y in x:
                    z = 0
                    for _, a in y: z += a; sums.add(z)
        rs = sorted({max(0, 2 * z + d) for z in rng.sample(sorted(sums), min(len(sums), 10)) for d in (-1, 0, 1, 2)} | {0, 2 * mx, 2 * mx + 3})
        ps = [rng.choice(pts) + rng.randint(-2, 2) if pts else 0 for _ in range(5)] + [0, H - 1]
        cases.append(curve_case(rng, mc, S, U, links, H, tt, rs, [min(max(0, p), H) for p in ps], rob_windows(rng, H, 3)))
    res.samples += [dict(case=c) for c in cases[-2:]]
    judge(res, [(run_cpp, exe, "curve", cases)], "TraceCurve", prop)

# ---------------------------------------------------------------- C16
def c16(res, prop, tier):
    ext = build.build_ext()
    cs = emitted(closed_model(res, "MCSilence", "MCSilencex" if tier == "thorough" else "MCSilence"))
    res.extra["histories_enumerated_by_TLC"] = len(cs)
    res.samples += cs[::max(1, len(cs) // 3)]
    judge(res, [(run_py, ext, "silence", cs)], "TraceSilence", prop)
