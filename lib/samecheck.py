"""C15: the same input and seed give the same loading, whatever the memory
layout, what ran before in the process, and what is recorded."""
import json, os, random, subprocess, concurrent.futures as cf
from common import SEED, many
import build, scen, tlcrun, algcheck, pycheck

RUNS = [("same", "as is", 0, []), ("same", "other memory layout", 3, []), ("same", "other memory layout", 11, []),
        ("unrecorded", "no curves recorded", 5, ["nocc"])]

def one(exe, s, folder, heap, args, out):
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -c 0; ulimit -f 400000; exec "$@"', "x", exe, "mc" if s.mc else "sc", folder, out,
                            str(s.rseed), str(s.rmode)] + args, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, VERIF_HEAP=str(heap)))
        return "loading ended with status %d: %s" % (r.returncode, r.stderr[-300:]) if r.returncode else None
    except subprocess.TimeoutExpired:
        return "loading did not end within 60 s"

def group(exe, s, folder):
    s.write(folder)
    outs = []
    for i, (mode, how, heap, args) in enumerate(RUNS):
        o = os.path.join(folder, "raw%d" % i)
        p = one(exe, s, folder, heap, args, o)
        if p: return None, "%s: %s" % (how, p), 0
        outs.append(open(o, errors="replace").read().splitlines()); os.remove(o)
    n = max(map(len, outs))
    tr = os.path.join(folder, "trace.ndjson")
    with open(tr, "w") as f:
        f.write(json.dumps(dict(modes=[r[0] for r in RUNS], how=[r[1] for r in RUNS])) + "\n")
        for k in range(n):
            f.write('{"r":[' + ",".join(x[k] if k < len(x) else '{"ph":"none"}' for x in outs) + "]}\n")
    return tr, None, n

TOPOS = [dict(), dict(topo="fan"), dict(topo="fan", congest=2.5), dict(topo="grid"), dict(topo="x", congest=2.5), dict(topo="merge", congest=2.5), dict(topo="multiod")]

def check(res, prop, tier):
    nsc, nmc = (40, 24) if tier == "quick" else (400, 200)
    npy = (16, 10) if tier == "quick" else (150, 80)
    rng = random.Random("%s/%d" % (prop, SEED))
    exe = build.build("dnl")
    pl = []
    for i in range(nsc + nmc):
        kw = dict(TOPOS[i % len(TOPOS)])
        if i >= nsc: kw["minutes"] = rng.choice([2, 2, 3])
        pl.append((i >= nsc, rng.randrange(10 ** 6), kw))
    scens = [scen.gen(seed, mc=mc, **kw) for mc, seed, kw in pl]
    def go(i): return group(exe, scens[i], os.path.join(res.work, "s%d" % i))
    runs = many(go, len(pl))
    bad, files = {}, {}
    for i, (tr, prob, n) in runs:
        if prob: bad[i] = prob
        else: files[tr] = i
        res.extra["compared_events"] = res.extra.get("compared_events", 0) + n
    rej, err, (g, d) = tlcrun.validate_all("TraceSame", list(files), [prop], os.path.join(res.work, "tlc"))
    res.transitions += g; res.states += d; res.traces += (len(files) - len(err)) * len(RUNS)
    for p, v in rej.items(): bad[files[p]] = v
    for p, v in err.items(): bad[files[p]] = "the runs cannot be compared: " + v[-1200:]
    res.samples += [dict(generator=pl[i], runs=[r[1] for r in RUNS]) for i in (0, len(pl) - 1)]
    for i in sorted(bad)[:4]:
        # a difference between runs is reported as found: repeating it may hide it
        res.violation(str(bad[i])[:3000], dict(generator=dict(mc=pl[i][0], seed=pl[i][1], options=pl[i][2]), header=scens[i].header()))
    # through the Python classes, several loadings in one process and in another one
    ext = build.build_ext()
    cs = []
    for i in range(sum(npy)):
        mc = i >= npy[0]
        kw = dict(TOPOS[i % len(TOPOS)])
        if mc: kw["minutes"] = 2
        else: kw["routing"] = rng.choice(["Hybrid", "Fixed", "Adaptive"])
        c = pycheck.case(res, rng, 1000 + i, mc, rng.randrange(10 ** 6), kw)
        cs.append(c)
    for i, c in enumerate(cs):
        c["other"] = [dict(folder=x["folder"], mc=x["mc"]) for x in (cs[i - 1], cs[i - 2])]
    res.samples += [c["gen"] for c in cs[:2]]
    def pygo(i):
        d = os.path.join(res.work, "py%d" % i); os.makedirs(d)
        rs = []
        for k, env in enumerate((dict(VERIF_HOW="plain"), dict(VERIF_HOW="other process", MALLOC_PERTURB_="165", MALLOC_TOP_PAD_="65536", MALLOC_MMAP_THRESHOLD_="2048", PYTHONHASHSEED="7"))):
            dd = os.path.join(d, str(k)); os.makedirs(dd)
            with open(dd + "/cases", "w") as f: f.write(json.dumps(dict(cs[i], noise=k)) + "\n")
            try:
                r = subprocess.run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", build.PY, os.path.join(build.HERE, "pyapi.py"), ext, "same", dd + "/cases", dd + "/out", dd + "/scratch"],
                                   capture_output=True, text=True, timeout=120, env=dict(os.environ, **env))
            except subprocess.TimeoutExpired: return None, "loadings did not end within 120 s"
            if r.returncode: return None, "loadings ended with status %d: %s" % (r.returncode, r.stderr[-300:])
            rs.append(json.loads(open(dd + "/out").read()))
        tr = os.path.join(d, "trace.ndjson")
        with open(tr, "w") as f:
            f.write('{"modes":[]}\n')
            for r in rs:
                if r["ph"] == "throw": f.write(json.dumps(r) + "\n")
            if all(r["ph"] != "throw" for r in rs): f.write(json.dumps(dict(runs=[x for r in rs for x in r["runs"]])) + "\n")
        return tr, None
    runs = many(pygo, len(cs))
    files = {tr: i for i, (tr, p) in runs if tr}
    rej, err, (g, d) = tlcrun.validate_all("TraceSame", list(files), [prop], os.path.join(res.work, "tlcpy"))
    res.transitions += g; res.states += d; res.traces += (len(files) - len(err)) * 5
    bad = {i: p for i, (tr, p) in runs if p}
    for p, v in rej.items(): bad[files[p]] = v
    for p, v in err.items(): bad[files[p]] = "the runs cannot be compared: " + v[-1200:]
    for i in sorted(bad)[:4]: res.violation(str(bad[i])[:3000], dict(kind="python", case=cs[i]))
