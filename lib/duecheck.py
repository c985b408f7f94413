"""C17: equilibrium iterations (user equilibrium and system optimum)."""
import json, os, random, subprocess, concurrent.futures as cf
from common import SEED, many
import algcheck, build, scen, tlcrun

def make(seed, kind, method):
    rng = random.Random("due/%d/%s/%s" % (seed, kind, method))
    topo = rng.choice(["braess", "braess", "grid", "multiod", "random", "x", "cyc"])
    mids = [["CTM"], ["CTM", "PQ"], ["PQ"]] if kind == "dso" else [["CTM"], ["CTM", "LQ"], ["PQ"], ["CTM", "PQ", "LQ"]]
    s = scen.gen(rng.randrange(10 ** 6), topo=topo, routing="Due", mids=rng.choice(mids), congest=rng.choice([.5, 1.2, 2.5]))
    if kind == "dso":
        for l in s.links.values():
            if l["typ"] not in ("CTM", "PQ"): l["typ"] = "CTM"
    hor = s.assign_frq * s.max_interval
    s.total_interval = -1 if rng.random() < .3 else hor + rng.choice([0, 10, 30])
    s.due = dict(vot=rng.choice([6, 18, 36, 60]), early=rng.choice([0, 9, 18]), late=rng.choice([0, 36, 90]),
                 target=rng.choice([0, 1, 2, 5]), lam=rng.choice([1000, 500, 250, 100]))
    if rng.random() < (.8 if method == "GP" else .5):
        ls = [i for i in sorted(s.links) if s.links[i]["cap"] < scen.BIG] or sorted(s.links)
        s.tolls = {l: (rng.choice([1, 5, 20, 100]), 0) for l in rng.sample(ls, min(len(ls), rng.choice([1, 2, 3])))}
    s.kind, s.method = kind, method
    return s

def header(s):
    h = s.header()
    pairs = [(s.origins[o], s.dests[d]) for o, d in s.demand]
    ap = [dict(on=a, dn=b, l=ls) for a, b in pairs for ns, ls in s.simple_paths(a, b, limit=50)]
    h.update(due=s.due, kind=s.kind, method=s.method, ap=ap, exact=0 if s.total_interval < 0 else 1)
    return h

def one(exe, s, folder, iters, ext=None, rnd=None):
    s.write(folder)
    raw = os.path.join(folder, "raw")
    prob = None
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", exe, s.kind, folder, raw, str(s.rseed), str(s.rmode), s.method, str(iters)],
                           capture_output=True, text=True, timeout=120)
        if r.returncode: prob = "iterations ended with status %d: %s" % (r.returncode, r.stderr[-300:])
    except subprocess.TimeoutExpired:
        prob = "iterations did not end within 120 s"
    py = ""
    if ext and not prob:
        # the same through Python, drawing the same random numbers; it has files of its own
        pf = folder + "py"
        s.write(pf)
        cin, pout = pf + "/cases", pf + "/out"
        json.dump(dict(kind=s.kind, folder=pf, method=s.method, iters=iters), open(cin, "w"))
        env = dict(os.environ, LD_PRELOAD=rnd, VERIF_RS=str(s.rseed), VERIF_RM=str(s.rmode))
        try:
            r = subprocess.run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", build.PY, os.path.join(build.HERE, "pyapi.py"), ext, "due", cin, pout, pf + "/scratch"],
                               capture_output=True, text=True, timeout=120, env=env)
            if r.returncode: prob = "the same iterations through Python ended with status %d: %s" % (r.returncode, r.stderr[-300:])
            else: py = open(pout).read()
        except subprocess.TimeoutExpired:
            prob = "the same iterations through Python did not end within 120 s"
    tr = os.path.join(folder, "trace.ndjson")
    with open(tr, "w") as f:
        f.write(json.dumps(header(s)) + "\n")
        if os.path.exists(raw): f.write(open(raw, errors="replace").read())
        f.write(py)
    return tr, prob

COMBOS = [("due", "MSA"), ("due", "GP"), ("due", "DTC"), ("dso", "MSA"), ("due", "MSA"), ("due", "GP"), ("dso", "GP"), ("due", "DTC"), ("dso", "DTC")]

def check(res, prop, tier):
    n, iters = (135, 5) if tier == "quick" else (900, 10)
    for m in ["MCDue"] if tier == "quick" else ["MCDue", "MCDue2", "MCDuex"]: algcheck.closed_model(res, "MCDue", m)
    rng = random.Random("%s/%d" % (prop, SEED))
    exe, ext, rnd = build.build("due"), build.build_ext(), build.build_rnd()
    pl = [(rng.randrange(10 ** 6),) + COMBOS[i % len(COMBOS)] for i in range(n)]
    scens = [make(*p) for p in pl]
    def go(i): return one(exe, scens[i], os.path.join(res.work, "s%d" % i), iters, ext if i % 3 == 1 else None, rnd)
    runs = many(go, n)
    bad, files = {}, {}
    for i, (tr, prob) in runs:
        if prob: bad[i] = prob
        else: files[tr] = i
    rej, err, (g, d) = tlcrun.validate_all("TraceDue", list(files), [prop], os.path.join(res.work, "tlc"))
    res.transitions += g; res.states += d; res.traces += len(files) - len(err)
    for p, v in rej.items(): bad[files[p]] = v
    for p, v in err.items(): bad[files[p]] = "the iterations cannot be judged: " + v[-1500:]
    res.samples += [dict(seed=pl[i][0], kind=pl[i][1], method=pl[i][2]) for i in (0, n // 2, n - 1)]
    for i in sorted(bad)[:4]:
        res.violation(str(bad[i])[:3000], dict(seed=pl[i][0], kind=pl[i][1], method=pl[i][2], iterations=iters, header=header(scens[i])))
