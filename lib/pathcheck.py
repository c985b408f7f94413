"""C18: path sets - generating, reading, writing, portions, covering links."""
import json, os, random, subprocess, concurrent.futures as cf
from common import SEED, many
import algcheck, build, scen, tlcrun

def walk(rng, s, n):
    """A walk with repeated nodes in the network of the scenario."""
    mid = [x for x in s.nodes if s.outlinks(x)]
    v = rng.choice(mid); ns, ls = [v], []
    for _ in range(n):
        o = s.outlinks(v)
        if not o: break
        l = rng.choice(o); v = s.links[l]["to"]; ns.append(v); ls.append(l)
    return ns, ls

def make(seed, mc):
    rng = random.Random("paths/%d/%d" % (seed, mc))
    topo = rng.choice(["braess", "braess", "grid", "grid", "multiod", "random", "x", "cyc", "cyc"])
    s = scen.gen(rng.randrange(10 ** 6), mc=mc, topo=topo, routing=None if mc else "Hybrid", **({"minutes": 2} if mc else {}))
    if rng.random() < .5:
        for l in rng.sample(sorted(s.links), min(len(s.links), 3)): s.tolls[l] = (rng.choice([5, 50, 300]), rng.choice([10, 100]))
        s.vot = s.vot or 30
    lens = sorted(sum(s.links[l]["L"] for l in p["links"]) for p in s.paths)
    s.gen = dict(K=rng.choice([2, 3, 4]), vot=rng.choice([1, 2, 3]), mid=rng.choice([1, 2, 3]), heavy=rng.choice([1, 3, 6]),
                 blen=rng.choice([-1, s.max_interval * (2 if mc else 1), 5]), minlen=0 if rng.random() < .7 else int(lens[len(lens) // 2] * 16.0) + rng.choice([-5, 7]))
    s.rng = rng
    return s

def header(s):
    h = s.header()
    h.update(gen=s.gen, orgs=list(s.origins.values()), dsts=list(s.dests.values()), refuse=s.refuse)
    return h

def write(s, folder, walks):
    rng = s.rng = random.Random("%s/%s" % (s.name, s.gen))
    s.write(folder)
    os.makedirs(folder + "/back", exist_ok=True)
    # comments and blank lines where they may be
    p = open(folder + "/path_table").read().splitlines(); b = open(folder + "/path_table_buffer").read().splitlines()
    if rng.random() < .5:
        for i in reversed(range(len(p))):
            if rng.random() < .3: p.insert(i, rng.choice(["# a path", "", "#"]))
            if rng.random() < .3: b.insert(i, "# portions")
        open(folder + "/path_table", "w").write("\n".join(p) + "\n"); open(folder + "/path_table_buffer", "w").write("\n".join(b) + "\n")
    rows = [q["nodes"] for q in s.paths]
    bad = [(rows, len(rows) + 1, 1), (rows, len(rows), 0)]
    adj = {(l["frm"], l["to"]) for l in s.links.values()}
    r = list(rng.choice(rows)); far = [x for x in s.nodes if (r[-2], x) not in adj and x != r[-2]]
    if far: bad.append(([*rows, r[:-1] + [rng.choice(far)]], len(rows) + 1, 1))
    bad.append(([*rows, r[:1] + [max(s.nodes) + 17] + r[1:]], len(rows) + 1, 1))
    if len(r) > 3: bad.append(([*rows, r[:1] + r[2:]], len(rows) + 1, 1 if (r[0], r[2]) not in adj else 0))
    rng.shuffle(bad)
    s.refuse = [x[2] for x in bad]
    for i, (rs, n, _) in enumerate(bad):
        open(folder + "/bad%d" % i, "w").write("\n".join(" ".join(map(str, x)) for x in rs) + "\n")
    g = s.gen
    with open(folder + "/paths.in", "w") as f:
        print(len(s.paths), g["K"], g["vot"], g["mid"], g["heavy"], g["blen"], g["minlen"], file=f)
        ws = walks + [walk(rng, s, rng.choice([1, 3, 6, 12])) for _ in range(6)]
        print(len(ws), file=f)
        for ns, ls in ws: print(len(ns), *ns, *ls, file=f)
        sets = [[rng.choice([0, 1, 250, 333, 1000, 7000]) for _ in range(rng.randint(1, 5))] for _ in range(8)] + [[0], [0, 0, 0], [500, -1], [-250, 0, 250]]
        print(len(sets), file=f)
        for x in sets: print(len(x), *x, file=f)
        print(len(bad), *[x[1] for x in bad], file=f)

def tabled(s, e):
    """Rows of a written table as a table."""
    if e["ph"] != "build": return e
    adj = {(l["frm"], l["to"]): l["id"] for l in s.links.values()}
    T = {(s.origins[o], s.dests[d]): [] for o, d in s.demand}
    bufs = e["buf"] + [[-1]] * (len(e["rows"]) - len(e["buf"]))
    for n, b in zip(e["rows"], bufs):
        T.setdefault((n[0], n[-1]) if n else (0, 0), []).append(dict(id=-1, n=n, l=[adj.get(x, 0) for x in zip(n, n[1:])], p=0, b=b))
    return dict(ph="build", k=e["k"], bl=2 * s.max_interval, T=[dict(on=o, dn=d, p=x) for (o, d), x in sorted(T.items())])

def one(exe, ext, rnd, s, folder, walks, py):
    write(s, folder, walks)
    raw = folder + "/raw"
    prob = None
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -c 0; ulimit -v 8000000; exec "$@"', "x", exe, "mc" if s.mc else "sc", folder, raw], capture_output=True, text=True, timeout=60)
        if r.returncode: prob = "path tables: ended with status %d: %s" % (r.returncode, r.stderr[-300:])
    except subprocess.TimeoutExpired:
        prob = "path tables: did not end within 60 s"
    more = ""
    if py and not prob:
        rng = s.rng
        jobs = []
        if s.mc:
            for k in range(s.gen["K"] + 1): jobs.append(dict(op="build", k=k, **{x: s.gen[x] for x in ("vot", "mid", "heavy", "minlen")}))
        for op in ["cover", "cover"] + (["through"] if s.mc else []):
            ids = sorted(s.links); rng.shuffle(ids)
            jobs.append(dict(op=op, links=ids[:rng.randint(1, len(ids))], preg=rng.sample(range(len(s.paths)), rng.randint(0, len(s.paths))), rounds=rng.choice([1, 2, 4]), seed=rng.randrange(1000)))
        for i, j in enumerate(jobs):
            j["folder"] = folder + "/py%d" % i; s.write(j["folder"])
        cin, pout = folder + "/cases", folder + "/pyout"
        json.dump(dict(mc=1 if s.mc else 0, jobs=jobs), open(cin, "w"))
        try:
            r = subprocess.run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", build.PY, os.path.join(build.HERE, "pyapi.py"), ext, "paths", cin, pout, folder + "/scratch"],
                               capture_output=True, text=True, timeout=60)
            if r.returncode: prob = "path sets through Python: ended with status %d: %s" % (r.returncode, r.stderr[-300:])
            else:
                r = json.loads(open(pout).read())
                more = "".join(json.dumps(tabled(s, x)) + "\n" for x in r.get("ev", [r]))
        except subprocess.TimeoutExpired:
            prob = "path sets through Python: did not end within 60 s"
    tr = folder + "/trace.ndjson"
    h = header(s)
    with open(tr, "w") as f:
        f.write(json.dumps(h) + "\n")
        if os.path.exists(raw): f.write(open(raw, errors="replace").read())
        f.write(more)
    return tr, prob

def check(res, prop, tier):
    n = 160 if tier == "quick" else 1500
    out = algcheck.closed_model(res, "MCPath", "MCPath" if tier == "quick" else "MCPathx")
    walks = [(x["n"], x["l"]) for x in algcheck.emitted(out)]
    rng = random.Random("%s/%d" % (prop, SEED))
    rng.shuffle(walks)
    exe, ext, rnd = build.build("paths"), build.build_ext(), None
    pl = [(rng.randrange(10 ** 6), i % 5 >= 3) for i in range(n)]
    scens = [make(*p) for p in pl]
    def go(i, folder=None): return one(exe, ext, rnd, scens[i], folder or os.path.join(res.work, "s%d" % i), walks[i::n], True)
    runs = many(go, n)
    bad, files = {}, {}
    for i, (tr, prob) in runs:
        if prob: bad[i] = prob
        else: files[tr] = i
    rej, err, (g, d) = tlcrun.validate_all("TracePath", list(files), [prop], os.path.join(res.work, "tlc"))
    res.transitions += g; res.states += d; res.traces += len(files) - len(err)
    for p, v in rej.items(): bad[files[p]] = v
    for p, v in err.items(): bad[files[p]] = "the tables cannot be judged: " + v[-1500:]
    res.samples += [dict(seed=pl[i][0], mc=pl[i][1], generator=scens[i].gen) for i in (0, n // 2, n - 1)]
    for i in sorted(bad)[:4]:
        res.violation(str(bad[i])[:3000], dict(seed=pl[i][0], mc=pl[i][1], header=header(scens[i])))
    if len(bad) > 4: res.extra["further_rejections"] = len(bad) - 4
