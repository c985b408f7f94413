"""C21: input files are read as declared, inconsistent ones are refused."""
import json, os, random, shutil, subprocess
from common import SEED
import algcheck, build, scen

BAD = -999
NT = {1: "FWJ", 2: "GRJ", 3: "DMOND", 4: "DMDND", 5: "XYZ", BAD: "?"}
LT = {1: "PQ", 2: "CTM", 3: "LQ", 4: "LTM", 5: "BPR", BAD: "?"}
FILES = dict(node="MNM_input_node", link="MNM_input_link", graph="Snap_graph", od="MNM_input_od", dem="MNM_input_demand")

def word(f, j, w):
    if f == "node" and j == 1: return NT.get(w, "T%d" % w)
    if f == "link" and j == 1: return LT.get(w, "T%d" % w)
    if w == BAD: return "abc"
    if f == "node" and j == 2: return "%.2f" % (w / 100)
    if f == "link" and j in (2, 10): return "%.2f" % (w / 100)
    if f == "dem" and j > 1: return "%.3f" % (w / 1000)
    return str(w)

def render(d, folder, rng):
    os.makedirs(folder + "/record", exist_ok=True)
    s = scen.Scenario("net", mc=bool(d["mc"]))
    s.routing = "Adaptive"; s.U = d.get("U", 5); s.S = d.get("S", 1); s.max_interval = d["c"]["n"]; s.assign_frq = s.route_frq = s.ad_frq = 60 // s.U
    cfg = s.config()
    for k, v in dict(num_of_link=d["c"]["links"], num_of_node=d["c"]["nodes"], num_of_O=d["c"]["O"], num_of_D=d["c"]["D"], OD_pair=d["c"]["od"]).items():
        cfg = cfg.replace("%s = 0\n" % k, "%s = %d\n" % (k, v))
    with open(folder + "/config.conf", "w") as f: f.write(cfg)
    noisy = rng.random() < .4
    for k, n in FILES.items():
        if k in d["gone"]: continue
        lines = [" ".join(word(k, j, w) for j, w in enumerate(r)) for r in d[k]]
        if noisy:
            # what follows the rows may be anything only if they are enough
            cnt = dict(node=d["c"]["nodes"], link=d["c"]["links"], graph=d["c"]["links"], od=d["c"]["O"] + d["c"]["D"], dem=d["c"]["od"])[k]
            lines = [x for x in scen.noise(rng, n, lines) if len(lines) >= cnt or x != "9 9 9"]
        with open(os.path.join(folder, n), "w") as f:
            f.write("\n".join(lines) + ("\n" if lines and (not noisy or rng.random() < .7) else ""))

def declared(s):
    """The declaration of a generated network."""
    nt = dict(FWJ=1, GRJ=2, ORG=3, DST=4); lt = dict(PQ=1, CTM=2, LQ=3, LTM=4)
    return dict(mc=1 if s.mc else 0, U=s.U, S=s.S, gone=[],
        c=dict(nodes=len(s.nodes), links=len(s.links), O=len(s.origins), D=len(s.dests), od=len(s.demand), n=s.max_interval),
        node=[[n, nt[t]] + ([s.nconv.get(n, 175)] if s.mc else []) for n, t in s.nodes.items()],
        link=[[l["id"], lt[l["typ"]], l["L"], l["F"], l["cap"], l["rho"], l["lanes"]] + ([l["Ft"], l["capt"], l["rhot"], l["conv"]] if s.mc else []) for l in s.links.values()],
        graph=[[l["id"], l["frm"], l["to"]] for l in s.links.values()],
        od=[list(x) for x in s.origins.items()] + [list(x) for x in s.dests.items()],
        dem=[[o, d] + (list(v[0]) + list(v[1]) if s.mc else list(v)) for (o, d), v in s.demand.items()])

def slip(rng, d):
    f = rng.choice(list(FILES)); rs = d[f]; k = rng.random()
    if k < .12:
        x = rng.choice(list(d["c"])); d["c"][x] = max(1, d["c"][x] + rng.choice([-1, 1])); return
    if k < .15: d["gone"] = d["gone"] + [f]; return
    if not rs: return
    i = rng.randrange(len(rs))
    if k < .30: rs.insert(rng.randrange(len(rs)), rs.pop(i))
    elif k < .38: rs.pop(i)
    elif k < .46: rs.insert(i, list(rs[i]))
    elif k < .52 and len(rs[i]) > 1: rs[i].pop(rng.choice([0, -1]))
    elif k < .60: rs[i][rng.randrange(len(rs[i]))] = BAD
    elif f == "node" and k < .75: rs[i][1] = rng.randint(1, 5)
    elif f == "link" and k < .75: rs[i][1] = rng.choice([1, 5, 4 if d["mc"] else 5])  # other models may refuse the parameters
    else:
        j = {"node": 1, "link": 1, "graph": 3, "od": 2, "dem": 2}[f]
        j = min(rng.randrange(j), len(rs[i]) - 1)
        if f == "graph" and rng.random() < .3 and len(rs[i]) == 3: rs[i][1], rs[i][2] = rs[i][2], rs[i][1]
        else: rs[i][j] = rng.choice(rng.choice(rs)) if f == "graph" else rng.choice([r[min(j, len(r) - 1)] for r in rs] + [rng.randint(1, 40)])

def randoms(rng, n):
    out = []
    for i in range(n):
        mc = i % 2 == 1
        s = scen.gen(rng.randrange(10 ** 6), mc=mc, topo=rng.choice(["braess", "grid", "multiod", "random", "x", "cyc", "chain", "merge"]))
        d = declared(s)
        for f in ("node", "link", "graph", "dem"): rng.shuffle(d[f])
        for k in range(rng.choice([0, 1, 1, 1, 2])): slip(rng, d)
        out.append(d)
    return out

def run_net(exe, kind, cases, d, timeout=800):
    os.makedirs(d, exist_ok=True)
    lst, out = d + "/list", d + "/trace.ndjson"
    with open(lst, "w") as f:
        for i, c in enumerate(cases):
            folder = "%s/c%d" % (d, i)
            render(c, folder, random.Random(json.dumps(c, sort_keys=True)))
            f.write(folder + " " + json.dumps(c, separators=(",", ":")) + "\n")
    p = algcheck.run(["bash", "-c", 'ulimit -c 0; exec "$@"', "x", exe, kind, lst, out], out, len(cases), timeout)
    for i in range(len(cases)): shutil.rmtree("%s/c%d" % (d, i), ignore_errors=True)
    return out, p

def check(res, prop, tier):
    rng = random.Random("%s/%d" % (prop, SEED))
    exe = build.build("net")
    cases = algcheck.emitted(algcheck.closed_model(res, "MCNet", "MCNet"))
    if tier == "thorough":
        more = algcheck.emitted(algcheck.closed_model(res, "MCNet", "MCNetx", timeout=2400))
        rng.shuffle(more)
        cases += more[:60000]
    cases += randoms(rng, 2000 if tier == "quick" else 8000)
    for d in cases:
        d["gone"] = list(d["gone"])
    res.samples += [cases[0], cases[len(cases) // 2]]
    algcheck.judge(res, [(run_net, exe, k, [c for c in cases if c["mc"] == m]) for m, k in ((0, "sc"), (1, "mc"))], "TraceNet", prop)
