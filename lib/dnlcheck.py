"""C01-C09 (and everything else that is decided on recorded loadings):
generate networks, run the real loading with the recorder, validate the traces
with TLC against spec/TraceDnl.tla."""
import json, os, random, subprocess, concurrent.futures as cf
from common import SEED
import build, scen, tlcrun

# scenario profiles: extra weight on what a property talks about
PROFILE = {
    "C01": [dict(), dict(congest=2.5), dict(topo="cyc"), dict(topo="multiod")],
    "C02": [dict(), dict(topo="multiod"), dict(congest=0.8, tdr=1), dict(topo="x", tdr=1), dict(afrq=1), dict(topo="multiod", afrq=2, tdr=1)],
    "C03": [dict(), dict(topo="braess"), dict(topo="grid"), dict(congest=2.5)],
    "C04": [dict(congest=2.5), dict(congest=2.5, mids=["CTM"]), dict(congest=2.5, mids=["LQ"]), dict(topo="merge", congest=2.5), dict()],
    "C05": [dict(mids=["CTM"], congest=1.5), dict(mids=["LQ"], congest=1.5), dict(mids=["PQ"]), dict(congest=2.5), dict()],
    "C06": [dict(), dict(congest=2.5), dict(topo="diverge", congest=1.5), dict(topo="grid", congest=2.5)],
    "C07": [dict(topo="merge", congest=2.5), dict(topo="x", congest=2.5), dict(topo="grid", congest=2.5), dict(topo="diverge", congest=1.5), dict()],
    "C08": [dict(topo="braess"), dict(topo="grid"), dict(topo="multiod"), dict(topo="random"), dict()],
    "C09": [dict(topo="braess"), dict(topo="grid"), dict(topo="multiod"), dict()],
}
PROFILE["C19"] = [dict(stat=1, **x) for x in (dict(), dict(congest=2.5), dict(mids=["CTM"], congest=2.5), dict(mids=["LQ"], congest=2.5), dict(mids=["PQ"], congest=1.5), dict(topo="merge", congest=2.5))]
PROFILE["C20"] = [dict(tda=1, stat=1, **x) for x in (dict(congest=1.5), dict(congest=2.5), dict(mids=["CTM"], congest=2.5), dict(mids=["LQ"], congest=1.5), dict(topo="braess", congest=1.5), dict(topo="merge", congest=2.5), dict(topo="grid", mids=["CTM", "LQ"]))]
PROFILE["C20"] = [dict(PROFILE["C20"][i // 2]) if i % 2 == 0 else dict(tda=2, stat=1, mids=["CTM"] if i % 6 != 5 else ["LQ", "CTM"], topo=t) for i, t in zip(range(14), [None, "line", None, "merge", None, "line", None, "braess", None, "line", None, "diverge", None, "multiod"])]
FOCUS = {"C22": ["C22", "C01", "C02"], "C20": ["C01", "C04", "C05", "C06", "C07", "C08", "C19"]}
PROFILE["C22"] = [dict(track=1, **x) for x in (dict(), dict(congest=2.5), dict(mids=["CTM"], congest=1.5), dict(topo="multiod"), dict(topo="grid"), dict(mids=["LQ", "CTM"]), dict(topo="braess", congest=1.5))]
PROFILE["C12"] = PROFILE["C09"] + [dict(afrq=1, congest=1.5)]
ROUTE = {"C12": ["Fixed", "Fixed", "Hybrid"], "C08": ["Adaptive", "Hybrid", "Fixed"], "C09": ["Fixed", "Fixed", "Hybrid"]}
SIZE = {"quick": (180, 84), "thorough": (600, 240)}

def plan(prop, tier):
    rng = random.Random("%s/%d" % (prop, SEED))
    nsc, nmc = SIZE[tier]
    if prop == "C12": nsc, nmc = nsc // 2, nmc // 2     # also judged by pycheck
    if prop == "C20": nsc, nmc = 0, nmc     # single-class networks have no such attributes
    if prop == "C22": nsc, nmc = 0, nmc     # tracking is a car/truck feature
    prof = PROFILE.get(prop, [dict()])
    out = []
    for i in range(nsc + nmc):
        mc = i >= nsc
        kw = dict(prof[i % len(prof)])
        if i % 7 in (3, 6): kw = {k: v for k, v in kw.items() if k in ("stat", "tda", "track")}
        if not mc and prop in ROUTE and i % 4 != 3:
            kw["routing"] = ROUTE[prop][i % len(ROUTE[prop])]
        if not mc and kw.get("tdr"): kw["routing"] = "Hybrid"
        if mc:
            kw["minutes"] = rng.choice([2, 2, 3, 3, 15])
            if i % 5 == 2 and prop != "C12": kw["mcr"] = 1
            if i % 12 == 7 and prop in ("C02", "C08", "C09"): kw.update(minutes=15, nint=4, congest=.5)     # a long day
        out.append((mc, rng.randrange(10 ** 6), kw))
    return out

def run_one(exe, s, folder, timeout=60):
    """Run the real loading; returns (trace file, problem or None)."""
    os.makedirs(folder, exist_ok=True)
    s.write(folder)
    raw, tr = os.path.join(folder, "raw"), os.path.join(folder, "trace.ndjson")
    prob = None
    try:
        r = subprocess.run(["bash", "-c", 'ulimit -c 0; ulimit -f 400000; exec "$@"', "x", exe, "mc" if s.mc else "sc", folder, raw,
                            str(s.rseed), str(s.rmode)] + (["stat"] if s.stat else []) + (["track=%.3f,%d" % (s.track["rate"] / 1000, s.track["frq"])] if s.track else []), capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0: prob = "loading ended with status %d: %s" % (r.returncode, r.stderr[-300:])
    except subprocess.TimeoutExpired:
        prob = "loading did not end within %d s" % timeout
    h = s.header(); h["ph"] = "hdr"
    body = open(raw, errors="replace").read() if os.path.exists(raw) else ""
    lines = body.splitlines()
    if prob is None and not lines: prob = "no trace"
    if prob is None:
        last = json.loads(lines[-1])
        if last.get("ph") == "throw": prob = "loading failed: %s" % last.get("what")
    if prob is None and s.stat: body += json.dumps(record_files(folder)) + "\n"
    if prob is None and s.track: body, prob = with_report(os.path.join(folder, "record", "vehicle_route_cong_raw.txt"), lines)
    with open(tr, "w") as f:
        f.write(json.dumps(h) + "\n" + body)
    if os.path.exists(raw): os.remove(raw)
    return tr, prob, len(lines)

BUDGET = {"quick": 300000, "thorough": 2000000}      # events validated; the unchanged tree stays far below
LONGEST = {"quick": 6400, "thorough": 24000}
def cut(runs, budget, longest):
    """Loadings that a defect makes very long must not use up the time: the
    longest traces are shortened until all together fit the budget."""
    ns = sorted(n for _, prob, n in runs if not prob)
    if sum(ns) <= budget and (not ns or ns[-1] <= longest): return None
    lim = 400
    while sum(min(n, lim * 5 // 4) for n in ns) <= budget and lim * 5 // 4 < longest: lim = lim * 5 // 4
    for tr, prob, n in runs:
        if not prob: shorten(tr, lim)
    return lim
def shorten(tr, lim):
    lines = open(tr).read().splitlines()
    if len(lines) > lim + 3:
        with open(tr, "w") as f: f.write("\n".join(lines[:lim] + ['{"ph": "cut"}']) + "\n")

TYPES = {"habitual": 0, "adaptive": 1}
def with_report(path, lines):
    """The recorded events, those of phase "lk" with the rows the report of
    tracked vehicles has for their interval."""
    if not os.path.exists(path): return "", "no report of tracked vehicles was written"
    rows = {}
    txt = open(path, errors="replace").read().splitlines()
    want = "timestamp(intervals) vehicle_ID routing_type departure_interval origin_ID origin_node_ID destination_ID destination_node_ID current_link next_link position"
    if not txt or txt[0].split() != want.split(): return "", "the report of tracked vehicles does not start with its column names: %r" % txt[:1]
    for x in txt[1:]:
        w = x.split()
        try:
            if len(w) != 11: raise ValueError
            rows.setdefault(int(w[0]), []).append([int(w[1]), TYPES[w[2]]] + [int(y) for y in w[3:10]] + [max(-1, min(10 ** 9, round(float(w[10]) * 10 ** 6)))])
        except (ValueError, KeyError, OverflowError):
            return "", "the report of tracked vehicles has the row %r" % x
    out = []
    for x in lines:
        if '"ph":"lk"' in x.replace(" ", "")[:40]:
            e = json.loads(x)
            e["tk"] = rows.pop(e["t"], [])
            x = json.dumps(e)
        out.append(x)
    if rows: return "", "the report of tracked vehicles names the intervals %s, which were not loaded" % sorted(rows)[:5]
    return "\n".join(out) + "\n", None

def record_files(folder):
    """The record files the loading wrote, numbers in 1/1000."""
    fs = []
    def num(x):
        v = float(x) * 1000
        return -1 if v != v else int(max(-2147483647, min(2147483647, round(v))))
    d = os.path.join(folder, "record")
    for n in sorted(os.listdir(d)):
        rows = [l.split() for l in open(os.path.join(d, n))]
        if not n.startswith("MNM_output_") or not rows: continue
        fs.append(dict(name=n[len("MNM_output_"):], ids=[int(x) for x in rows[0][1:]],
                       rows=[[int(r[0])] + [num(x) for x in r[1:]] for r in rows[1:]]))
    return dict(ph="files", fs=fs)

def describe(mc, seed, kw, s):
    return dict(kind="car/truck" if mc else "single class", seed=seed, options=kw, topology=s.topo,
                links={l["id"]: l["typ"] for l in s.links.values()}, routing=s.routing, unit_time=s.U, flow_scalar=s.S,
                od_pairs=len(s.demand), paths=len(s.paths))

def check(res, prop, tier, focus=None, plan_=None, module="TraceDnl"):
    focus = focus or FOCUS.get(prop)
    exe = build.build("dnl")
    pl = plan_ or plan(prop, tier)
    scens = [scen.gen(seed, mc=mc, **kw) for mc, seed, kw in pl]
    hung = []
    def go(i):
        if len(hung) >= 4: return None
        r = run_one(exe, scens[i], os.path.join(res.work, "s%d" % i))
        if r[1] and "did not end" in r[1]: hung.append(i)
        return r
    with cf.ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(go, range(len(pl))))
    runs = [r or ("", "not run: other loadings do not end", 0) for r in runs]
    lim = cut(runs, BUDGET[tier], LONGEST[tier])
    bad = {}
    files = {}
    for i, (tr, prob, n) in enumerate(runs):
        if prob and prob.startswith("not run"): continue
        if prob: bad[i] = prob
        else: files[tr] = i
        res.extra["recorded_events"] = res.extra.get("recorded_events", 0) + n
    rej, err, (g, d) = tlcrun.validate_all(module, list(files), focus or [prop], os.path.join(res.work, "tlc"))
    res.transitions += g; res.states += d
    res.traces += len(files) - len(err)
    for p, v in rej.items(): bad[files[p]] = v
    for p, v in err.items(): bad[files[p]] = "the trace cannot be evaluated: " + v[-1200:]
    for i in range(0, len(pl), max(1, len(pl) // 4)):
        res.samples.append(describe(*pl[i], scens[i]))
    # report only what repeats on a fresh run
    for i in sorted(bad)[:4]:
        folder = os.path.join(res.work, "again%d" % i)
        tr, prob, n = run_one(exe, scens[i], folder)
        what = None
        if prob:
            what = prob
        else:
            if lim: shorten(tr, lim)
            r2, e2, _ = tlcrun.validate_all(module, [tr], focus or [prop], os.path.join(folder, "tlc"), jobs=1)
            if r2: what = "; ".join("event %d: %s" % x for x in r2[tr][:6])
            elif e2: what = "the trace cannot be evaluated: " + e2[tr][-1200:]
        if what is None:
            raise tlcrun.ToolError("rejection not repeated: %r" % (bad[i],))
        res.violation(what, dict(scenario=describe(*pl[i], scens[i]), generator=dict(mc=pl[i][0], seed=pl[i][1], options=pl[i][2]), header=scens[i].header(), first=str(bad[i])[:3000]))
    if len(bad) > 4: res.extra["further_rejections"] = len(bad) - 4
