"""Runs inside the project's Python with the freshly built extension: answers
of the Python interface on cases read from a JSON-lines file.
usage: pyapi.py EXTDIR KIND CASES OUT SCRATCH"""
import json, os, sys
ext, kind, cases, out, scratch = sys.argv[1:6]
sys.dont_write_bytecode = True
sys.path[:0] = [ext, os.environ.get("VERIF_REPO", "/repo")]
import numpy as np
import _macposts_ext
assert os.path.dirname(os.path.abspath(_macposts_ext.__file__)) == os.path.abspath(ext)
import macposts
from macposts.graph import Direction, Graph

INF = float("inf")
def q(v): return INF if v < 0 else v / 4.0
def uq(x):
    if x == INF: return -1
    y = x * 4
    return int(y) if y == int(y) and abs(y) < 1e8 else -7

def tdsp(c, i):
    d = os.path.join(scratch, "t%d" % i); os.makedirs(d, exist_ok=True)
    n, m, M = c["n"], len(c["l"]), c["M"]
    nid, lid = c["nid"], c["lid"]
    with open(d + "/config.conf", "w") as f:
        f.write("[Network]\nnetwork_name = g\nnum_of_link = %d\n" % m)
    with open(d + "/g", "w") as f:
        f.write("# id from to\n")
        for k, (a, b) in enumerate(c["l"]): f.write("%d %d %d\n" % (lid[k], nid[a - 1], nid[b - 1]))
    t = macposts.Tdsp()
    t.initialize(d, M, m, -1)
    tab = lambda x: np.array([[lid[k]] + [q(v) for v in x[k]] for k in c["order"]], dtype=float)
    if c["txt"]:
        for nm, x in (("td_link_tt", c["t"]), ("td_link_cost", c["c"])):
            with open(d + "/" + nm, "w") as f:
                f.write("head\n")
                for row in tab(x): f.write(" ".join([str(int(row[0]))] + ["%g" % v for v in row[1:]]) + "\n")
        t.read_td_cost_txt(d, "td_link_tt", "td_node_tt", "td_link_cost", "td_node_cost")
    else:
        e = np.zeros((0, M + 3))
        t.read_td_cost_py(laid(tab(c["t"]), i % 4), laid(tab(c["c"]), i // 4 % 4), e, e)
    if c.get("predest"): t.build_tdsp_tree(nid[c["predest"] - 1])   # a tree for another destination first
    t.build_tdsp_tree(nid[c["d"] - 1])
    got = []
    pos = {x: k + 1 for k, x in enumerate(lid)}; npos = {x: k + 1 for k, x in enumerate(nid)}
    for v, tm in c["ask"]:
        r = t.extract_tdsp(nid[v - 1], tm - 1)
        got.append(dict(v=v, t=tm, cost=uq(r[0, 2]), tt=uq(r[0, 3]),
                        rows=[[npos.get(int(x[0]), -5), pos.get(int(x[1]), 0)] for x in r]))
    return dict(ph="pytdsp", n=n, l=c["l"], M=M, d=c["d"], c=c["c"], t=c["t"], get=got)

def graph(c, i):
    g = Graph(); ops = []
    for o in c["ops"]:
        try:
            if o[0] == 1: g.add_node(o[1]); r = o[1]
            elif o[0] == 2: g.add_link(o[2], o[3], o[1]); r = o[1]
            elif o[0] == 3: r = g.get_id(g.get_node(o[1]))
            elif o[0] == 4: r = g.get_id(g.get_link(o[1]))
            else: g.get_endpoints(o[1]); r = o[1]
        except (RuntimeError, IndexError):
            r = -99
        I, O = Direction.Incoming, Direction.Outgoing
        ops.append(dict(o=o, r=r, sn=g.size_nodes, sl=g.size_links, N=g.nodes(), L=g.links(),
            E=[[x] + list(g.get_endpoints(x)) for x in g.links()],
            A=[[x, g.neighbors(x, I), g.neighbors(x, O), g.connections(x, I), g.connections(x, O)] for x in g.nodes()]))
    return dict(ph="pygraph", ops=ops)


# ---- loadings through the Python classes ---------------------------------
_tap = None
def tap(d, mc):
    global _tap
    if _tap is None:
        import importlib.machinery, importlib.util
        ld = importlib.machinery.ExtensionFileLoader("_verif_tap", _macposts_ext.__file__)
        _tap = importlib.util.module_from_spec(importlib.util.spec_from_loader("_verif_tap", ld))
    return (_tap.mcdta if mc else _tap.dta)(d)

def whole(y, eps=1e-6):
    r = round(y) if y == y and abs(y) < 2e9 else None
    return r if r is not None and abs(y - r) <= eps else -7
def ms(x):
    if x == INF: return -1
    return round(x * 1000) if x == x and abs(x) < 2e6 else -7

def laid(x, how):
    """The same numbers, laid out in memory in another way."""
    x = np.asarray(x)
    if how == 0: return x
    if how == 1: return np.asfortranarray(x.astype(np.int32) if x.dtype.kind == "i" else x)
    if x.dtype.kind == "i": x = x.astype(np.int32)
    if how == 2:                                  # every other element of a wider array
        w = np.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), 12345, dtype=x.dtype)
        w[..., ::2][..., :x.shape[-1]] = x
        return w[..., ::2][..., :x.shape[-1]]
    return np.ascontiguousarray(x[..., ::-1])[..., ::-1]   # a reversed view

def refused(f, *a):
    try: f(*a)
    except (RuntimeError, ValueError): return 1
    return 0

def load(c, i):
    import random
    rng = random.Random(c["rs"])
    mc = c["mc"]
    macposts.set_random_state(c["seed"])
    d = (macposts.Mcdta if mc else macposts.Dta).from_files(c["folder"])
    d.register_links(c["reg"] and laid(c["reg"], rng.randrange(4)))
    fixed = c["npath"] > 0
    if fixed: d.register_paths(laid(np.array(c["preg"], dtype=int), rng.randrange(4)))
    d.install_cc()
    d.install_cc_tree()
    d.run_whole()
    t = tap(d, mc)
    U, S, end = int(t["U"]), int(t["S"]), t["end"]
    N = lambda x: whole(x * S)
    rec = lambda cv: [[whole(a), N(b)] for a, b in cv]
    K = [dict(id=k["id"], c=k["c"], ff=whole(k["ff"]), lim=ms(20 * k["len"] / k["ffs"]), mph=round(k["len"] * 900 / U),
              toll=whole(k["toll"] * 100, 1e-4), i=rec(k["i"]), o=rec(k["o"]),
              w=[ms(k["wait"][0]), ms(k["wait"][1])] if mc else [0, 0], sp=k.get("spill", 0)) for k in t["K"]]
    r = dict(ph="load", mc=mc, adapt=c["adapt"], oc=c["oc"], U=U, S=S, end=end, vot=c["vot"], K=K, reg=t["reg"], paths=[[p, ls] for p, ls in t["paths"]],
             tr=[[a, b, p, q, rec(cv)] for a, b, p, q, cv in t["tr"]],
             cur=d.get_cur_loading_interval(), all=[int(x) for x in d.links], areg=[int(x) for x in d.registered_links])
    reg = t["reg"]
    ids_ = [k["id"] for k in K if k["c"] == 0]
    cls = [("car", 0), ("truck", 1)] if mc else [("", 0)]
    st = sorted(rng.sample(range(end), min(end, 5)) + [0, end - 1])
    wins = []
    for _ in range(4):
        a = rng.randrange(end); b = rng.randint(a + 1, end); wins.append([a, b])
    wins.append([0, end])
    A = lambda xs: laid(xs, rng.randrange(4))
    ws, we = A([w[0] for w in wins]), A([w[1] for w in wins])
    g = lambda nm, k: getattr(d, nm % k)
    r["st"], r["wins"] = st, wins
    r["cc"], r["ccs"], r["inflow"], r["tt"], r["ttinf"], r["rob"] = [], [], [], [], [], []
    for nm, k in cls:
        P = (lambda s, nm=nm: getattr(d, s.replace("#", nm + "_")) if nm else getattr(d, s.replace("#", "")))
        for l in rng.sample(ids_, min(4, len(ids_))):
            r["cc"].append([l, k, rec(P("get_#link_in_cc")(l)), rec(P("get_#link_out_cc")(l))])
        for io, f in ((0, P("get_#in_ccs")), (1, P("get_#out_ccs"))):
            sub = None if rng.random() < .5 else rng.sample(ids_, rng.randint(1, min(3, len(ids_))))
            how = rng.randrange(4)
            if sub is not None and how == 1: sub = sub[:1]
            m = f(sub if sub is None or how > 2 else np.array(sub) if how == 0 else sub[0] if how == 1 else iter(sub))
            cols = reg if sub is None else sub
            if m.shape != (end + 1, len(cols)): r["ccs"].append([-1, k, io, [int(x) for x in m.shape]]); continue
            for j in rng.sample(range(len(cols)), min(2, len(cols))):
                r["ccs"].append([cols[j], k, io, [N(x) for x in m[:, j]]])
        m = (getattr(d, "get_link_%s_inflow" % nm) if mc else d.get_link_inflow)(ws, we)
        r["inflow"].append([k, [[N(x) for x in row] for row in m]])
        for key, inf in (("tt", False), ("ttinf", True)):
            m = P("get_#link_tt")(A(st), inf)
            r[key].append([k, [[ms(x) for x in row] for row in m]])
        rw = []
        for _ in range(2):
            w = rng.choice([1, 2, 4, 6, 8, 12]); a = rng.randrange(max(1, end - w)); w = min(w, end - a)
            n = rng.choice([x for x in (1, 2, 3, 4, 6, 8, 12, 180) if (4 * w) % min(w, x) == 0])
            inf = rng.random() < .5
            m = P("get_#link_tt_robust")(A([float(a)]), A([float(a + w)]), n, inf)
            rw.append([a, w, n, 1 if inf else 0, [ms(x[0]) for x in m]])
        r["rob"].append([k, rw])
    E = [refused(d.get_link_car_inflow if mc else d.get_link_inflow, *w) for w in
         ((A([3]), A([3])), (A([end]), A([end + 1])), (A([0]), A([end + 1])), (A([0, 1]), A([2])))]
    f = d.get_car_link_tt if mc else d.get_link_tt
    E += [refused(f, A([end]), False)]
    f = d.get_truck_link_tt_robust if mc else d.get_link_tt_robust
    E += [refused(f, A([1.]), A([1.]), 5, False), refused(f, A([0.]), A([end + 1.]), 5, False)]
    f = d.get_car_dar_matrix if mc else d.get_dar_matrix
    E += [refused(f, A([2]), A([1])), refused(f, A([end]), A([end + 2])), refused(f, A([0]), A([end + 1])),
          refused(d.register_links, A([reg[0], reg[0]])) if c["dupl"] else 1]
    if c["dupl"]: d.register_links(A(reg))
    r["refused"] = E
    # vehicle totals
    s = d.get_travel_stats()
    if mc: r["stats"] = [N(s[0]), N(s[1]), whole(s[2] * S * 3600 / U, 1e-3), whole(s[3] * S * 3600 / U, 1e-3)]
    else: r["stats"] = [N(s[0]), whole(s[1] * S * 3600 / U, 1e-3), N(s[2]), N(s[3])]
    r["veh"], r["fin"], r["enr"], r["tot"] = [list(x) for x in t["veh"]], t["fin"], t["enr"], whole(t["tot"], 1e-3)
    r["fmc"] = [t["fmc"][0], t["fmc"][1], whole(t["fmc"][2], 1e-3), whole(t["fmc"][3], 1e-3)] if mc else []
    if mc:
        sub = rng.sample(ids_, min(3, len(ids_)))
        r["sub"] = sub
        r["fftt"] = [[ms(x) for x in d.get_car_link_fftt(A(sub))], [ms(x) for x in d.get_truck_link_fftt(A(sub))]]
        r["speed"] = [[[round(float(x) * 100) for x in row] for row in f(A(st))] for f in (d.get_car_link_speed, d.get_truck_link_speed)]
        r["wait"] = [[ms(float(x)) for x in f()] for f in (d.get_waiting_time_at_intersections, d.get_waiting_time_at_intersections_car, d.get_waiting_time_at_intersections_truck)]
        r["spill"] = [int(x) for x in d.get_link_spillback()]
        r["agg"] = [[N(x) for x in row] for row in d.get_enroute_and_queue_veh_stats_agg()]
        r["en"], r["qn"], r["qm"] = t["en"], t["qn"], [[a, b] for a, b in t["qm"] if a in sub]
        r["queue"] = [[N(x) for x in row] for row in d.get_queue_veh_each_link(A(sub), A(st))]
        r["outnum"] = [[l, k, q, N(f(l, q / 4.0))] for l in sub for k, f in ((0, d.get_car_link_out_num), (1, d.get_truck_link_out_num))
                       for q in [rng.randrange(4 * end) for _ in range(2)]]
        r["avg"] = [[ms(x) for x in f(A(sub), A([float(x) for x in st]))] for f in (d.get_avg_link_on_path_tt_car, d.get_avg_link_on_path_tt_truck)]
    # paths
    r["ptt"], r["rptt"] = [], []
    if c["costmap"]:
        d.build_link_cost_map(rng.random() < .5)
        for nm, k in (("_car", 0), ("_truck", 1)) if mc else (("", 0),):
            for ls in [p[1] for p in r["paths"]][:3]:
                m = getattr(d, "get_path_tt" + nm)(A(ls), A(st))
                r["ptt"].append([k, ls, [ms(x) for x in m[0]], [round(float(x) * 14400) for x in m[1]]])
            m = getattr(d, "get_registered_path_tt" + nm)(A(st))
            r["rptt"].append([k, [[ms(x) for x in row] for row in m]])
    r["cover"] = [int(x) for x in d.are_registered_links_in_registered_paths()] if fixed else []
    r["cov"] = [[int(x) for x in row] for row in d.get_registered_links_coverage_in_registered_paths()] if fixed and mc else []
    # assignment ratios
    r["dar"], r["cdar"], r["sdar"] = [], [], []
    # windows of the complete matrix follow each other
    cut = sorted(set([0, end] + [rng.randrange(end) for _ in range(2)]))
    cw = [[a, b] for a, b in zip(cut, cut[1:])]
    nint = max(len(cw), max([x[3] for x in r["tr"]] + [0]) + 1)
    r["cw"], r["nint"] = cw, nint
    ps, pe = A([w[0] for w in cw]), A([w[1] for w in cw])
    np_ = len(r["paths"])
    fl = laid([(1 + j % 5) / 2.0 for j in range(max(1, nint * np_))], rng.randrange(4))
    ordered = [p[0] for p in r["paths"]] == list(range(c["npath"]))
    if fixed:
        for nm, k in cls:
            P = (lambda s, nm=nm: getattr(d, s % (nm + "_" if nm else "")))
            m = P("get_%sdar_matrix")(ws, we)
            r["dar"].append([k, [[whole(x[0]), whole(x[1]), whole(x[2]), whole(x[3]), N(x[4])] for x in m]])
            if not mc or ordered:
                try: m = P("get_complete_%sdar_matrix")(ps, pe, nint, fl).tocoo()
                except MemoryError: m = None
                if m is not None:
                    ok = m.shape == (nint * len(reg), nint * np_)
                    r["cdar"].append([k, 1 if ok else 0, [[int(a), int(b), N(v * fl[b])] for a, b, v in zip(m.row, m.col, m.data) if v != 0]])
            if ordered:
                fn = os.path.join(c["folder"], "dar_%d" % k)
                P("save_%sdar_matrix")(ps, pe, fl, fn)
                rows = [l.split(",") for l in open(fn).read().split("\n") if l]
                r["sdar"].append([k, [[int(a), int(b), whole(float(v) * fl[int(b)] * S, 1e-3)] for a, b, v in rows]])
    return r

def same(c, i):
    """The same loading several times: in a fresh process, after other
    loadings, with other links and paths registered, with recycled memory."""
    import random
    rng = random.Random(c["rs"] + c["noise"])
    how = os.environ.get("VERIF_HOW", "")
    keep = []
    def once(folder, mc, seed, reg, tree, what):
        macposts.set_random_state(seed)
        d = (macposts.Mcdta if mc else macposts.Dta).from_files(folder)
        d.register_links(reg)
        d.install_cc()
        if tree: d.install_cc_tree()
        d.run_whole()
        t = tap(d, mc)
        S, U = int(t["S"]), t["U"]
        rec = lambda cv: [[whole(a), whole(b * S)] for a, b in cv]
        r = dict(how=how + ", " + what, end=t["end"], en=list(t["en"]),
                 stats=[t["fin"], t["enr"], whole(t["tot"], 1e-3), [list(x) for x in sorted(t["veh"])]],
                 cc=[[k["id"] * 2 + k["c"], rec(k["i"]), rec(k["o"])] for k in t["K"] if k["i"]])
        keep.append(d if rng.random() < .5 else None)
        keep.extend([bytearray(rng.randrange(16, 4000)) for _ in range(200)])
        if rng.random() < .7: del keep[:rng.randrange(len(keep))]
        return r
    runs = []
    if not c["noise"]:
        runs.append(once(c["folder"], c["mc"], c["seed"], None, False, "first"))
        for o in c["other"]: once(o["folder"], o["mc"], c["seed"] + 1, None, True, "")
        runs.append(once(c["folder"], c["mc"], c["seed"], c["reg"], True, "after other loadings"))
        runs.append(once(c["folder"], c["mc"], c["seed"], None, False, "again"))
    else:
        keep.extend([bytearray(rng.randrange(16, 4000)) for _ in range(2000)])
        del keep[::2]
        once(c["other"][0]["folder"], c["other"][0]["mc"], 5, None, False, "")
        runs.append(once(c["folder"], c["mc"], c["seed"], c["reg"], False, "second"))
        runs.append(once(c["folder"], c["mc"], c["seed"], None, True, "third"))
    return dict(ph="same", runs=runs)

class Boom(Exception): pass
LEAVE = [Boom, KeyboardInterrupt, Boom, SystemExit, GeneratorExit, StopIteration]
def silence(c, i):
    """Runs nested with-blocks as the history says, on two scratch files."""
    from macposts.utils import silence as quiet
    os.makedirs(scratch, exist_ok=True)
    names = [os.path.join(scratch, "f%d" % k) for k in (0, 1)]
    fds = [os.open(n, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600) for n in names]
    dead = os.dup(fds[0]); os.close(dead)
    std = i % 3 == 0        # the first file is standard output
    if std:
        sys.stdout.flush()
        keep = os.dup(1); os.dup2(fds[0], 1); os.close(fds[0]); fds[0] = 1
    open_ = lambda: sorted(int(x) for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x))
    before = open_()
    stat = [os.fstat(f)[:3] for f in fds]
    todo, log, tok = list(c["ops"]), [], [1]
    def now(o, seen):
        log.append([o, seen] + [[int(x) for x in open(n).read().split()] for n in names])
    def level():
        while todo:
            o = todo.pop(0)
            if o[0] == 2:
                os.write(fds[o[1] - 1], b"%d\n" % tok[0]); tok[0] += 1; now(o, 0)
            elif o[0] == 1:
                out, seen = [o], 0
                kind = LEAVE[(i + len(log)) % len(LEAVE)]
                boom = kind()
                try:
                    with quiet(1000 + dead) if o[1] < 0 else quiet() if fds[o[1] - 1] == 1 else quiet(fds[o[1] - 1]):
                        now(o, 0)
                        out = level()
                        if out and out[0] == 4: raise boom
                except BaseException as e:
                    if e is not boom: raise
                    seen = 1
                if out: now(out, seen)
            else: return o
        return []
    level()
    after = open_()
    r = dict(ph="silence", ops=log, leak=len(after) - len(before), same=1 if stat == [os.fstat(f)[:3] for f in fds] else 0)
    if std: os.dup2(keep, 1); os.close(keep)
    for f in fds:
        if f != 1: os.close(f)
    return r

def due(c, i):
    rec = os.path.join(c["folder"], "record")
    d = macposts.Dta()
    (d.run_dso if c["kind"] == "dso" else d.run_due)(c["iters"], c["folder"], False, c["method"] == "DTC", "MSA" if c["method"] == "DTC" else c["method"])
    rows = lambda n: [[float(x) for x in l.split()] for l in open(os.path.join(rec, n))]
    fx = lambda x, k: int(round(x * k)) if abs(x * k) < 2e9 else 2000000000
    names = ["path_table", "path_table_buffer", "path_table_time", "path_table_disutility"]
    g, t, b, tm, du = [rows(n) for n in ["gap_iteration"] + names]
    ok = len({len(t), len(b), len(tm), len(du)}) == 1 and all(len(x) == 2 for x in g)
    gs = 1000 if c["method"] == "DTC" else 1e5
    nan = any(x != x for x in g for x in x)
    return dict(ph="py", ok=1 if ok and not nan else 0, gap=[[fx(x[0], gs), fx(x[1], 10)] for x in g] if ok and not nan else [],
                p=[dict(n=[int(v) for v in n], f=[fx(v, 1000) for v in f], tt=[fx(v, 100) for v in m], du=[fx(v, 1e5) for v in u]) for n, f, m, u in zip(t, b, tm, du)] if ok else [])

def paths(c, i):
    ev = []
    for j in c["jobs"]:
        fo = j["folder"]
        rows = lambda n, k: [[int(round(float(x) * k)) for x in l.split()] for l in open(os.path.join(fo, n))]
        macposts.set_random_state(j.get("seed", 1))
        d = (macposts.Mcdta if c["mc"] else macposts.Dta).from_files(fo)
        if j["op"] == "build":
            d.generate_shortest_pathsets(fo, j["k"], float(j["vot"]), float(j["mid"]), float(j["heavy"]), float(j["minlen"]))
            ev.append(dict(ph="build", k=j["k"], rows=rows("path_table", 1), buf=rows("path_table_buffer", 1e6)))
        elif j["op"] == "cover":
            d.register_links(np.array(j["links"], dtype=int))
            if j["preg"]: d.register_paths(np.array(j["preg"], dtype=int))
            cov = lambda: [int(x) for x in d.are_registered_links_in_registered_paths()]
            e = dict(ph="cover", links=j["links"], preg=j["preg"], before=cov(), fail=0, res=[], rows=[], buf=[], after=[])
            try: e["res"] = [int(x) for x in d.generate_paths_to_cover_registered_links()]
            except RuntimeError: e["fail"] = 1
            else:
                if e["res"][0]: e.update(rows=rows("path_table", 1), buf=rows("path_table_buffer", 1e6))
                e["after"] = cov()
            ev.append(e)
        else:
            r = d.generate_paths_to_cover_links(laid(j["links"], j["seed"] % 4), j["rounds"])
            ev.append(dict(ph="through", links=j["links"], rounds=j["rounds"], res=[int(x) for x in r], rows=rows("path_table", 1), buf=rows("path_table_buffer", 1e6)))
    return dict(ph="paths", ev=ev)

KINDS = dict(paths=paths, due=due, silence=silence, load=load, same=same, tdsp=tdsp, graph=graph)
if __name__ == "__main__":
    null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1)
    with open(out, "w") as f:
        for i, line in enumerate(open(cases)):
            try: r = KINDS[kind](json.loads(line), i)
            except BaseException as e: r = dict(ph="throw", what=repr(e))
            f.write(json.dumps(r) + "\n"); f.flush()
    os._exit(0)
