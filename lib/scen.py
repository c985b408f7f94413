"""Scenario generator: network folders for the real code + the same facts, as
integers, for the TLA+ specification.

Every quantity is chosen as an integer in units for which the specification is
exact: length in 1/100 mile, speed in mph, capacity in veh/h/lane, jam density
in veh/mile/lane, demand in 1/1000 vehicle.
"""
import json, os, random

BIG = 99999

class Scenario:
    def __init__(self, name, mc=False):
        self.name = name
        self.mc = mc
        self.U = 5; self.S = 1
        self.nodes = {}          # id -> type (ORG DST FWJ GRJ)
        self.nconv = {}          # id -> node conversion factor (x100), mc
        self.links = {}          # id -> dict
        self.origins = {}        # origin id -> node
        self.dests = {}          # dest id -> node
        self.demand = {}         # (oid,did) -> [milli veh] ; mc: (car,truck)
        self.paths = []          # list of dict(o,d,nodes,links,buf=[..])
        self.assign_frq = 12; self.max_interval = 2; self.total_interval = -1
        self.start = 0
        self.routing = "Fixed"
        self.ad = 500            # adaptive ratio, 1/1000
        self.adc = 500; self.adt = 500
        self.split = 0
        self.route_frq = 12; self.ad_frq = 12
        self.vot = None          # usd per hour
        self.tolls = {}          # link -> (car, truck) in cents
        self.tdratio = {}        # (oid,did) -> [1/1000] ; mc (car,truck)
        self.rec_n = 6
        self.labels = None       # {oid: [pct...]}, same number of labels each
        self.tdattr = []
        self.labels_t = None
        self.emis = []
        self.evl = (-2, -2)      # labels of electric vehicles (car, truck)
        self.track = None        # vehicle tracking
        self.stat = False        # record files and per-class statistics
        self.rseed = 1; self.rmode = 0
        self.due = None          # equilibrium: vot early late (per hour), target (min), lam (1/1000)

    # ---------------------------------------------------------- building --
    def link(self, lid, typ, a, b, L=50, F=30, cap=1800, rho=150, lanes=1,
             Ft=None, capt=None, rhot=None, conv=175):
        self.links[lid] = dict(id=lid, typ=typ, frm=a, to=b, L=L, F=F, cap=cap,
            rho=rho, lanes=lanes, Ft=Ft if Ft is not None else F,
            capt=capt if capt is not None else cap,
            rhot=rhot if rhot is not None else rho, conv=conv)
    def conn(self, lid, a, b, L=100, F=BIG, cap=BIG):
        self.link(lid, "PQ", a, b, L=L, F=F, cap=cap, rho=BIG)

    def inlinks(self, n):
        return [l["id"] for l in self.links.values() if l["to"] == n]
    def outlinks(self, n):
        return [l["id"] for l in self.links.values() if l["frm"] == n]

    def simple_paths(self, on, dn, limit=6, maxlen=10):
        res = []
        def dfs(n, ns, ls):
            if len(res) >= limit * 4: return
            if n == dn:
                res.append((ns, ls)); return
            if len(ls) >= maxlen: return
            seen = set()
            for l in sorted(self.outlinks(n)):
                m = self.links[l]["to"]
                if m in ns or m in seen: continue
                seen.add(m)
                dfs(m, ns + [m], ls + [l])
        dfs(on, [on], [])
        return res

    # ------------------------------------------------------------ output --
    def config(self):
        c = ["[DTA]", "network_name = Snap_graph", "unit_time = %d" % self.U,
             "total_interval = %d" % self.total_interval,
             "assign_frq = %d" % self.assign_frq,
             "start_assign_interval = %d" % self.start,
             "max_interval = %d" % self.max_interval,
             "flow_scalar = %d" % self.S,
             "num_of_link = %d" % len(self.links),
             "num_of_node = %d" % len(self.nodes),
             "num_of_O = %d" % len(self.origins),
             "num_of_D = %d" % len(self.dests),
             "OD_pair = %d" % len(self.demand),
             "adaptive_ratio = %s" % (self.ad / 1000),
             "adaptive_ratio_car = %s" % (self.adc / 1000),
             "adaptive_ratio_truck = %s" % (self.adt / 1000),
             "routing_type = %s" % self.routing,
             "init_demand_split = %d" % self.split]
        if self.tolls:
            c.append("num_of_tolled_link = %d" % len(self.tolls))
        if self.evl != (-2, -2):
            c += ["ev_label_car = %d" % self.evl[0], "ev_label_truck = %d" % self.evl[1]] if self.mc else ["ev_label = %d" % self.evl[0]]
        if self.labels:
            n = len(next(iter(self.labels.values())))
            c += ["num_of_vehicle_labels = %d" % n, "num_of_car_labels = %d" % n,
                  "num_of_truck_labels = %d" % len(next(iter((self.labels_t or self.labels).values())))]
        c += ["", "[STAT]", "rec_mode = LRn", "rec_mode_para = %d" % self.rec_n,
              "rec_folder = record", "rec_volume = 1", "volume_load_automatic_rec = %d" % self.stat,
              "volume_record_automatic_rec = %d" % self.stat, "rec_tt = 1",
              "tt_load_automatic_rec = %d" % self.stat, "tt_record_automatic_rec = %d" % self.stat, "",
              "[HYBRID]", "route_frq = %d" % self.route_frq, "", "[FIXED]",
              "path_file_name = path_table", "num_path = %d" % len(self.paths),
              "choice_portion = Buffer",
              "buffer_length = %d" % (self.max_interval * (2 if self.mc and self.routing == "Biclass_Hybrid" else 1)),
              "route_frq = %d" % self.route_frq, "", "[ADAPTIVE]",
              "route_frq = %d" % self.ad_frq]
        if self.vot is not None:
            c.append("vot = %d" % self.vot)
        if self.due:
            d = self.due
            c += ["", "[DUE]", "vot = %d" % d["vot"], "early_penalty = %d" % d["early"], "late_penalty = %d" % d["late"],
                  "target_time = %d" % d["target"], "lambda = %s" % (d["lam"] / 1000)]
        return "\n".join(c) + "\n"

    def write(self, folder):
        os.makedirs(os.path.join(folder, "record"), exist_ok=True)
        fmt = random.Random("fmt" + self.name)
        noisy = fmt.random() < .4
        def w(n, lines):
            if noisy: lines = noise(fmt, n, lines)
            with open(os.path.join(folder, n), "w") as f:
                f.write("\n".join(lines) + ("\n" if not noisy or fmt.random() < .7 else ""))
        with open(os.path.join(folder, "config.conf"), "w") as f:
            f.write(self.config())
        w("Snap_graph", ["%d %d %d" % (l["id"], l["frm"], l["to"]) for l in self.links.values()])
        ls = []
        for l in self.links.values():
            b = "%d %s %.2f %d %d %d %d" % (l["id"], l["typ"], l["L"] / 100, l["F"], l["cap"], l["rho"], l["lanes"])
            if self.mc:
                b += " %d %d %d %.2f" % (l["Ft"], l["capt"], l["rhot"], l["conv"] / 100)
            ls.append(b)
        w("MNM_input_link", ls)
        tn = {"ORG": "DMOND", "DST": "DMDND", "FWJ": "FWJ", "GRJ": "GRJ"}
        w("MNM_input_node", ["%d %s" % (n, tn[t]) + (" %.2f" % (self.nconv.get(n, 175) / 100) if self.mc else "")
                             for n, t in self.nodes.items()])
        w("MNM_input_od", ["# origins"] + ["%d %d" % x for x in self.origins.items()]
          + ["# destination"] + ["%d %d" % x for x in self.dests.items()])
        dl = []
        for (o, d), v in self.demand.items():
            vals = list(v[0]) + list(v[1]) if self.mc else list(v)
            dl.append("%d %d " % (o, d) + " ".join("%.3f" % (x / 1000) for x in vals))
        w("MNM_input_demand", dl)
        w("path_table", [" ".join(map(str, p["nodes"])) for p in self.paths])
        w("path_table_buffer", [" ".join("%s" % (b / 1000) for b in p["buf"]) for p in self.paths])
        if self.tolls:
            w("MNM_input_link_toll", ["#link_ID toll_car toll_truck"] +
              ["%d %.2f %.2f" % (l, a / 100, b / 100) if self.mc else "%d %.2f" % (l, a / 100)
               for l, (a, b) in self.tolls.items()])
        if self.tdratio:
            rows = ["#O D ratio"]
            for (o, d), v in self.tdratio.items():
                vals = list(v[0]) + list(v[1]) if self.mc else list(v)
                rows.append("%d %d " % (o, d) + " ".join("%.3f" % (x / 1000) for x in vals))
            w("MNM_input_od_td_adaptive_ratio", rows)
        if self.labels:
            rows = lambda lab: ["#origin labels"] + ["%d " % o + " ".join("%.2f" % (x / 100) for x in r) for o, r in lab.items()]
            w("MNM_input_origin_vehicle_label", rows(self.labels)); w("MNM_origin_label_car", rows(self.labels)); w("MNM_origin_label_truck", rows(self.labels_t or self.labels))
        if self.track and self.track["od"]:
            w("MNM_input_od_tracking", ["#origin_ID destination_ID"] + ["%d %d" % tuple(x) for x in self.track["od"]])
        if self.track and self.track["int"]:
            w("MNM_input_interval_tracking", ["#interval"] + [str(x) for x in self.track["int"]])
        if self.emis:
            w("MNM_input_emission_linkID", [str(x) for x in self.emis])
        if self.tdattr:
            w("MNM_input_link_td_attribute", self.tdattr_lines())

    def tdattr_lines(self):
        r = ["#interval link_ID type length ffs_car cap_car rhoj_car lanes ffs_truck cap_truck rhoj_truck conv toll"]
        for a in self.tdattr:
            r.append("%d %d %s %.2f %d %d %d %d %d %d %d %.2f %.2f" % (a["t"], a["id"], a["typ"], a["L"] / 100, a["F"], a["cap"], a["rho"],
                     a["lanes"], a["Ft"], a["capt"], a["rhot"], a["conv"] / 100, a["toll"] / 100))
        return r

    def header(self):
        """Constants for the specification."""
        lid = sorted(self.links)
        return dict(name=self.name, mc=1 if self.mc else 0, U=self.U, S=self.S,
            assign_frq=self.assign_frq, max_interval=self.max_interval,
            total_interval=self.total_interval, start=self.start,
            routing=self.routing, ad=self.ad, adc=self.adc, adt=self.adt,
            split=self.split, route_frq=self.route_frq, ad_frq=self.ad_frq,
            vot=self.vot if self.vot is not None else 20, rec_n=self.rec_n,
            links=[dict(self.links[i], toll=self.tolls.get(i, (0, 0))[0]) for i in lid],
            nodes=[dict(id=n, typ=t, conv=self.nconv.get(n, 175), ins=sorted(self.inlinks(n)), outs=sorted(self.outlinks(n)))
                   for n, t in sorted(self.nodes.items())],
            od=[dict(o=o, d=d, on=self.origins[o], dn=self.dests[d],
                     car=list(v[0]) if self.mc else list(v), truck=list(v[1]) if self.mc else [0] * self.max_interval,
                     tdc=list((self.tdratio.get((o, d)) or ([], []))[0]) if self.mc else list(self.tdratio.get((o, d)) or []),
                     tdt=list((self.tdratio.get((o, d)) or ([], []))[1]) if self.mc else [])
                for (o, d), v in self.demand.items()],
            paths=[dict(on=p["on"], dn=p["dn"], links=p["links"], buf=p["buf"]) for p in self.paths],
            nlabel=len(next(iter(self.labels.values()))) if self.labels else 0,
            labels=[dict(on=self.origins[o], r=r, rt=(self.labels_t or self.labels)[o]) for o, r in (self.labels or {}).items()],
            td=list(self.tdattr), track=self.track or NOTRACK, emis=list(self.emis), evl=list(self.evl), rmode=self.rmode)

NOTRACK = dict(rate=-1, frq=1, od=[], int=[])

# what the readers of the input files accept besides the rows themselves
SKIPS = {"Snap_graph", "MNM_input_link", "MNM_input_node", "MNM_input_od", "MNM_input_demand", "path_table"}
TRIMS = SKIPS | {"path_table_buffer", "MNM_input_od_td_adaptive_ratio"}
def noise(rng, name, lines):
    out = []
    for x in lines:
        if name in SKIPS and rng.random() < .2:
            out.append(rng.choice(["", "   ", "# a comment", "  # 1 2 3", "#", "\t", "#7 DMOND 3 4 5 6 7 8 9 10 11"]))
        if name == "path_table_buffer" and rng.random() < .15: out.append("# 1 1 1 1")
        if rng.random() < .3 and not x.startswith("#"):
            x = " ".join(t + " " * rng.choice([0, 0, 1, 3]) for t in x.split(" "))
            x = rng.choice(["", " ", "   "]) + x + rng.choice(["", " ", "  ", "\r", " \r", "\t"] if name in TRIMS else ["", " "])
        out.append(x)
    if name in SKIPS and rng.random() < .3: out += ["", "# the end", "9 9 9"]
    return out

# --------------------------------------------------------------- random ----
def pick_len(rng, F, U, cells, frac=None):
    """Length (1/100 mile) giving `cells` whole cells and a clear remainder."""
    fu = F * U
    for _ in range(200):
        f = frac if frac is not None else rng.uniform(0.06, 0.94)
        L = int(round((cells + f) * fu / 36))
        if L < 1: continue
        r = (L * 36) % fu
        if r * 50 >= fu and (fu - r) * 50 >= fu:
            if (L * 36) // fu == cells or cells == 0:
                return L
        frac = None
    # give up on the exact number of cells
    for L in range(max(1, int(cells * fu / 36)), 10000):
        r = (L * 36) % fu
        if r * 50 >= fu and (fu - r) * 50 >= fu:
            return L
    raise AssertionError

def link_attr(rng, s, typ, cells=None):
    F = rng.choice([20, 25, 30, 35, 45, 60])
    cells = cells if cells is not None else rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    r2 = random.Random("%s/%d" % (s.name, len(s.links)))
    if r2.random() < .03: cells = r2.choice([8, 8, 12, 20, 55])     # a long link
    L = pick_len(rng, F, s.U, cells)
    lanes = rng.choice([1, 1, 1, 2, 3])
    cap = rng.choice([400, 600, 800, 1200, 1500, 1800, 2200])
    # jam density: wave slower and faster than free flow
    lo = cap // F + 2
    rho = rng.choice([max(lo + 3, r) for r in (40, 60, 90, 120, 150, 200)])
    if rng.random() < 0.08:
        rho = 350     # above the internal ceiling
    if rng.random() < 0.06 and typ == "CTM" and rho * F > 4200:
        cap = 4000
    d = dict(L=L, F=F, cap=cap, rho=rho, lanes=lanes)
    if s.mc:
        Ft = max(10, F - rng.choice([0, 5, 10]))
        d["Ft"] = Ft
        d["capt"] = int(cap * rng.choice([0.5, 0.6, 0.75]))
        d["rhot"] = max(int(rho * rng.choice([0.4, 0.5, 0.6])), d["capt"] // Ft + 3)
        d["conv"] = rng.choice([150, 175, 200, 250])
        # capacities below one vehicle per interval are raised to that; the jam
        # density has to stay above the critical one for both classes
        m = 3600 // (s.U * s.S * lanes) + 1
        d["rhot"] = max(d["rhot"], max(d["capt"], m) // Ft + 3)
        d["rho"] = max(d["rho"], max(cap, m) // F + 3)
    return d

TOPO = ["chain", "merge", "diverge", "x", "braess", "grid", "random", "random", "multiod", "cyc"]

def skeleton(rng, s, topo):
    """Nodes, links (without attributes), origins, destinations. Returns list of
    (lid, from, to, role) with role 'org' | 'mid' | 'dst'."""
    L = []; nid = [0]; lid = [0]
    def node(t):
        nid[0] += rng.choice([1, 1, 2, 3]); s.nodes[nid[0]] = t; return nid[0]
    def link(a, b, role):
        lid[0] += rng.choice([1, 1, 2, 5]); L.append((lid[0], a, b, role)); return lid[0]
    J = "FWJ"
    def org(to):
        n = node("ORG"); o = len(s.origins) + rng.choice([1, 1, 7])
        while o in s.origins: o += 1
        s.origins[o] = n
        for m in (to if isinstance(to, list) else [to]): link(n, m, "org")
    def dst(fr):
        n = node("DST"); d = len(s.dests) + rng.choice([1, 1, 4])
        while d in s.dests: d += 1
        s.dests[d] = n
        for m in (fr if isinstance(fr, list) else [fr]): link(m, n, "dst")
    if topo == "chain":
        ns = [node(J) for _ in range(rng.choice([2, 3, 4]))]
        org(ns[0])
        for a, b in zip(ns, ns[1:]): link(a, b, "mid")
        dst(ns[-1])
    elif topo == "merge":
        k = rng.choice([2, 3]); m = node(J); e = node(J)
        for _ in range(k):
            a = node(J); org(a); link(a, m, "mid")
        link(m, e, "mid"); dst(e)
    elif topo == "diverge":
        a = node(J); m = node(J); org(a); link(a, m, "mid")
        for _ in range(rng.choice([2, 3])):
            b = node(J); link(m, b, "mid"); dst(b)
    elif topo == "x":
        m = node(J); 
        for _ in range(2):
            a = node(J); org(a); link(a, m, "mid")
        for _ in range(2):
            b = node(J); link(m, b, "mid"); dst(b)
    elif topo == "braess":
        a, b, c, d = [node(J) for _ in range(4)]
        org(a); link(a, b, "mid"); link(a, c, "mid"); link(b, c, "mid"); link(b, d, "mid"); link(c, d, "mid"); dst(d)
    elif topo == "grid":
        g = [[node(J) for _ in range(3)] for _ in range(2)]
        for r in range(2):
            for c in range(3):
                if c < 2: link(g[r][c], g[r][c + 1], "mid")
                if r < 1: link(g[r][c], g[r + 1][c], "mid")
        org(g[0][0]); org(g[1][0]) if rng.random() < .6 else None
        dst(g[1][2]); dst(g[0][2]) if rng.random() < .6 else None
        # (0,2)->(1,2) exists; (1,0) cannot reach (0,2): add a street
        link(g[1][1], g[0][2], "mid")
    elif topo == "multiod":
        ns = [node(J) for _ in range(4)]
        link(ns[0], ns[1], "mid"); link(ns[1], ns[2], "mid"); link(ns[2], ns[3], "mid"); link(ns[0], ns[2], "mid"); link(ns[1], ns[3], "mid")
        org(ns[0]); org([ns[0], ns[1]]); dst(ns[3]); dst([ns[2], ns[3]])
    elif topo == "fan":
        a, b = node(J), node(J); org(a); link(a, b, "mid")
        if rng.random() < .5: org(a)
        for _ in range(rng.choice([5, 8, 11])): dst(b)
    elif topo == "cyc":
        a, b, c = [node(J) for _ in range(3)]
        link(a, b, "mid"); link(b, c, "mid"); link(c, a, "mid"); link(b, a, "mid")
        org(a); org(c); dst(b); dst(c)
    else:
        n = rng.choice([3, 4, 5]); ns = [node(J) for _ in range(n)]
        for i in range(n - 1): link(ns[i], ns[i + 1], "mid")
        for _ in range(rng.choice([1, 2, 4])):
            i, j = rng.sample(range(n), 2)
            if not any(x[1] == ns[i] and x[2] == ns[j] for x in L): link(ns[i], ns[j], "mid")
        org(ns[0])
        if rng.random() < .5: org(ns[rng.randrange(0, n - 1)])
        dst(ns[-1])
        if rng.random() < .5: dst(ns[-1])
    return L

def gen(seed, mc=False, topo=None, routing=None, mids=None, congest=None, small=False, **kw):
    rng = random.Random(seed * 7919 + (1 if mc else 0))
    s = Scenario("%s%d" % ("m" if mc else "s", seed), mc)
    s.U = rng.choice([5, 5, 6, 10]); s.S = rng.choice([1, 1, 2, 3, 5, 10])
    topo = topo or rng.choice(TOPO)
    s.topo = topo
    sk = skeleton(rng, s, topo)
    mids = mids or rng.choice([["CTM"], ["CTM"], ["LQ"], ["PQ"], ["CTM", "LQ"], ["CTM", "PQ", "LQ"]])
    for lid, a, b, role in sk:
        if role == "org":
            cap = rng.choice([BIG, BIG, 3600, 1800]) if s.S * s.U >= 10 else BIG
            if mc: cap = BIG
            s.conn(lid, a, b, L=rng.choice([100, 30]), F=rng.choice([BIG, 60, 30]), cap=cap)
            l = s.links[lid]
            if l["F"] != BIG: l["L"] = pick_len(rng, l["F"], s.U, rng.choice([1, 2, 3])); l["Ft"] = l["F"]
        elif role == "dst":
            t = "PQ"
            if not mc and rng.random() < 0.15: t = rng.choice(["LQ"])
            if t == "PQ":
                s.conn(lid, a, b, L=100, F=rng.choice([BIG, 45]), cap=BIG)
                l = s.links[lid]
                if l["F"] != BIG: l["L"] = pick_len(rng, l["F"], s.U, rng.choice([1, 2])); l["Ft"] = l["F"]
            else:
                s.link(lid, t, a, b, **link_attr(rng, s, t))
        else:
            t = rng.choice(mids)
            at = link_attr(rng, s, t)
            if t == "LQ" and at["lanes"] * at["cap"] * s.U * s.S < 3600 and rng.random() < .5:
                at["lanes"] = 3
            s.link(lid, t, a, b, **at)
            if t == "PQ":
                # a point queue admits int(supply): make that at least one vehicle
                l = s.links[lid]
                while l["lanes"] * l["cap"] * s.U * s.S < 3600 * 1.05: l["cap"] += 300
    if mc:
        for n in s.nodes: s.nconv[n] = rng.choice([100, 150, 175, 200])
    # time
    if mc:
        per = 60 // s.U
        nm = kw.get("minutes") or rng.choice([2, 3, 15] if not small else [2])
        s.assign_frq = per * nm
        s.max_interval = rng.choice([1, 2, 3]) if nm < 5 else rng.choice([1, 2])
        if kw.get("nint"): s.max_interval = kw["nint"]
        s.split = rng.choice([0, 0, 1])
        s.route_frq = s.assign_frq if rng.random() < .7 else per
        s.ad_frq = rng.choice([per, s.assign_frq, 5])
    else:
        s.assign_frq = kw.get("afrq") or rng.choice([4, 6, 10, 15])
        s.max_interval = rng.choice([1, 2, 3, 4]) if s.assign_frq > 2 else rng.choice([4, 6, 9])
        s.route_frq = s.assign_frq if rng.random() < .7 else rng.choice([3, 7])
        s.ad_frq = rng.choice([1, 5, s.assign_frq])
    s.rec_n = rng.choice([1, 3, 6, 12])
    # demand: relative to the capacity of a typical link
    mid = [l for l in s.links.values() if l["cap"] < BIG] or [dict(cap=1200, lanes=1)]
    c0 = sorted(l["cap"] * l["lanes"] for l in mid)[len(mid) // 2]
    level = congest if congest is not None else rng.choice([0.3, 0.8, 1.5, 2.5])
    od = []
    for o, on in s.origins.items():
        for d, dn in s.dests.items():
            if s.simple_paths(on, dn): od.append((o, d))
    # is_ok requires every origin to reach every destination
    if len(od) != len(s.origins) * len(s.dests):
        return gen(seed + 100003, mc, topo, routing, mids, congest, small, **kw)
    if len(od) > 1 and rng.random() < .3:
        keep = rng.sample(od, rng.randrange(1, len(od)))
        # every origin needs some demand entry
        od = [x for x in od if x in keep]
    hours = s.assign_frq * s.U / 3600
    for x in od:
        def row(f):
            r = []
            for i in range(s.max_interval):
                base = c0 * hours * level * f / max(1, len(od)) * rng.uniform(.4, 1.5)
                base = min(base, 150.0 / s.S / max(1, len(od)) * 2)
                u = rng.random()
                if u < .12: v = 0
                elif u < .35: v = int(base + 1) * 1000
                elif u < .5: v = int(1000 * rng.uniform(0.05, 2.0) / s.S)
                else: v = int(base * 1000)
                r.append(v)
            return r
        s.demand[x] = (row(.8), row(.35)) if mc else row(1.0)
    # routing
    if mc:
        routing = routing or (random.Random(seed * 31 + 7).choice(["Hybrid", "Hybrid", "Adaptive", "Fixed"]) if kw.get("mcr") else "Biclass_Hybrid")
        s.ad = random.Random(seed * 31 + 8).choice([300, 500, 1000, 700])
        s.adc = rng.choice([0, 0, 500, 300, 1000]); s.adt = rng.choice([0, 0, 500, 1000])
    else:
        routing = routing or rng.choice(["Fixed", "Fixed", "Adaptive", "Hybrid"])
        s.ad = rng.choice([300, 500, 1000, 700])
    s.routing = routing
    # paths: for every OD pair with demand
    for (o, d) in od:
        ps = s.simple_paths(s.origins[o], s.dests[d])
        rng.shuffle(ps); ps = ps[:rng.choice([1, 2, 3, 4])]
        n = s.max_interval * (2 if mc and routing == "Biclass_Hybrid" else 1)
        bufs = [[rng.choice([0, 1000, 500, 250, 330, 2000, 125]) for _ in range(n)] for _ in ps]
        for c in range(n):
            if sum(b[c] for b in bufs) == 0: rng.choice(bufs)[c] = rng.choice([400, 1000])
        for (ns, ls), b in zip(ps, bufs):
            s.paths.append(dict(on=s.origins[o], dn=s.dests[d], nodes=ns, links=ls, buf=b))
    if rng.random() < .3 and routing in ("Adaptive", "Hybrid", "Biclass_Hybrid", "Due"):
        for l in rng.sample(sorted(s.links), min(2, len(s.links))):
            s.tolls[l] = (rng.choice([5, 50, 300]), rng.choice([10, 100]))
        s.vot = rng.choice([10, 30, 60])
    tdr = kw.get("tdr")
    if tdr and mc and s.adc + s.adt == 0: s.adc = 500
    if (rng.random() < .25 or tdr) and routing in ("Hybrid", "Biclass_Hybrid") and (s.ad > 0 if not mc or routing == "Hybrid" else s.adc + s.adt > 0):
        for x in (od if rng.random() < .5 else rng.sample(od, 1)):
            r = lambda: [rng.choice([0, 1000, 1000 if tdr else 500]) for _ in range(s.max_interval)]
            s.tdratio[x] = (r(), r()) if mc else r()
    if rng.random() < .2:
        k = rng.choice([2, 3])
        s.labels = {o: rng.choice([[100, 0, 0], [50, 50, 0], [0, 30, 70]])[:k] for o in s.origins}
        for o in s.labels:
            if sum(s.labels[o]) != 100: s.labels[o] = [100] + [0] * (k - 1)
    if mc and s.labels:
        r2 = random.Random(seed * 31 + 9)
        k = r2.choice([2, 3, 3])
        s.labels_t = {o: r2.choice([[0, 100, 0], [50, 50, 0], [0, 50, 50], [40, 0, 60]])[:k] for o in s.origins}
        for o in s.labels_t:
            if sum(s.labels_t[o]) != 100: s.labels_t[o] = [0, 100, 0][:k]
    if rng.random() < .25:
        s.total_interval = s.assign_frq * s.max_interval + rng.choice([0, 5, 20])
    s.rseed = seed; s.rmode = rng.choice([0, 0, 1, 2, 3])
    if kw.get("stat"):
        s.stat = True
        mid = [l["id"] for l in s.links.values() if l["F"] < BIG]
        s.emis = rng.sample(mid, min(len(mid), rng.choice([0, 1, 2, 3, 3])))
        if rng.random() < .5:
            s.labels = {o: rng.choice([[50, 50], [100, 0], [30, 70]]) for o in s.origins}
            s.labels_t = None
            s.evl = (rng.choice([-2, 0, 1]), rng.choice([-2, 0, 1]))
    if kw.get("tda"):
        td_attr(random.Random(seed), s)
        if kw["tda"] == 2: workzone(random.Random(seed + 1), s)
    if kw.get("track"):
        r = random.Random(seed + 2)
        last = s.assign_frq * s.max_interval
        s.track = dict(rate=r.choice([1000, 1000, 1000, 500, 200, 900]), frq=r.choice([1, 1, 1, 2, 3, 5, 12]), od=[], int=[])
        if r.random() < .4:
            s.track["od"] = [list(x) for x in r.sample(sorted(s.demand), r.randint(1, len(s.demand)))]
            if r.random() < .3: s.track["od"].append([max(s.origins) + 7, max(s.dests) + 9])
        if r.random() < .3: s.track["int"] = sorted(set(r.sample(range(0, last, 60 // s.U), r.randint(1, max(1, last * s.U // 60)))) | set(r.sample(range(last), 2)))
    return s

def td_attr(rng, s):
    """Rows of time-dependent link attributes: new capacities, jam densities,
    lanes, speeds (not the car speed of a CTM link) and tolls."""
    last = s.assign_frq * s.max_interval
    ts = sorted(rng.sample(range(0, last + 30), min(last, rng.choice([1, 2, 3, 5]))))
    if rng.random() < .3: ts[0] = 0
    if rng.random() < .3: ts.append(ts[-1] + 1)
    ids = sorted(s.links)
    cur = {i: dict(s.links[i], toll=s.tolls.get(i, (0, 0))[0]) for i in ids}
    base = {i: dict(cur[i]) for i in ids}
    for t in ts:
        for i in rng.sample(ids, min(len(ids), rng.choice([1, 2, 3, 5]))):
            l = dict(rng.choice([base[i], cur[i], cur[i]]))
            if l["typ"] != "PQ":
                if l["typ"] == "LQ" and rng.random() < .4: l["F"] = rng.choice([20, 30, 45, 60])
                if rng.random() < .4: l["Ft"] = max(10, l["F"] - rng.choice([0, 5, 10]))
                l["Ft"] = min(l["Ft"], l["F"])
                if rng.random() < .4: l["lanes"] = rng.choice([1, 2, 3])
                if rng.random() < .6:
                    l["cap"] = rng.choice([200, 400, 800, 1200, 1800, 2200]); l["capt"] = int(l["cap"] * rng.choice([.5, .75]))
                if rng.random() < .4:
                    l["rho"] = rng.choice([60, 90, 150, 200]); l["rhot"] = int(l["rho"] * rng.choice([.4, .6]))
                m = 3600 // (s.U * s.S * l["lanes"]) + 1
                l["rhot"] = max(l["rhot"], max(l["capt"], m) // l["Ft"] + 3)
                l["rho"] = max(l["rho"], max(l["cap"], m) // l["F"] + 3)
            if rng.random() < .5: l["toll"] = rng.choice([0, 25, 75, 150, 400])
            cur[i] = l
            s.tdattr.append(dict(l, t=t))
    rng.shuffle(s.tdattr)
    if s.vot is None: s.vot = rng.choice([10, 30, 60])

def workzone(rng, s):
    """A street is widened or narrowed while the next one is cut to a trickle:
    queues of both classes stand on cells whose attributes have changed."""
    pairs = [(i, j) for i in sorted(s.links) for j in sorted(s.links) if s.links[i]["to"] == s.links[j]["frm"]
             and s.links[i]["typ"] != "PQ" and s.links[j]["typ"] != "PQ"]
    if not pairs: return
    i, j = rng.choice(pairs)
    s.tdattr = [r for r in s.tdattr if r["id"] not in (i, j)]
    t = rng.choice([0, s.assign_frq // 3, s.assign_frq // 2])
    a = dict(s.links[i], toll=s.tolls.get(i, (0, 0))[0], t=t); b = dict(s.links[j], toll=s.tolls.get(j, (0, 0))[0], t=t)
    a["lanes"] = rng.choice([2, 3]); a["cap"] = rng.choice([1200, 1800, 2200]); a["capt"] = int(a["cap"] * rng.choice([.5, .75]))
    a["rho"] = rng.choice([90, 150, 200]); a["rhot"] = int(a["rho"] * rng.choice([.4, .6]))
    a["Ft"] = max(10, a["F"] - rng.choice([5, 10, 20]))
    b["lanes"] = 1; b["cap"] = rng.choice([200, 400]); b["capt"] = b["cap"] // 2
    for l in (a, b):
        m = 3600 // (s.U * s.S * l["lanes"]) + 1
        l["rhot"] = max(l["rhot"], max(l["capt"], m) // l["Ft"] + 3)
        l["rho"] = max(l["rho"], max(l["cap"], m) // l["F"] + 3)
    s.tdattr += [a, b]
    if rng.random() < .5: s.tdattr.append(dict(s.links[j], toll=0, t=t + rng.choice([10, 25, 60])))
    tot = 150 * 1000
    for x, (c, k) in s.demand.items():
        f = rng.choice([.5, 1, 2])
        n = max(1, len(s.demand) * s.max_interval)
        s.demand[x] = ([max(v, int(tot / s.S / n)) for v in c], [max(v, int(f * tot / s.S / n / 2)) for v in k])

if __name__ == "__main__":
    import sys
    s = gen(int(sys.argv[1]), mc=len(sys.argv) > 3)
    s.write(sys.argv[2]); json.dump(s.header(), open(sys.argv[2] + "/header.json", "w"))
