import json, os, sys, time, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "harness")]

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

def many(go, n):
    """[(i, go(i))] for i < n, eight at a time; when four did not end, the
    remaining ones are left out."""
    import concurrent.futures as cf
    hung = []
    def one(i):
        if len(hung) >= 4: return None
        r = go(i)
        if r[1] and "did not end" in r[1]: hung.append(i)
        return r
    with cf.ThreadPoolExecutor(8) as ex:
        return [(i, r) for i, r in enumerate(ex.map(one, range(n))) if r is not None]

class Result:
    """What one check did; turned into the evidence file and the exit status."""
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.viol, self.known = [], [], [], []
        self.extra = {}
        self.work = os.path.join(ROOT, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def violation(self, what, replay):
        """replay: JSON-able description that reproduces the failure."""
        d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(p, "w") as f: json.dump(dict(property=self.prop, what=what, replay=replay), f, indent=1)
        self.viol.append((what, p))

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.viol[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p)); print("  " + what[:1500])
        print("%s %s: %d traces of the real code, %d states, %d transitions, %d violations, %.1f s" % (
            self.prop, self.tier, self.traces, self.states, self.transitions, len(self.viol), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.viol else 0

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)).get("known", []) if os.path.exists(p) else []
