"""C12, C14: loadings run through the Python classes; every answer judged by
spec/TracePy.tla against the curves and counters of that loading."""
import os, random
from common import SEED
import algcheck, build, scen

def case(res, rng, i, mc, seed, kw, reuse=None):
    s = scen.gen(seed, mc=mc, **kw)
    folder = os.path.join(res.work, "net%d" % i)
    s.write(folder)
    ids = sorted(s.links); rng.shuffle(ids)
    reg = None if rng.random() < .3 else ids[:rng.randint(1, len(ids))]
    n = len(s.paths) if s.routing != "Adaptive" else 0
    p = list(range(n))
    if rng.random() < .5: rng.shuffle(p); p = p[:rng.randint(1, n)] if n else []
    hyb = s.routing in ("Hybrid", "Biclass_Hybrid")
    plain = s.routing == "Fixed" or (mc and s.adc == s.adt == 0 and not s.tdratio)
    return dict(folder=folder, mc=1 if mc else 0, seed=seed, rs=rng.randrange(10 ** 6), reg=reg, npath=n, preg=p,
                vot=s.vot if s.vot is not None else 20, costmap=1 if hyb else 0, dupl=1 if rng.random() < .3 else 0,
                adapt=0 if plain else 1, oc=sorted(l for l in s.links if s.nodes[s.links[l]["frm"]] == "ORG"), gen=[1 if mc else 0, seed, kw])

def cases(res, prop, tier, nsc, nmc):
    rng = random.Random("%s/py/%d" % (prop, SEED))
    out = []
    for i in range(nsc + nmc):
        mc = i >= nsc
        kw = {}
        if i % 3 == 0: kw["congest"] = 2.5
        if mc: kw["minutes"] = rng.choice([2, 2, 3])
        else: kw["routing"] = rng.choice(["Hybrid", "Hybrid", "Fixed", "Fixed", "Adaptive"]) if prop != "C12" else rng.choice(["Fixed", "Fixed", "Hybrid"])
        if prop == "C12": kw["topo"] = rng.choice(["braess", "grid", "multiod", None])
        out.append(case(res, rng, i, mc, rng.randrange(10 ** 6), {k: v for k, v in kw.items() if v is not None}))
    return out

def loads(res, prop, tier):
    n = (200, 140) if tier == "quick" else (500, 300)
    ext = build.build_ext()
    cs = cases(res, prop, tier, *n)
    res.samples += [dict(generator=c["gen"], registered=c["reg"], paths=c["preg"]) for c in cs[::max(1, len(cs) // 3)]]
    algcheck.judge(res, [(algcheck.run_py, ext, "load", cs)], "TracePy", prop)
