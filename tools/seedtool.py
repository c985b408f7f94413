#!/usr/bin/env python3
"""seedtool.py new ID PROP NEEDS BREAKS   (from the diff of /tmp/wt)
   seedtool.py verify ID...               (build, tests, demo; in a private mount of /repo)
   seedtool.py catch ID... [PROP]         (run the property's quick check on the patched tree)"""
import json, os, shutil, subprocess, sys
V = "/verif"
def ns(tree, cmd, log, timeout=1800):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (tree, cmd)],
                          stdout=log, stderr=subprocess.STDOUT, timeout=timeout).returncode
def tree(id, patch=True):
    t = "/tmp/wt-" + id
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", t])
    subprocess.check_call("git checkout -q -- . && git clean -qfd", shell=True, cwd=t)
    if patch: subprocess.check_call(["git", "apply", V + "/seeded/%s/patch.diff" % id], cwd=t)
    return t
def verify(id):
    lg = open("/tmp/seed-%s.log" % id, "w")
    t = tree(id)
    os.makedirs("/tmp/seedcopy", exist_ok=True)
    c = "/tmp/seedcopy/" + id; shutil.rmtree(c, ignore_errors=True); shutil.copytree(V + "/seeded/" + id, c)
    out = "/tmp/seed-%s.json" % id
    b = ns(t, "bash /opt/vp/test.sh %s" % out, lg)
    r = json.load(open(out)); n = len(r["passed"])
    d = ns(t, "bash %s/demo.sh" % c, lg)
    shutil.rmtree(t)
    t = tree(id, False)
    ns(t, "bash /opt/vp/build.sh", lg)
    d0 = ns(t, "bash %s/demo.sh" % c, lg)
    shutil.rmtree(t); shutil.rmtree(c)
    print("%s: tests passed %d failed %d, demo patched rc=%d, clean rc=%d  %s" % (id, n, len(r["failed"]), d, d0, "OK" if n == 23 and d != 0 and d0 == 0 else "*** BAD"), flush=True)
def catch(id, prop=None):
    prop = prop or json.load(open(V + "/seeded/%s/meta.json" % id))["property"]
    t = tree(id)
    v = "/tmp/vf-" + id; shutil.rmtree(v, ignore_errors=True)
    subprocess.check_call("mkdir %s && cp -a /verif/lib /verif/spec /verif/harness /verif/check.py /verif/known_findings.json %s/ 2>/dev/null; cp -a /verif/.build %s/ 2>/dev/null; true" % (v, v, v), shell=True)
    log = "/tmp/catch-%s-%s.log" % (id, prop)
    rc = ns(t, "cd %s && VERIF_SEED=%s python3 check.py %s %s" % (v, os.environ.get("VERIF_SEED", "1"), prop, os.environ.get("TIER", "quick")), open(log, "w"))
    txt = open(log).read()
    hit = [x for x in txt.splitlines() if x.startswith("VIOLATION")]
    print("%s vs %s: rc=%d %s %s" % (id, prop, rc, "CAUGHT" if rc == 1 and hit else "missed" if rc == 0 else "ERROR", txt.splitlines()[-1][:160] if txt else ""), flush=True)
    shutil.rmtree(t); shutil.rmtree(v)
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new":
        id, prop, needs, breaks = sys.argv[2:6]
        d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
        df = subprocess.check_output(["git", "diff"], cwd="/tmp/wt", text=True)
        assert df.strip()
        open(d + "/patch.diff", "w").write(df)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call("git checkout -q -- .", shell=True, cwd="/tmp/wt")
    elif c == "verify":
        for x in sys.argv[2:]: verify(x)
    elif c == "catch":
        ids = [x for x in sys.argv[2:] if os.path.isdir(V + "/seeded/" + x)]
        ps = [x for x in sys.argv[2:] if x not in ids]
        for x in ids: catch(x, ps[0] if ps else None)
