"""Running TLC on batches of recorded traces, and on closed models."""
import json, os, re, shutil, subprocess, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"

class ToolError(Exception):
    pass

def _tlc(args, cwd, env=None, timeout=800, heap="3g"):
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m" % heap
    e.update(env or {})
    try:
        r = subprocess.run(["tlc"] + args, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    return r.returncode, r.stdout + r.stderr

def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m: return 0, 0
    g, d = map(int, m[-1])
    return g, d

def validate(module, files, focus, work, workers=2, timeout=800, extra=None):
    """One TLC run over trace files.  Returns (verdicts, ok, stats):
    verdicts: path -> list of (line, text) rejections; missing key: no verdict."""
    os.makedirs(work, exist_ok=True)
    lst, foc = os.path.join(work, "files"), os.path.join(work, "focus")
    with open(lst, "w") as f:
        for p in files: f.write(json.dumps({"f": p}) + "\n")
    with open(foc, "w") as f:
        f.write(json.dumps({"focus": list(focus)}) + "\n")
    env = {"TRACES": lst, "FOCUS": foc}
    env.update(extra or {})
    # TLC writes error-trace specs next to the module: run on a copy
    sd = os.path.join(work, "spec")
    shutil.copytree(SPEC, sd, dirs_exist_ok=True)
    rc, out = _tlc(["-workers", str(workers), "-metadir", os.path.join(work, "meta"),
                    "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"], sd, env, timeout)
    rej, acc = {}, set()
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"') and line.endswith('"'):
            try: line = json.loads(line)
            except ValueError: line = line[1:-1]
        if line.startswith("ACCEPT|"):
            acc.add(int(line.split("|")[1]))
        elif line.startswith("REJECT|"):
            _, i, l, txt = line.split("|", 3)
            rej.setdefault(int(i), []).append((int(l), txt))
    verdict = {}
    for k, p in enumerate(files, 1):
        if k in rej: verdict[p] = rej[k]
        elif k in acc: verdict[p] = []
    ok = rc == 0 and "No error has been found" in out
    return verdict, ok, counts(out), out

LIMIT = 3000       # seconds per TLC process; set by check.py
def validate_all(module, files, focus, work, jobs=4, workers=2, timeout=None, extra=None):
    """Split over several TLC processes; files without a verdict are retried alone.
    Returns (rejections: path -> list, errors: path -> text, stats)."""
    timeout = timeout or LIMIT
    jobs = max(1, min(jobs, len(files)))
    # balance by size
    order = sorted(files, key=lambda p: -os.path.getsize(p))
    bins = [[] for _ in range(jobs)]; load = [0] * jobs
    for p in order:
        i = load.index(min(load)); bins[i].append(p); load[i] += os.path.getsize(p) + 20000
    st = [0, 0]
    rej, missing = {}, []
    def one(i):
        return validate(module, bins[i], focus, os.path.join(work, "b%d" % i), workers, timeout, extra)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for i, (v, ok, (g, d), out) in zip(range(jobs), ex.map(one, range(jobs))):
            st[0] += g; st[1] += d
            for p in bins[i]:
                if p not in v: missing.append(p)
                elif v[p]: rej[p] = v[p]
    errors = {}
    if missing and rej: missing = []      # the verdict is clear
    if missing:
        def alone(k):
            return validate(module, [missing[k]], focus, os.path.join(work, "a%d" % k), 1, timeout, extra)
        with cf.ThreadPoolExecutor(6) as ex:
            for k, (v, ok, (g, d), out) in zip(range(len(missing)), ex.map(alone, range(len(missing)))):
                p = missing[k]; st[0] += g; st[1] += d
                if p not in v: errors[p] = out[-3000:]
                elif v[p]: rej[p] = v[p]
    return rej, errors, st

def model(module, cfg, work, workers=8, timeout=800, env=None, heap="6g"):
    """Closed model: returns (ok, generated, distinct, output)."""
    sd = os.path.join(work, "spec-" + cfg)
    shutil.copytree(SPEC, sd, dirs_exist_ok=True)
    rc, out = _tlc(["-workers", str(workers), "-metadir", os.path.join(work, "meta-" + cfg), "-noGenerateSpecTE",
                    "-config", cfg + ".cfg", module + ".tla"], sd, env, timeout, heap)
    g, d = counts(out)
    return rc == 0 and "No error has been found" in out, g, d, out
