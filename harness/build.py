"""Builds harness binaries from /repo/src (current working tree) + /verif/harness.

Only the sources a binary needs are compiled; objects go to an out-of-tree
folder.  Returns nothing; raises BuildError when the compiler fails."""
import os, subprocess, sys, hashlib, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
CXX = "g++"
FLAGS = ["-std=c++11", "-O1", "-fPIC", "-g", "-DNDEBUG", "-w", "-I", REPO + "/src",
         "-I", HERE, "-I/usr/include/eigen3"]

class BuildError(Exception):
    pass

ALL = None
def repo_sources():
    return sorted(f[:-4] for f in os.listdir(REPO + "/src") if f.endswith(".cpp"))

HEAVY = {"multimodal", "ev_traffic", "delivery_traffic"}

def _hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def _compile(units):
    """units: [(source, object, flags)] - compile what is missing, biggest first."""
    jobs = [u for u in units if not os.path.exists(u[1])]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    def comp(j):
        src, o, fl = j
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + fl + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return src + "\n" + r.stderr[-4000:]
        os.replace(tmp, o)
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(comp, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))

def _hdrs():
    hdrs = [os.path.join(REPO, "src", f) for f in os.listdir(REPO + "/src") if f.endswith(".h")]
    return hdrs

def _obj(src, extra, flags, hk):
    k = _hash([src] + extra, (hk, flags))
    return (src, os.path.join(BUILD, os.path.basename(src)[:-4] + "-" + k + ".o"), flags)

def _link(name, objs, flags, suffix=""):
    exe = os.path.join(BUILD, name + "-" + _hash([], (objs, flags)) + suffix)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + objs + ["-o", tmp, "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe

def build(name, flags=(), skip=HEAVY):
    """Compile harness/<name>.cpp and the repo sources, link, return the path."""
    srcs = [s for s in repo_sources() if s not in skip]
    hhdrs = [os.path.join(HERE, f) for f in os.listdir(HERE) if f.endswith(".h")]
    flags = FLAGS + list(flags)
    hk = _hash(_hdrs(), flags)
    os.makedirs(BUILD, exist_ok=True)
    units = [_obj(os.path.join(HERE, name + ".cpp"), hhdrs, flags, hk)]
    units += [_obj(os.path.join(REPO, "src", s + ".cpp"), [], flags, hk) for s in srcs]
    _compile(units)
    return _link(name, [u[1] for u in units], flags)

PY = "/opt/macposts-venv/bin/python"
def build_ext():
    """The Python extension, built from the working tree; returns its folder."""
    ed = os.path.join(REPO, "macposts", "_ext")
    hdrs = _hdrs() + [os.path.join(ed, f) for f in os.listdir(ed) if f.endswith(".h")]
    hk = _hash(_hdrs(), FLAGS)
    inc = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
    pf = [f for f in FLAGS if f != "-O1"] + ["-O0", "-fvisibility=hidden", "-I/usr/include/pybind11", "-I", inc]
    os.makedirs(BUILD, exist_ok=True)
    # dta.cpp and mcdta.cpp are compiled through files that add a read-only view
    tapped = {"dta.cpp": "DTA", "mcdta.cpp": "MCDTA"}
    units = [_obj(os.path.join(ed, f), hdrs, pf, hk) for f in sorted(os.listdir(ed)) if f.endswith(".cpp") and f not in tapped]
    for f, n in tapped.items():
        units.append(_obj(os.path.join(HERE, "tap_" + f), hdrs + [os.path.join(ed, f), os.path.join(HERE, "tap.h")],
                          pf + ["-I", ed, '-DVERIF_%s="%s"' % (n, os.path.join(ed, f))], hk))
    units.append(_obj(os.path.join(HERE, "tap_mod.cpp"), [], pf, hk))
    units += [_obj(os.path.join(REPO, "src", s + ".cpp"), [], FLAGS if s not in HEAVY else [f if f != "-O1" else "-O0" for f in FLAGS], hk) for s in repo_sources()]
    _compile(units)
    objs = [u[1] for u in units]
    d = os.path.join(BUILD, "ext-" + _hash([], (objs, pf)))
    so = os.path.join(d, "_macposts_ext.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + FLAGS + ["-shared"] + objs + ["-o", tmp, "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.replace(tmp, so)
    return d

def build_rnd():
    """harness/rndlib.cpp as a library to preload."""
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(HERE, f) for f in ("rndlib.cpp", "rnd.h")]
    so = os.path.join(BUILD, "rnd-" + _hash(src, FLAGS) + ".so")
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, "-O1", "-fPIC", "-shared", src[0], "-o", tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-4000:])
        os.replace(tmp, so)
    return so

if __name__ == "__main__":
    print(build_ext() if sys.argv[1] == "ext" else build(sys.argv[1]))
