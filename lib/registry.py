import dnlcheck
CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C19", "C20"):
    CHECKS[_p] = lambda res, prop, tier: dnlcheck.check(res, prop, tier)
import algcheck
CHECKS["C10"] = algcheck.c10
CHECKS["C13"] = algcheck.c13
CHECKS["C11"] = algcheck.c11
def _c22(res, prop, tier):
    algcheck.closed_model(res, "MCTrack", "MCTrackx" if tier == "thorough" else "MCTrack")
    dnlcheck.check(res, prop, tier)
CHECKS["C22"] = _c22
import pycheck
def _c12(res, prop, tier):
    dnlcheck.check(res, prop, tier)
    pycheck.loads(res, prop, tier)
CHECKS["C12"] = _c12
CHECKS["C14"] = pycheck.loads
import samecheck
CHECKS["C15"] = samecheck.check
CHECKS["C16"] = algcheck.c16
import duecheck
CHECKS["C17"] = duecheck.check
import pathcheck
CHECKS["C18"] = pathcheck.check
import netcheck
CHECKS["C21"] = netcheck.check
