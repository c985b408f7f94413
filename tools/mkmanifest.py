#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DNL = ("TLA+ specification of network loading (spec/Dnl.tla, LinkModels, LinkModelsMC, NodeModels); TLC validates traces recorded from the real code against it",
       "Every phase of every interval of generated networks (single-class and car/truck) is recorded from the unmodified code and each step must be a step the TLA+ specification allows. Sampled networks and random streams, exhaustive over every step of each; trusts the recorder in harness/dnl.cpp, TLC, and the fixed-point tolerance of the specification.")
C = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"):
    C[p] = DNL
ALG = "Trusts the drivers harness/alg.cpp and pyapi.py (they only pass inputs in and write answers out) and TLC."
C["C10"] = ("TLA+ specification of shortest paths (spec/ShortestPath.tla); TLC enumerates graphs of a closed model whose invariants characterise optimality, the real routines (C++ and Python) answer, TLC judges the answers",
            "Exhaustive over small graphs with small costs, sampled over larger ones and over time-dependent tables. " + ALG)
C["C11"] = ("TLA+ specification of cumulative curves and travel times (spec/Curves.tla); TLC enumerates all FIFO histories of a closed model (spec/MCCurve.tla) that ties the curves to what vehicles experience, the real routines answer, TLC judges the answers",
            "Exhaustive over short histories, sampled over long ones (up to 30000 intervals, 100000 vehicles). " + ALG)
C["C13"] = ("TLA+ specification of the graph container as an abstract machine (spec/GraphAdt.tla); TLC enumerates all reachable small graphs and operations (spec/MCGraph.tla), the histories run on the real containers (C++ and Python), TLC compares every answer after every operation",
            "Exhaustive over small id sets, sampled over longer histories. " + ALG)
C["C12"] = ("TLA+ specification of network loading with per-path, per-departure-interval counts (spec/TraceDnl.tla) and of the DAR rows, matrix and file over them (spec/TracePy.tla); TLC validates recorded loadings and the answers of the Python interface",
            "Every movement of generated loadings, every row of the DAR results of generated loadings through Python. " + ALG)
C["C14"] = ("TLA+ specification of every answer of the Python classes as a function of the curves and counters of the loading (spec/TracePy.tla on spec/Curves.tla); TLC judges the answers recorded from the real extension",
            "Sampled networks, registrations, windows, array layouts. Trusts pyapi.py and the read-only view harness/tap*.cpp compiled next to the extension's own sources, and TLC.")
C["C15"] = ("TLA+ specification of a loading as a deterministic transition system of files and seed (spec/TraceSame.tla); TLC compares, event by event, runs of the real code under different memory layouts, process histories and recordings",
            "Sampled networks; the allocator of the harness places objects in a chosen order and fills them with garbage. Trusts harness/dnl.cpp, heap.h, pyapi.py and TLC.")
C["C16"] = ("TLA+ specification of nested suppression of file descriptors (spec/Silence.tla); TLC enumerates every history up to a length (spec/MCSilence.tla), each is run with the real context manager, TLC judges what came out",
            "Exhaustive over histories of up to 5 (quick) or 6 (thorough) steps on two descriptors and an invalid one. " + ALG)
C["C17"] = ("TLA+ specification of the equilibrium iterations (spec/Due.tla on Curves.tla); TLC checks conservation on a closed model (spec/MCDue.tla) and validates every iteration recorded from the real solvers (spec/TraceDue.tla)",
            "Sampled networks, demands, tolls, methods; every iteration, O-D pair, path and interval of each. Trusts harness/due.cpp and TLC.")
C["C18"] = ("TLA+ specification of path sets (spec/PathSets.tla); TLC checks growth, normalising and cycle cutting on a closed model (spec/MCPath.tla), whose walks are replayed into the real code, and validates every operation on path tables recorded from the real code (spec/TracePath.tla)",
            "Sampled networks and parameters; every path of every table. Trusts harness/paths.cpp, harness/pyapi.py and TLC.")
C["C19"] = ("TLA+ specification of what the loading reports about its links (spec/LinkStats.tla on Dnl.tla): volumes, travel times by the fundamental diagram, recording periods, queues, record files, vehicle miles and emissions; TLC validates recorded loadings, their record files and emission reports against it (spec/TraceDnl.tla)",
            "Sampled networks and demands, every link, interval, file row; emission rates to 1.25 %% (tabulated per mph). Trusts harness/dnl.cpp and TLC.".replace("%%", "%"))
C["C20"] = ("TLA+ specification of loading with link attributes that change (spec/Dnl.tla NetAt/HeadAt/Steps over LinkModelsMC.tla, LinkStats.tla, ShortestPath.tla): each interval is judged by the attributes in force; TLC validates recorded car/truck loadings with time-dependent attribute files against it (spec/TraceDnl.tla)",
            "Sampled networks, rows and demands; every link and interval. In the interval of a change the perceived densities of before are also allowed. Trusts harness/dnl.cpp and TLC.")
C["C21"] = ("TLA+ specification of input files as declarations, which are consistent, and the network each declares (spec/NetFiles.tla); TLC enumerates consistent declarations and every slip in them (spec/MCNet.tla), the real readers get the files, TLC judges what they made of them (spec/TraceNet.tla)",
            "Exhaustive for one slip in four small networks (pairs of slips sampled in thorough), sampled for generated networks with up to two slips. Left open: rows with more words than needed, two origins at one node, origin nodes without an origin, pairs given twice. Trusts harness/net.cpp, the rendering of files and TLC.")
C["C22"] = ("TLA+ specification of the report of tracked vehicles (spec/Tracking.tla over Dnl.tla), checked by TLC on every behaviour of a small road (spec/MCTrack.tla: the report follows each taken vehicle, and wrong reports are told); TLC validates the report of recorded loadings against where the vehicles were (spec/TraceDnl.tla)",
            "Sampled networks, requests and demands; every vehicle and interval. The position on point-queue links is only checked to be on the link. Trusts harness/dnl.cpp and TLC.")
NA = {}
ids = [json.loads(x)["id"] for x in open(ROOT + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                 technique=C[p][0], level="model_checking", level_note=C[p][1]) for p in ids if p in C],
    not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in ids if p not in C],
    notes="No hooks in /repo are needed: the recorder subclasses the loading classes. See DESIGN.md.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
