"""C04: who owns which data."""
import random

import gen
from check_format import fixtures
from common import split

DRIVER = ("drive_own.py", "OwnershipTrace")


def enrich(rng, doc):
    """Every container the format has, at every depth."""
    doc["skeleton"]["extra"] = {"list": [1, [2, 3], {"a": {"b": [4]}}]}
    doc.setdefault("events", {})["ev9"] = {"int": 1, "float": 0.5}
    for a in doc["animations"].values():
        b = doc["bones"][-1]["name"]
        a.setdefault("bones", {}).setdefault(b, {}).setdefault("rotate", []).append({"time": 9, "angle": 5, "curve": [0, 0.25, 1, 1]})
        if doc["slots"]:
            s = rng.choice(doc["slots"])["name"]
            a.setdefault("slots", {}).setdefault(s, {}).setdefault("color", []).append({"time": 1, "color": "ff00ff00", "curve": [0, 1]})
            a.setdefault("events", []).append({"time": 2, "name": "ev9", "int": 3})
    return doc


def c04(run):
    rng = random.Random("C04-%d" % run.seed)
    depth = 5 if run.quick else 6
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Depth = %d" % depth, " Emit = TRUE", "CHECK_DEADLOCK FALSE",
                     "INVARIANTS NoInterference Show", "PROPERTY FrameHolds"])
    hists = run.model_check("MCOwnership", cfg, workers=8, timeout=3000, name="ownership, histories of %d steps" % depth,
                            sample=(rng, 3000 if run.quick else 60000))
    run.notes["model_histories_replayed"] = len(hists)
    files = list(fixtures(not run.quick))
    cases = []
    for i, h in enumerate(hists):
        doc = enrich(rng, gen.Gen(rng, size=rng.choice([2, 3, 4]), odd=0.3, tags=0.1).doc())
        c = {"doc": doc, "hist": h, "seed": i,
             "edits": gen.rand_ops(rng, doc, 12, {"bad": 0.5, "reload": 0})}
        if files and i % 100 == 0:
            c["file"] = rng.choice(files)
            c["edits"] = []
            del c["doc"]
        cases.append(c)
    run.drive(DRIVER, split(cases, 8 if run.quick else 32), timeout=3000)


CHECKS = {"C04": c04}
