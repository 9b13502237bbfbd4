"""C30: working on the graph of a document and reading it back."""
import json
import os
import random

import gen
from check_docgraph import concrete
from check_editor import FIXTURES
from common import REPO, split

DRIVER = ("drive_regraph.py", "GraphEditTrace")
TYPES = ["BONE", "SLOT", "ATTACHMENT", "IMAGE", "IK"]
CLEANING = [("leafs", "SLOT"), ("heads", "ATTACHMENT"), ("leafs", "ATTACHMENT"), ("heads", "IMAGE")]


def requests(rng, doc, n):
    slots = [s["name"] for s in doc.get("slots", [])]
    atts = sorted({k for s in doc["skins"] for m in (s.get("attachments") or {}).values() for k in m})
    bones, iks = [b["name"] for b in doc["bones"]], [i["name"] for i in doc.get("ik", [])]
    names = {"SLOT": slots, "ATTACHMENT": atts, "BONE": bones, "IK": iks, "IMAGE": atts}
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.2:
            k = min(len(slots), rng.randrange(0, 3))
            gone = rng.sample(slots, k)
            slots = [s for s in slots if s not in gone]
            if rng.random() < 0.05:
                gone = gone + [rng.choice(["nobody", "root"] + gone)]
            out.append({"op": "slots", "ids": gone})
        elif x < 0.4:
            k = min(len(atts), rng.randrange(0, 3))
            gone = rng.sample(atts, k)
            atts = [s for s in atts if s not in gone]
            if rng.random() < 0.05:
                gone = gone + ["nothing"]
            out.append({"op": "atts", "ids": gone})
        elif x < 0.5:
            out += [{"op": a, "ty": b} for a, b in CLEANING]
        else:
            ty = rng.choice(TYPES)
            o = {"op": rng.choice(["heads", "leafs"]), "ty": ty}
            if o["op"] == "leafs" and rng.random() < 0.4 and names[ty]:
                o["keep"] = rng.sample(names[ty], rng.randrange(1, min(3, len(names[ty])) + 1)) + rng.choice([[], ["nobody"]])
            out.append(o)
    return out


def c30(run):
    rng = random.Random("C30-%d" % run.seed)
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Depth = 2", " Rich = %s" % ("FALSE" if run.quick else "TRUE"), " Emit = TRUE",
                     "CHECK_DEADLOCK FALSE", "INVARIANTS RoundTrip Stable Pruned1 NoDangling CleaningTakesEmptySlots Show",
                     "PROPERTY OnlyAsked"])
    found = run.model_check("MCGraphEdit", cfg, workers=8, timeout=3000, name="histories of 2 requests on documents of 3 bones, 2 slots, 3 attachment names",
                            sample=(rng, 5000 if run.quick else 60000))
    run.notes["model_behaviours_replayed"] = len(found)
    out = [{"doc": concrete(rng, c["doc"]), "ops": c["ops"]} for c in found]
    for k in range(900 if run.quick else 30000):
        doc = gen.Gen(rng, size=rng.choice([2, 4, 6]), odd=rng.choice([0.2, 0.6]), many=rng.choice([0, 0, 0, 11])).doc()
        out.append({"doc": doc, "ops": requests(rng, doc, rng.randrange(1, 5))})
    for f in FIXTURES:
        p = os.path.join(REPO, f)
        if os.path.exists(p) and isinstance(json.load(open(p)).get("skins"), list):
            out.append({"file": p, "ops": requests(rng, json.load(open(p)), 3)})
    rng.shuffle(out)
    run.drive(DRIVER, split(out, 8 if run.quick else 32), timeout=3000, args={"locale": "C"})


CHECKS = {"C30": c30}
