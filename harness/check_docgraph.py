"""C27: the graph of a document."""
import json
import os
import random

import gen
from check_editor import FIXTURES
from common import REPO, split

DRIVER = ("drive_docgraph.py", "DocGraphTrace")


def concrete(rng, d):
    doc = {"skeleton": {"spine": rng.choice(gen.VERSIONS)}}
    doc["bones"] = [gen.put({"name": b["n"]}, parent=b["p"], x=rng.choice([None, 3])) for b in d["bones"]]
    doc["slots"] = [gen.put({"name": s["n"], "bone": s["b"]}, attachment=rng.choice([None, "a", "a_SLOT"]),
                            color=rng.choice([None, "ffffff00"])) for s in d["slots"]]
    doc["skins"] = [{"name": s["n"], "attachments": {sl: {k: gen.put({"width": 1}, path=a["p"], name=a["m"]) for k, a in gen.fn(m)}
                                                     for sl, m in gen.fn(s["at"])}} for s in d["skins"]]
    if d["iks"]:
        doc["ik"] = [{"name": i["n"], "bones": i["b"], "target": i["t"]} for i in d["iks"]]
    return doc


def c27(run):
    rng = random.Random("C27-%d" % run.seed)
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " NSlots = 2", " Emit = TRUE", "CHECK_DEADLOCK FALSE",
                     "INVARIANTS TypesOfEdges OneNodeEach LeafSlotsAreEmptySlots Show"])
    found = run.model_check("MCDocGraph", cfg, workers=4, name="every document over 3 bones, 2 slots, 3 attachment names", sample=(rng, 6000 if run.quick else 60000))
    run.notes["model_documents_replayed"] = len(found)
    out = [{"doc": concrete(rng, d)} for d in found]
    for k in range(1500 if run.quick else 40000):
        g = gen.Gen(rng, size=rng.choice([2, 4, 8, 16]), odd=rng.choice([0.2, 0.6]))
        doc = g.doc()
        out.append({"doc": doc, "editor": rng.random() < 0.5})
    for k in range(6):       # more than ten of everything: order is numeric
        bones = [{"name": "root"}] + [{"name": "b%d" % i, "parent": "root"} for i in range(25)]
        rng.shuffle(bones[1:])
        out.append({"doc": {"skeleton": {"spine": "3.8"}, "bones": bones, "skins": [{"name": "default", "attachments": {}}],
                            "slots": [{"name": "s%d" % i, "bone": rng.choice(bones)["name"]} for i in rng.sample(range(30), 25)],
                            "ik": [{"name": "k%d" % i, "bones": ["b%d" % i], "target": "root"} for i in rng.sample(range(20), 15)]}})
    for f in FIXTURES:
        p = os.path.join(REPO, f)
        if os.path.exists(p) and isinstance(json.load(open(p)).get("skins"), list):
            out.append({"file": p})
            out.append({"file": p, "editor": True})
    run.drive(DRIVER, split(out, 8 if run.quick else 24), timeout=3000)


CHECKS = {"C27": c27}
