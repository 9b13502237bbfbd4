"""C05..C18: the editor."""
import os
import random

import gen
from common import REPO, split

DRIVER = ("drive_editor.py", "EditorTrace")
FIXTURES = ["spine_json_lib/test/data/original/original.json",
            "spine_json_lib/test/data/original/masquerade_skeleton.json",
            "spine_json_lib/deserializer/test/data/spine_json_example.json"]
WEIGHTS = {
    "C05": {"erase_anims": 8, "bad": 3}, "C06": {"bad": 8}, "C07": {"clean": 5, "erase_anims": 4},
    "C08": {"clean": 5, "erase_anims": 4}, "C10": {"clean": 5}, "C11": {"erase_skins": 8},
    "C12": {"erase_skins": 10}, "C13": {"erase_skins": 6}, "C14": {"erase_skins": 6}, "C15": {"erase_skins": 6, "erase_anims": 6},
    "C16": {"scale": 8}, "C17": {"scale": 2},
}


def random_cases(run, rng, n, length, **kw):
    out = []
    for i in range(n):
        g = gen.Gen(rng, size=rng.choice([2, 3, 4, 6]), odd=rng.choice([0, 0.35, 0.6]),
                    tags=rng.choice([0, 0.2, 0.6]) if run.prop != "C14" else 0.5,
                    many=rng.choice([6, 9, 10, 11, 14]) if i % 8 == 0 else 0)
        if i % 80 == 7:
            g = gen.Gen(rng, size=rng.choice([8, 12, 20]), odd=rng.choice([0, 0.3]), tags=0, many=rng.choice([0, 0, 8, 20, 60]), big=True)
        doc = g.doc(anims=0 if rng.random() < 0.03 else None)
        out.append({"doc": doc, "ops": gen.rand_ops(rng, doc, rng.randrange(1, length + 1), WEIGHTS.get(run.prop))})
    return out


def fixture_cases(run, rng, n):
    import json
    out = []
    for f in FIXTURES:
        path = os.path.join(REPO, f)
        if not os.path.exists(path):
            continue
        doc = json.load(open(path))
        if not isinstance(doc.get("skins"), list):
            continue
        for _ in range(n):
            ops = gen.rand_ops(rng, doc, 3, WEIGHTS.get(run.prop))
            for o in ops:
                if o["op"] == "scale":
                    o["fx"], o["fy"] = rng.choice([2, 0.5, -1]), rng.choice([4, 0.25])
            out.append({"file": path, "ops": ops})
    return out


# families of the specification: quick and thorough depth of the histories
DEPTH = {"vis": (1, 1), "draw": (1, 1), "links": (1, 2), "imgs": (1, 2), "tags": (1, 1), "scale": (2, 3), "hist": (2, 3)}
FAMILIES = {
    "C05": ["hist"], "C06": ["hist"], "C07": ["vis", "hist"], "C08": ["vis", "hist"], "C09": ["hist", "links", "vis"],
    "C10": ["draw", "hist"], "C11": ["imgs", "links", "hist"], "C12": ["links"], "C13": ["imgs", "links", "hist"],
    "C14": ["tags", "imgs", "hist"], "C15": ["links", "imgs", "hist"], "C16": ["scale", "hist"],
    "C17": ["hist", "scale", "links"], "C18": ["vis", "hist", "draw"],
    "C29": ["vis", "tags", "hist"],
}
INVS = "DocsAreConsistent StaysConsistent PropertiesHold Show"


def family_cases(run, rng, fam, limit):
    depth = DEPTH[fam][0 if run.quick else 1]
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", ' Fam = "%s"' % fam,
                     " Big = %s" % ("FALSE" if run.quick or (fam in ("links", "imgs")) else "TRUE"),
                     " Depth = %d" % depth, " Emit = TRUE", "CHECK_DEADLOCK FALSE", "INVARIANTS " + INVS])
    found = run.model_check("MCEditor", cfg, workers=8, timeout=3000, xmx="8g", name="family %s, histories of %d requests" % (fam, depth),
                            sample=(rng, limit))
    out = []
    for c in found:
        ops = []
        for o in c["ops"]:
            o = dict(o, fx=gen.b_value(o["x"]), fy=gen.b_value(o["y"]), names=o["names"] or [])
            o.pop("x"), o.pop("y")
            if not o["islist"]:
                o["arg"] = rng.choice(gen.WRONG[o["op"]])
            ops.append(o)
        out.append({"doc": gen.concrete(c["doc"], rng.choice(gen.VERSIONS), rng), "ops": ops, "family": fam})
    return out


def editor(run):
    rng = random.Random("%s-%d" % (run.prop, run.seed))
    fams = FAMILIES[run.prop]
    cases = []
    replayed = {}
    for f in fams:
        c = family_cases(run, rng, f, (6000 // len(fams)) if run.quick else 40000)
        replayed[f] = len(c)
        cases += c
    run.notes["model_behaviours_replayed"] = replayed
    cases += random_cases(run, rng, 1200 if run.quick else 40000, 5)
    cases += fixture_cases(run, rng, 1 if run.quick else 8)
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 48), timeout=3000)


CHECKS = {p: editor for p in ["C%02d" % i for i in range(5, 19)] + ["C29"]}
