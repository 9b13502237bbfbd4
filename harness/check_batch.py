"""C33: grouping and ordering of requests."""
import json
import os
import random

import gen
from check_editor import FIXTURES
from common import REPO, split

DRIVER = ("drive_batch.py", "BatchTrace")
FAMILIES = {"hist": (3, 4), "links": (2, 2), "draw": (0, 2), "scale": (0, 3), "imgs": (0, 2), "tags": (0, 2)}  # 0: not at all


def model(run, rng, fam, groups):
    depth = FAMILIES[fam][0 if run.quick else 1]
    cfg = "\n".join(["SPECIFICATION BSpec", "CONSTANTS", ' Fam = "%s"' % fam, " Big = FALSE", " Depth = %d" % depth, " Emit = TRUE",
                     "CHECK_DEADLOCK FALSE", "INVARIANTS OnlyTheAmountMatters PlayIsTheMachine BShow"])
    found = run.model_check("MCBatch", cfg, workers=8, timeout=3000, xmx="8g", name="family %s, groupings of %d requests" % (fam, depth))
    by = {}
    for c in found:
        by.setdefault(json.dumps([c["doc"], c["amount"]], sort_keys=True), []).append(c)
    keys = sorted(k for k, v in by.items() if len(v) > 1)
    run.notes.setdefault("model_groups", {})[fam] = len(keys)
    out = []
    for k in rng.sample(keys, min(groups, len(keys))):
        cs = by[k]
        runs = []
        for c in rng.sample(cs, min(4, len(cs))):
            ops = []
            for o in c["ops"]:
                o = dict(o, fx=gen.b_value(o["x"]), fy=gen.b_value(o["y"]), names=o["names"] or [])
                o.pop("x"), o.pop("y")
                if not o["islist"]:
                    o["arg"] = rng.choice(gen.WRONG[o["op"]])
                ops.append(o)
            runs.append(ops)
        out.append({"doc": gen.concrete(cs[0]["doc"], rng.choice(gen.VERSIONS), rng), "runs": runs})
    return out


def factored(rng, factors):
    """Factors with the same products."""
    out = [list(f) for f in factors]
    while len(out) > 1 and rng.random() < 0.4:
        f = out.pop()
        out[-1] = [out[-1][0] * f[0], out[-1][1] * f[1]]
    while out and len(out) < 5 and rng.random() < 0.5:
        f, g = out.pop(), [rng.choice([1, 2, 0.5, -1]), rng.choice([1, 4, 0.25, -1])]
        out += [g, [f[0] / g[0], f[1] / g[1]]]
    rng.shuffle(out)
    return out


def grouping(rng, anims, skins, factors, clean):
    """One way of asking for the same amount."""
    ops = []
    for op, names in (("erase_anims", anims), ("erase_skins", skins)):
        names = list(names)
        rng.shuffle(names)
        while names:
            k = rng.randrange(1, len(names) + 1)
            o = {"op": op, "names": names[:k], "safe": True}
            names = names[k:]
            if op == "erase_anims" and rng.random() < 0.3:
                o["strict"] = False
                o["names"] = o["names"] + ["no such animation"] if rng.random() < 0.5 else o["names"] + o["names"][:1]
            ops.append(o)
    rng.shuffle(ops)
    late = []
    if clean:
        if ops and rng.random() < 0.5:
            ops[-1] = dict(ops[-1], safe=False)
            tail = [ops.pop()]
        else:
            tail = [{"op": "clean"}]
        late = tail
    for f in factored(rng, factors):
        (ops if rng.random() < 0.5 else late).append({"op": "scale", "fx": f[0], "fy": f[1]})
    head = late[:1] if clean else []
    rest = late[1:] if clean else late
    rng.shuffle(ops)
    rng.shuffle(rest)
    ops = ops + head + rest
    for _ in range(rng.choice([0, 0, 1, 2])):
        at = rng.randrange(len(ops) + 1)
        ops.insert(at, rng.choice([{"op": "reload"}, {"op": "erase_skins", "names": ["no such skin"], "safe": True},
                                   {"op": "erase_anims", "names": ["no such animation"], "safe": True},
                                   {"op": "scale", "fx": 2, "fy": 2, "islist": False, "arg": rng.choice(gen.WRONG["scale"])}]))
    return ops


def amounts(rng, doc):
    anims, skins = list(doc.get("animations") or {}), [s["name"] for s in doc.get("skins") or []]
    a = rng.sample(anims, rng.randrange(len(anims) + 1)) if rng.random() < 0.8 else []
    s = rng.sample(skins, rng.randrange(len(skins) + 1)) if rng.random() < 0.7 else []
    f = [(rng.choice([2, 0.5, -1, 4]), rng.choice([1, 0.25, 8])) for _ in range(rng.choice([0, 1, 2]))]
    return a, s, f, rng.random() < 0.7


def c33(run):
    rng = random.Random("C33-%d" % run.seed)
    cases = []
    for fam in [f for f in FAMILIES if FAMILIES[f][0 if run.quick else 1]]:
        cases += model(run, rng, fam, 500 if run.quick else 6000)
    run.notes["model_groups_replayed"] = len(cases)
    for i in range(700 if run.quick else 30000):
        doc = gen.Gen(rng, size=rng.choice([2, 3, 4, 6]), odd=rng.choice([0, 0.35, 0.6]), tags=0.2,
                      many=rng.choice([6, 9, 10, 11]) if i % 10 == 0 else 0).doc()
        a = amounts(rng, doc)
        cases.append({"doc": doc, "runs": [grouping(rng, *a) for _ in range(4)]})
    for f in FIXTURES:
        path = os.path.join(REPO, f)
        if os.path.exists(path):
            doc = json.load(open(path))
            if isinstance(doc.get("skins"), list):
                for _ in range(1 if run.quick else 6):
                    a = amounts(rng, doc)
                    cases.append({"file": path, "runs": [grouping(rng, *a) for _ in range(3)]})
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 32), timeout=3000)
    return ["factors are powers of two and -1, so that products are exact"]


CHECKS = {"C33": c33}
