"""C31: answers depend on the document and the requests alone."""
import json
import os
import random

import gen
from check_editor import FIXTURES, WEIGHTS  # noqa
from common import REPO, split

DRIVER = ("drive_replicas.py", "ReplicasTrace")


def plain(o):
    o = dict(o, fx=gen.b_value(o["x"]), fy=gen.b_value(o["y"]), names=o["names"] or [])
    o.pop("x"), o.pop("y")
    return o


def c31(run):
    rng = random.Random("C31-%d" % run.seed)
    cfg = "\n".join(["SPECIFICATION RSpec", "CONSTANTS", ' Fam = "hist"', " Big = FALSE", " Depth = 1", " Emit = TRUE", " Turns <- TheTurns",
                     "CHECK_DEADLOCK FALSE", "INVARIANTS OneAnswerPerHistory OwnDocument ShowSched"])
    found = run.model_check("MCReplicas", cfg, workers=8, timeout=3000, name="every schedule of 3 editors with 2, 2 and 1 requests",
                            sample=(rng, 400 if run.quick else 20000))
    run.notes["model_behaviours_replayed"] = len(found)
    out = []
    for c in found:
        v = rng.choice(gen.VERSIONS)
        docs = [gen.concrete(d, v, random.Random(1)) for d in c["docs"]]
        out.append({"docs": docs, "names": ["d1", "d1", "d3"], "table": [[plain(o) for o in t] for t in c["table"]],
                    "sched": [[e - 1, k - 1] for e, k in c["sched"]]})
    for i in range(500 if run.quick else 20000):      # bigger documents, two editors on each
        docs, table, names = [], [], []
        for j in range(rng.choice([1, 1, 2])):
            g = gen.Gen(rng, size=rng.choice([3, 5, 8, 12]), odd=0.3, tags=rng.choice([0, 0.3]), many=rng.choice([0, 0, 9, 14]))
            doc = g.doc()
            if i % 10 == 0:                    # refused documents: a wrong tag
                named = rng.choice([doc["slots"] or doc["bones"][1:] or doc["bones"], doc["bones"][1:] or doc["bones"]])
                old = rng.choice(named)
                new = old["name"] + rng.choice(["[scale:x]", "[foo:1]", "[scale:2][scale:2]", "[scale:1.2.3]"])
                doc = json.loads(json.dumps(doc).replace(json.dumps(old["name"]), json.dumps(new)))
            ops = gen.rand_ops(rng, doc, 4)
            for _ in range(2):
                docs.append(doc)
                table.append(ops)
                names.append("d%d" % j)
        turns = []
        for e in range(len(docs)):
            turns += [e] * rng.randrange(2, 5)
        rng.shuffle(turns)
        # editors of one document make the same requests
        count = {}
        sched = []
        for e in turns:
            k = count.get(e, 0)
            if k < len(table[e]):
                sched.append([e, k])
                count[e] = k + 1
        out.append({"docs": docs, "names": names, "table": table, "sched": sched})
    for f in FIXTURES:
        p = os.path.join(REPO, f)
        if os.path.exists(p) and isinstance(json.load(open(p)).get("skins"), list):
            ops = gen.rand_ops(rng, json.load(open(p)), 3)
            out.append({"docs": [{"file": p}, {"file": p}], "names": ["d", "d"], "table": [ops, ops],
                        "sched": [[0, 0], [1, 0], [1, 1], [0, 1], [0, 2], [1, 2]]})
    rng.shuffle(out)
    run.drive(DRIVER, split(out, 8 if run.quick else 48), timeout=3000)


CHECKS = {"C31": c31}
