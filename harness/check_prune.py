"""C26: pruning the graph of an animation."""
import random

import gen
from check_graph import cfg
from common import split

DRIVER = ("drive_prune.py", "GraphTrace")
TYPES = ["BONE", "SLOT", "ATTACHMENT", "IMAGE", "IK"]
BASES = ["a", "b", "a_SLOT", "b_SLOT_SLOT", "x_ATTACHMENT_y", "_SLOT", "n_IMAGE", "c d", "BONE", "q_BONE", "zz", "a_SLOT_b", "7"]


def prune(rng, types):
    o = {"op": "prune", "ty": rng.choice(types), "dir": rng.choice(["heads", "leafs"])}
    if o["dir"] == "leafs" and rng.random() < 0.4:
        o["keep"] = [rng.randrange(9) for _ in range(rng.randrange(1, 3))]
    return o


def ops(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.75:
            out.append(prune(rng, TYPES))
        else:
            out.append({"op": "remove", "ty": rng.choice(["SLOT", "ATTACHMENT"]),
                        "pick": [rng.randrange(9) for _ in range(rng.randrange(0, 4))]})
    return out


def named(rng, c, ty_ops):
    ids = list((c["nodes"] or {}).items())
    names = rng.sample(BASES, len(ids)) if rng.random() < 0.7 else [rng.choice(BASES[:4]) for _ in ids]
    m, nodes = {}, []
    for (i, ty), b in zip(ids, names):
        if [b, ty] in nodes:
            b += i
        nodes.append([b, ty])
        m[i] = "%s_%s" % (b, ty)
    edges = [[m[a], m[b]] for a, b in c["edges"] or []]
    rng.shuffle(edges)
    return {"nodes": nodes, "edges": edges, "ops": ty_ops}


def c26(run):
    rng = random.Random("C26-%d" % run.seed)
    out = []
    total = 0
    for shape, ids, types in (("any", "abc", ["SLOT", "ATTACHMENT", "BONE"] if run.quick else TYPES),
                              ("dag", "abcd", ["SLOT", "BONE"] if run.quick else ["SLOT", "BONE", "ATTACHMENT"])):
        cases = run.model_check("MCGraph", cfg("SpecShapes", ids, types, shape), name="every %s graph of %d nodes, %d types" % (shape, len(ids), len(types)), xmx="10g")
        total += len(cases)
        limit = 5000 if run.quick else 60000
        if len(cases) > limit:
            cases = rng.sample(cases, limit)
        for c in cases:
            present = sorted(set((c["nodes"] or {}).values()))
            out.append(named(rng, c, [prune(rng, present)]
                             + ops(rng, rng.randrange(0, 3))))
    run.notes["model_graphs"] = total
    for _ in range(400 if run.quick else 10000):     # bigger graphs, mostly chains of one type
        n = rng.randrange(3, 14)
        tys = rng.choice([["SLOT"], ["BONE"], ["SLOT", "ATTACHMENT"], ["BONE", "SLOT"], TYPES])
        ids = ["n%d" % i for i in range(n)]
        d = rng.choice([0.08, 0.15, 0.3])
        c = {"nodes": {i: rng.choice(tys) for i in ids},
             "edges": [[a, b] for x, a in enumerate(ids) for y, b in enumerate(ids)
                       if x != y and (x < y or rng.random() < 0.05) and (y == x + 1 or rng.random() < d)]}
        out.append(named(rng, c, ops(rng, rng.randrange(1, 6))))
    for _ in range(500 if run.quick else 10000):     # graphs of documents
        doc = gen.Gen(rng, size=rng.choice([2, 3, 5])).doc()
        o = ops(rng, rng.randrange(1, 6))
        if rng.random() < 0.5:    # what cleaning does
            o = [{"op": "remove", "ty": "SLOT", "pick": [rng.randrange(9)]}, {"op": "remove", "ty": "ATTACHMENT", "pick": [rng.randrange(9)]},
                 {"op": "prune", "ty": "SLOT", "dir": "leafs"}, {"op": "prune", "ty": "ATTACHMENT", "dir": "heads"},
                 {"op": "prune", "ty": "ATTACHMENT", "dir": "leafs"}, {"op": "prune", "ty": "IMAGE", "dir": "heads"}]
        out.append({"doc": doc, "ops": o})
    rng.shuffle(out)
    run.drive(DRIVER, split(out, 8 if run.quick else 32), timeout=3000)


CHECKS = {"C26": c26}
