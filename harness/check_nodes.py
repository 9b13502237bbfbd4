"""C34: what graphs hold."""
import random

from common import split

DRIVER = ("drive_nodes.py", "NodeStoreTrace")
TYPES = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE", "PATH", "DEFAULT"]
SORTS = {"g": "plain", "h": "spine"}


def build(name, g):
    """Requests that make the graph of a state of the model."""
    return ([{"op": "add", "g": name, "id": i, "ty": n["ty"], "d": n["d"], "pub": "" if n["pub"] == i else n["pub"]}
             for i, n in (g["ns"] or {}).items()]
            + [{"op": "link", "g": name, "id": a, "c": b} for a, b in g["es"] or []])


def asked(rng, ids, k=3):
    res = []
    for _ in range(k):
        if rng.random() < 0.5:
            res.append({"op": "get", "g": rng.choice("gh"), "id": rng.choice(ids)})
        else:
            res.append({"op": "same", "g": rng.choice("gh"), "id": rng.choice(ids), "h": rng.choice("gh"), "c": rng.choice(ids)})
    return res


def c34(run):
    rng = random.Random("C34-%d" % run.seed)
    types = ["SLOT", "BONE"] if run.quick else ["SLOT", "BONE", "IMAGE"]
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", ' NodeIds = {"a", "b"}', " Types = {%s}" % ", ".join('"%s"' % t for t in types + ["PATH"]),
                     ' Datas = {"", "d"}', ' Pubs = {""}', " Emit = TRUE", "VIEW View", "CHECK_DEADLOCK FALSE",
                     "INVARIANTS EdgesJoinNodes TypesRespected OnlyKnownTypes",
                     "PROPERTIES OthersUntouched RejectedChangesNothing NodesNeverChange NewNodesAreBare"])
    found = run.model_check("MCNodeStore", cfg, workers=8, timeout=3000, xmx="8g", name="every transition of two graphs",
                            sample=(rng, 8000 if run.quick else 200000))
    cases = []
    for c in found:
        ops = build("g", c["g"]) + build("h", c["h"])
        o = {k: v for k, v in c["op"].items() if k != "acc"}
        cases.append({"sorts": SORTS, "ops": ops + [o] + asked(rng, ["a", "b"])})
    run.notes["model_transitions_replayed"] = len(cases)
    for p in TYPES:                      # every kind under every other one
        for c in TYPES:
            for pd in ("", "p"):
                ops = [{"op": "add", "g": n, "id": i, "ty": ty, "d": d} for n in "gh" for i, ty, d in (("a", p, pd), ("b", c, ""))]
                ops += [{"op": "link", "g": n, "id": a, "c": b} for n in "gh" for a, b in (("a", "b"), ("b", "a"), ("a", "a"), ("a", "zz"))]
                cases.append({"sorts": SORTS, "ops": ops})
    pool = ["a", "b", "c", "1", "2", "4", "", "x_SLOT", "a_BONE", "Ü"]
    for _ in range(800 if run.quick else 20000):
        sorts = rng.choice([SORTS, SORTS, {"g": "plain", "h": "plain", "i": "spine"}, {"g": "spine", "h": "spine"}])
        ids = rng.sample(pool, rng.choice([2, 3, 5, 8]))
        ops, dense = [], rng.random() < 0.4
        if dense:                        # many nodes first, then links until nodes have several parents
            n = rng.choice(sorted(sorts))
            ids = rng.sample(pool, 7)
            ops = [{"op": "add", "g": n, "id": i, "ty": rng.choice(TYPES[:5]), "d": rng.choice(["", "d"])} for i in ids]
            ops += [{"op": "link", "g": n, "id": rng.choice(ids), "c": rng.choice(ids)} for _ in range(25)]
        for _ in range(rng.choice([10, 20, 40])):
            r, n, i = rng.random(), rng.choice(sorted(sorts)), rng.choice(ids)
            if r < 0.35:
                ops.append({"op": "add", "g": n, "id": i, "gen": rng.random() < 0.25, "d": rng.choice(["", "d", "e", "f", "empty", "zero", "no", "list", "text", "word"]),
                            "ty": rng.choice(TYPES[:5] if rng.random() < 0.8 else TYPES + ["0", "3", "Z", "bone", ""]),
                            "pub": rng.choice(["", "", "p", "q", i, rng.choice(["<empty>" if i else "p", "<zero>", "<number>"])]), "idok": rng.random() < 0.97})
            elif r < 0.6:
                ops.append({"op": "link", "g": n, "id": i, "c": rng.choice(ids + ["3"]), "idok": rng.random() < 0.98})
            elif r < 0.7:
                ops.append({"op": "unlink", "g": n, "id": i, "c": rng.choice(ids)})
            elif r < 0.8:
                ops.append({"op": "remove", "g": n, "id": i, "idok": rng.random() < 0.95})
            else:
                ops += asked(rng, ids + ["3"], 1)
        cases.append({"sorts": sorts, "share": rng.random() < 0.5, "ops": ops})
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 32), timeout=3000)


CHECKS = {"C34": c34}
