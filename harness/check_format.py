"""C01, C02, C28, C35: what a document means, before and after the library."""
import copy
import json
import os
import random

import gen
from check_editor import FIXTURES
from common import REPO, split
from flat import KNOWN

DRIVER = ("drive_format.py", "FormatTrace")
MORE = ["spine_json_lib/test/data/json_test.json", "spine_json_lib/test/data/cleaned_up/cleaned_up.json"]
BIG = ["spine_json_lib/test/data/original/elvira_original.json", "spine_json_lib/test/data/cleaned_up/elvira_cleaned_up.json"]
OLD = ["3.6.53", "3.7.94", "3.7", "2.1.27", "3.0"]
TARGETS = OLD + ["3.7.999", "3.8", "3.8.0", "3.8.99", "3.9", "3.10", "4.0.1", "10.1"]
NUMBERS = [0, 0.0, 1, 1.0, -1, -0.5, 2, 0.001, 1e-7, 1e20, 12345678, 0.1, 360, 1e300, 255, -1.0, 9007199254740993]
TEXTS = ["x", "ñandú", "a/b~c", "0", "True", "None", "ffffffff", "normal", " sp ", "\"q\"", "日本", "a" * 200]


def value(text, rng):
    if text in ("true", "false"):
        return text == "true"
    if text == "null":
        return None
    if text.startswith("#"):
        v = float(text[1:])
        return int(v) if v == int(v) and rng.random() < 0.6 else v
    if text.startswith("s:"):
        return text[2:]
    assert text[:2] in ("l:", "j:"), text
    return json.loads(text[2:])


class Builder:
    """A valid document with the given objects in it."""

    def __init__(self, rng, version):
        self.rng = rng
        self.n = 9
        r = rng
        self.doc = {"skeleton": {"spine": version},
                    "bones": [{"name": "root"}, {"name": "hip", "parent": "root"}],
                    "slots": [{"name": "s0", "bone": "root"}, {"name": "s1", "bone": "hip"}],
                    "skins": [{"name": "default", "attachments": {"s0": {"m": gen.mesh()}}}, {"name": "alt"}],
                    "ik": [], "transform": [], "path": [], "events": {"ev": {}}, "animations": {"an": {}}}
        if r.random() < 0.3:
            self.doc["skeleton"]["images"] = "img"

    def uniq(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def anim(self, *path):
        m = self.doc["animations"]
        a = m["an"] if self.rng.random() < 0.8 else m.setdefault("an2", {})
        for k in path:
            a = a.setdefault(k, {})
        return a

    def add(self, k, a):
        """Returns False if the object has no place."""
        d, r = self.doc, self.rng
        bone = lambda: r.choice(d["bones"])["name"]                      # noqa
        slot = lambda: r.choice(d["slots"])["name"]                      # noqa
        if k == "bone":
            o = dict(a, name=self.uniq("b"))
            if "parent" in a or r.random() < 0.9:
                o["parent"] = bone()
            d["bones"].append(o)
            return "parent" in o or self.fix_root(o)
        if k == "slot":
            o = dict(a, name=self.uniq("s"), bone=bone())
            d["slots"].append(o)
        elif k in ("ik", "transform", "path"):
            o = dict(a, name=self.uniq(k))
            target = slot() if k == "path" else bone()
            if "target" in a or k == "ik":
                o["target"] = target
            if "bone" in a:
                o["bone"] = bone()
            if "bones" in a or k == "ik":
                o["bones"] = r.sample([b["name"] for b in d["bones"] if b["name"] != target], 1)
            d[k].append(o)
        elif k == "skin":
            o = dict(a, name=self.uniq("sk"))
            if r.random() < 0.5:
                o["attachments"] = {}
            d["skins"].append(o)
        elif k in ("region", "mesh", "linkedmesh", "pathatt"):
            o = dict(a)
            if k != "region":
                o["type"] = {"pathatt": "path"}.get(k, k)
            if "parent" in a:
                o["parent"] = "m"
            if "skin" in a:
                o["skin"] = "default"
            if r.random() < 0.3:
                o["name"] = r.choice(["nm", "m"])
            s = "s0" if k == "linkedmesh" else slot()
            r.choice(d["skins"]).setdefault("attachments", {}).setdefault(s, {})[self.uniq("k")] = o
        elif k == "event":
            d["events"][self.uniq("e")] = dict(a)
        elif k in ("rotate", "translate", "scale", "shear"):
            self.anim("bones", bone()).setdefault(k, []).append(dict(a))
        elif k in ("attachment", "color", "twoColor"):
            o = dict(a)
            if k == "attachment":
                o["name"] = r.choice([None, "m", "x"])
            self.anim("slots", slot()).setdefault(k, []).append(o)
        elif k in ("ikkey", "transformkey"):
            self.anim(k[:-3]).setdefault(self.uniq("c") if r.random() < 0.3 else "c", []).append(dict(a))
        elif k == "pathkey":
            self.anim("path", "p").setdefault(r.choice(["position", "spacing", "mix"]), []).append(dict(a))
        elif k == "deform":
            self.anim("deform", "default", "s0").setdefault(r.choice(["m", "n"]), []).append(dict(a))
        elif k == "eventkey":
            self.anim().setdefault("events", []).append(dict(a, name="ev"))
        elif k == "drawkey":
            self.anim().setdefault("drawOrder", []).append(dict(a))
        elif k == "offset":
            o = dict(a, slot=slot())
            if o.get("offset") is None:
                o["offset"] = 0
            l = self.anim().setdefault("drawOrder", [{}])
            ofs = r.choice(l).setdefault("offsets", [])
            if all(x["slot"] != o["slot"] for x in ofs):
                ofs.append(o)
        elif k == "doc":
            if set(a) & set(KNOWN):
                return False
            d.update(a)
        elif k == "animation":
            if set(a) & {"bones", "slots", "ik", "transform", "path", "deform", "drawOrder", "events"}:
                return False
            d["animations"][self.uniq("an")] = dict(a)
        elif k == "bonetl":
            self.anim("bones", bone()).update(a)
        elif k == "slottl":
            if set(a) & {"attachment", "color", "twoColor"}:
                return False
            self.anim("slots", slot()).update(a)
        else:
            raise KeyError(k)
        return True

    @staticmethod
    def fix_root(o):
        o["parent"] = "root"
        return True

    def done(self):
        d = self.doc
        for k in ("ik", "transform", "path"):
            if not d[k] and self.rng.random() < 0.7:
                del d[k]
        if self.rng.random() < 0.2:
            # orders of the maps are of no importance
            d = dict(sorted(d.items(), key=lambda x: self.rng.random()))
        return d


def objects(run, what, rng, n=2, limit=None):
    full = what == "objects"
    invs = "LoadSaveKeepsMeaning SaveIsStable TablesMix CanonIdempotent TerseKeepsMeaning TerseIsCompact Classified DownLevelDropsOnlyCurves Show"
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " N = %d" % n, ' What = "%s"' % what, " Emit = TRUE",
                     "CHECK_DEADLOCK FALSE", "INVARIANTS " + (invs if what != "faults" else "Show")])
    found = run.model_check("MCFormat", cfg, workers=8, timeout=3000, sample=(rng, limit or 10 ** 9),
                            name={"objects": "objects with up to %d attributes" % n, "unknown": "objects with an unknown attribute",
                                  "faults": "faults"}[what] if full or what else what)
    for f in found:
        f["a"] = f["a"] or {}
    return found


def bundles(rng, objs, size, versions):
    objs = list(objs)
    rng.shuffle(objs)
    for i in range(0, len(objs), size):
        b = Builder(rng, rng.choice(versions))
        for o in objs[i:i + size]:
            b.add(o["k"], {x: value(v, rng) for x, v in o["a"].items()})
        yield b.done()


def random_objects(rng, objs, n):
    """Objects with any number of attributes and stranger values than the enumerated ones."""
    seen = {}
    for o in objs:
        for x, v in o["a"].items():
            seen.setdefault(o["k"], {}).setdefault(x, set()).add(v)
    kinds = sorted(seen)
    for _ in range(n):
        k = rng.choice(kinds)
        a = {}
        for x in rng.sample(sorted(seen[k]), rng.randrange(0, len(seen[k]) + 1)):
            v = value(rng.choice(sorted(seen[k][x])), rng)
            if x == "vertexCount":
                pass
            elif isinstance(v, (int, float)) and not isinstance(v, bool) and rng.random() < 0.5:
                v = rng.choice(NUMBERS)
            elif isinstance(v, str) and x != "curve" and rng.random() < 0.5:
                v = rng.choice(TEXTS)
            elif isinstance(v, list) and rng.random() < 0.5:
                v = [rng.choice(NUMBERS) for _ in range(rng.randrange(1, 12))]
            elif rng.random() < 0.05:
                v = None
            a[x] = v
        yield k, a


def random_docs(rng, objs, n, versions):
    for i in range(n):
        if rng.random() < 0.5:
            doc = gen.Gen(rng, size=rng.choice([2, 4, 8]), odd=rng.choice([0, 0.4])).doc()
            doc["skeleton"]["spine"] = rng.choice(versions)
        else:
            b = Builder(rng, rng.choice(versions))
            for k, a in random_objects(rng, objs, rng.randrange(1, 40)):
                b.add(k, a)
            doc = b.done()
        yield doc


def fixtures(big):
    for f in FIXTURES + MORE + (BIG if big else []):
        p = os.path.join(REPO, f)
        if os.path.exists(p) and isinstance(json.load(open(p)).get("skins"), list):
            yield p


def c01(run):
    rng = random.Random("C01-%d" % run.seed)
    objs = objects(run, "objects", rng, 2)
    run.notes["objects_replayed"] = len(objs)
    if not run.quick:
        more = objects(run, "objects", rng, 3, 150000)
    cases = []
    for doc in bundles(rng, objs, 40, gen.VERSIONS):
        cases.append({"op": "load", "doc": doc, "editor": True})
    for doc in bundles(rng, objs, 40, gen.VERSIONS + OLD * 3):
        cases.append({"op": "load", "doc": doc, "editor": False})
    if not run.quick:
        run.notes["objects_of_three_attributes_replayed"] = len(more)
        cases += [{"op": "load", "doc": doc, "editor": rng.random() < 0.5} for doc in bundles(rng, more, 60, gen.VERSIONS)]
        cases += [{"op": "load", "doc": doc, "editor": False} for doc in bundles(rng, more, 60, OLD)]
    n = 1500 if run.quick else 30000
    cases += [{"op": "load", "doc": d, "editor": rng.random() < 0.7} for d in random_docs(rng, objs, n, gen.VERSIONS)]
    cases += [{"op": "load", "doc": d, "editor": False} for d in random_docs(rng, objs, n // 3, OLD)]
    for p in fixtures(not run.quick):
        cases += [{"op": "load", "file": p, "editor": e} for e in (True, False)]
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 48), timeout=3000)


def with_fault(rng, doc, f):
    """doc with a fault (or None if it cannot have it)"""
    k, a = f["k"], f["a"]
    if k == "version":
        doc["skeleton"]["spine"] = a["v"] if rng.random() < 0.8 else rng.choice(["v", " ", "\n", "", "3.", "."]) + a["v"]
    elif k == "type":
        at = rng.choice(doc["skins"]).setdefault("attachments", {}).setdefault(rng.choice(doc["slots"])["name"], {})
        o = rng.choice([{}, {"x": 2, "y": 3, "rotation": 4}, {"vertexCount": 3, "vertices": [1, 2, 3, 4, 5, 6]}, gen.mesh(),
                        {"end": "s", "color": "ffffffff"}, {"width": 2, "height": 3, "path": "p"}])
        at["faulty"] = dict(o, type=a["t"])
    elif k == "repeat":
        key = {"bone": "bones", "slot": "slots", "ik": "ik"}[a["k"]]
        l = doc.get(key) or []
        if not l:
            return None
        o = copy.deepcopy(rng.choice(l))
        if rng.random() < 0.6:       # the same id with other attributes
            for x, v in (("color", "ff0000ff"), ("bone", "root"), ("target", "root")):
                if x in o and o["name"] != "root":
                    o[x] = v
        i = l.index(next(x for x in l if x["name"] == o["name"]))
        l.insert(rng.randrange(i + 1, len(l) + 1), o)
    elif k == "missing":
        what, x = a["k"], a["x"]
        if what == "skeleton":
            del doc["skeleton"][x]
        elif what == "offset":
            an = doc.setdefault("animations", {}).setdefault("faulty", {})
            an.setdefault("drawOrder", []).append({"time": 1, "offsets": [{"slot": s["name"], "offset": 0} for s in doc["slots"]]})
            del rng.choice(an["drawOrder"][-1]["offsets"])[x]
        elif what == "bone":
            o = {"name": "leaf", "parent": "root", "x": 2}
            del o[x]
            doc["bones"].append(o)
        elif what == "slot":
            o = {"name": "leaf", "bone": "root", "color": "ffffffff"}
            del o[x]
            doc["slots"].insert(rng.randrange(len(doc["slots"]) + 1), o)
    return doc


def c02(run):
    rng = random.Random("C02-%d" % run.seed)
    objs = objects(run, "objects", rng, 1)
    unknown = objects(run, "unknown", rng)
    faults = objects(run, "faults", rng)
    run.notes["unknown_attributes_replayed"], run.notes["faults_replayed"] = len(unknown), len(faults)
    cases = []

    def base():
        b = Builder(rng, rng.choice(gen.VERSIONS))
        for k, a in random_objects(rng, objs, rng.randrange(0, 8)):
            b.add(k, a)
        return b
    rounds = 1 if run.quick else 6
    for _ in range(rounds):
        for o in unknown:
            b = base()
            extra = {x: value(v, rng) for x, v in o["a"].items()}
            if rng.random() < 0.5:
                same = [q for q in rng.sample(objs, 20) if q["k"] == o["k"]]
                if same:
                    extra = dict({x: value(v, rng) for x, v in same[0]["a"].items()}, **extra)
            if b.add(o["k"], extra):
                cases.append({"op": "load", "doc": b.done(), "editor": True})
    for f in faults:
        reps = (30 if f["k"] != "version" else 1) * rounds
        for _ in range(reps):
            doc = base().done() if rng.random() < 0.5 else gen.Gen(rng, size=rng.choice([2, 4, 6]), odd=0.4).doc()
            if not doc["slots"] or not doc["skins"]:
                continue
            if f["k"] == "repeat" and f["a"]["k"] == "ik" and not doc.get("ik"):
                doc["ik"] = [{"name": "ik0", "bones": ["root"], "target": "hip"}] if len(doc["bones"]) > 1 and \
                    any(b["name"] == "hip" for b in doc["bones"]) else []
            doc = with_fault(rng, doc, f)
            if doc is not None:
                cases.append({"op": "load", "doc": doc, "editor": True})
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 32), timeout=3000)


def c28(run):
    rng = random.Random("C28-%d" % run.seed)
    objs = objects(run, "objects", rng, 2)
    curves = [o for o in objs if set(o["a"]) & {"c2", "c3", "c4", "curve"}]
    run.notes["objects_replayed"] = len(objs)
    cases = []

    def case(doc):
        return {"op": "down", "doc": doc, "ver": rng.choice(TARGETS), "save": rng.choice([None, None, "3.7", "3.8", "4.0"])}
    for src in (objs, curves):
        for _ in range(2 if run.quick else 12):
            cases += [case(d) for d in bundles(rng, src, 40, gen.VERSIONS + OLD)]
    cases += [case(d) for d in random_docs(rng, objs, 1200 if run.quick else 30000, gen.VERSIONS + OLD)]
    for p in fixtures(not run.quick):
        for v in (TARGETS if not run.quick else TARGETS[:2] + TARGETS[6:8]):
            cases.append({"op": "down", "file": p, "ver": v})
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 48), timeout=3000)


def edits(rng, doc):
    """Some edits; the scales are chosen so that products become 1 again."""
    ops = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice(["anims", "skins", "scale", "scale"])
        if k == "scale":
            x = rng.choice([2, 0.5, 1, 4, 0.25])
            ops.append({"op": k, "x": x, "y": rng.choice([x, 1, 2, 0.5])})
        else:
            names = list(doc["animations"]) if k == "anims" else [s["name"] for s in doc["skins"]]
            if names:
                ops.append({"op": k, "names": rng.sample(names, rng.randrange(0, len(names))), "safe": rng.random() < 0.4})
    return ops


def c35(run):
    rng = random.Random("C35-%d" % run.seed)
    objs = objects(run, "objects", rng, 2)
    run.notes["objects_replayed"] = len(objs)
    cases = [{"op": "load", "doc": d, "editor": True} for d in bundles(rng, objs, 40, gen.VERSIONS)]
    if not run.quick:
        more = objects(run, "objects", rng, 3, 150000)
        run.notes["objects_of_three_attributes_replayed"] = len(more)
        cases += [{"op": "load", "doc": d, "editor": rng.random() < 0.5} for d in bundles(rng, more, 60, gen.VERSIONS)]
    n = 1500 if run.quick else 30000
    cases += [{"op": "load", "doc": d, "editor": rng.random() < 0.7} for d in random_docs(rng, objs, n, gen.VERSIONS)]
    for i in range(n):
        doc = gen.Gen(rng, size=rng.choice([2, 4, 6]), odd=rng.choice([0, 0.4])).doc()
        for b in doc["bones"]:
            if rng.random() < 0.3:
                b.update({"scaleX": rng.choice([0.5, 2, 1, 0.25]), "scaleY": rng.choice([0.5, 2, 1, 4])})
        cases.append({"op": "edit", "doc": doc, "edits": edits(rng, doc)})
    for p in fixtures(not run.quick):
        cases.append({"op": "load", "file": p, "editor": True})
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 48), timeout=3000)


CHECKS = {"C35": c35, "C01": c01, "C02": c02, "C28": c28}
