"""C03: files."""
import json
import random

import gen
from check_editor import FIXTURES
from check_format import fixtures
from common import split

DRIVER = ("drive_files.py", "FileTrace")
NAMES = [{"f": "f.json", "g": "g.json", "d": "d", "e": "e"}, {"f": "f", "g": "a b.json", "d": "new folder", "e": "e.x"},
         {"f": "ñ日.json", "g": ".hidden", "d": "ü", "e": "e"}, {"f": "f.json", "g": "f.json.bak", "d": "f.json.d", "e": "d"},
         {"f": "x" * 200, "g": "-g", "d": "%s", "e": "{}"}, {"f": "f.txt", "g": "f.json.json", "d": "a.json", "e": "..e"}]


def odd_text(rng, doc):
    """Texts and numbers that are hard on an encoder."""
    doc["skeleton"]["audio"] = rng.choice(["ñ/日本", "\ud800", "\u2028", "a\"b\\c\n\t\x01", "</script>", "😀"])
    doc["skeleton"]["numbers"] = [0.1, 1e300, -1e-300, 123456789012345678, 0.30000000000000004, True, False, {"a": []}]
    doc.setdefault("events", {})["é\"\n"] = {"string": rng.choice(["\x7f\u0000", "ß", "'"]), "float": rng.random()}
    return doc


def c03(run):
    rng = random.Random("C03-%d" % run.seed)
    depth = 4 if run.quick else 5
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Depth = %d" % depth, " Emit = TRUE", "CHECK_DEADLOCK FALSE",
                     "INVARIANTS TreeIsATree FileHoldsWhatWasWrittenLast ReloadIsIdentity EditsDoNotTouchFiles Show"])
    hists = run.model_check("MCFileStore", cfg, workers=8, timeout=3000, name="files, histories of %d steps" % depth,
                            sample=(rng, 2400 if run.quick else 60000))
    hists = [h for h in hists if any(s["op"] in ("doc", "img") for s in h)]
    run.notes["model_histories_replayed"] = len(hists)
    files = list(fixtures(not run.quick))
    cases = []
    for i, h in enumerate(hists):
        g = gen.Gen(rng, size=rng.choice([1, 2, 3, 6]), odd=0.4)
        doc = g.doc()
        if rng.random() < 0.5:
            doc = odd_text(rng, doc)
        c = {"doc": doc, "hist": h, "seed": i, "names": rng.choice(NAMES), "styles": rng.choice([["bare"], ["bare", "abs", "dot", "up"]]),
             "edits": [o for o in gen.rand_ops(rng, doc, 3, {"bad": 0, "reload": 0}) if o["op"] != "reload"]}
        if files and i % 150 == 0:
            c["file"] = rng.choice(files)
            c["edits"] = []
            del c["doc"]
        cases.append(c)
    # longer histories: the specification's are joined
    for i in range(150 if run.quick else 3000):
        doc = gen.Gen(rng, size=3, odd=0.4).doc()
        hist, have, made, dirs = [], set(), {"A"}, set()
        for _ in range(rng.randrange(8, 20)):
            p = rng.choice(["f", "g", "d/f", "d/e/f"])
            op = rng.choice(["doc", "doc", "img", "load", "edit", "junk"])
            e = rng.choice(sorted(made))
            if op == "load":
                if p not in have:
                    continue
                e = rng.choice("AB")
                made.add(e)
            elif op == "doc":
                have.add(p)
            elif op in ("img", "junk"):
                have.discard(p)
            hist.append({"op": op, "e": "" if op == "junk" else e, "p": "" if op == "edit" else p})
        cases.append({"doc": odd_text(rng, doc), "hist": hist, "seed": i, "names": rng.choice(NAMES), "styles": ["bare", "abs", "dot", "up"],
                      "edits": [o for o in gen.rand_ops(rng, doc, 20, {"bad": 0, "reload": 0})]})
        cases[-1]["edits"] = [o for o in cases[-1]["edits"] if o["op"] != "reload"]
    # the same path saved and loaded again at once, with contents that differ but are as long
    for i in range(60 if run.quick else 1000):
        doc = gen.Gen(rng, size=3, odd=0.2).doc()
        p = rng.choice(["f", "d/f"])
        again = [{"op": "edit", "e": "A", "p": ""}, {"op": rng.choice(["doc", "doc", "doc", "img"]), "e": "A", "p": p}, {"op": "doc", "e": "A", "p": p},
                 {"op": "load", "e": rng.choice("AB"), "p": p}]
        cases.append({"doc": doc, "hist": again * rng.randrange(2, 7), "seed": i, "names": rng.choice(NAMES), "styles": rng.choice([["bare"], ["bare", "abs", "dot", "up"]]),
                      "edits": [{"op": "scale", "fx": x, "fy": y} for x, y in rng.choices([(2, 2), (2, 0.5), (0.5, 2), (1, 2), (0.25, 4)], k=8)]})
    rng.shuffle(cases)
    run.drive(DRIVER, split(cases, 8 if run.quick else 32), timeout=3000)


def c32(run):
    rng = random.Random("C32-%d" % run.seed)
    depth = 4 if run.quick else 5
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " Depth = %d" % depth, " Emit = TRUE", "CHECK_DEADLOCK FALSE",
                     "INVARIANTS NeverSilentlyIncomplete NeverHalfBelieved TreeIsATree ObstaclesPass Show",
                     "PROPERTIES RefusalsDoNoHarm"])
    hists = run.model_check("MCFileFaults", cfg, workers=8, timeout=3000, name="files and obstacles, histories of %d steps" % depth,
                            sample=(rng, 4000 if run.quick else 80000))
    hists = [json.loads(h) for h in sorted({json.dumps(h) for h in hists})]
    hists = [h for h in hists if any(s["op"] not in ("edit", "mkdir", "junk", "rm") for s in h)]
    run.notes["model_histories_replayed"] = len(hists)
    files = list(fixtures(not run.quick))
    for _ in range(400 if run.quick else 6000):          # longer ones
        hists.append([{"op": rng.choice(["doc", "img", "cutdoc", "cutimg", "cutdoc", "load", "load", "edit", "mkdir", "junk", "rm"]),
                       "e": rng.choice("AAB"), "p": rng.choice(["f", "g", "d", "d/f", "d/e", "d/e/f"])} for _ in range(rng.randrange(6, 20))])
        for s in hists[-1]:
            s["p"] = "" if s["op"] == "edit" else s["p"]
            s["e"] = "" if s["op"] in ("mkdir", "junk", "rm") else s["e"]
    cases = []
    for i, h in enumerate(hists):
        doc = gen.Gen(rng, size=rng.choice([1, 2, 3, 6]), odd=0.4).doc()
        if rng.random() < 0.5:
            doc = odd_text(rng, doc)
        c = {"doc": doc, "hist": h, "seed": i, "names": rng.choice(NAMES), "styles": rng.choice([["bare"], ["bare", "abs", "dot", "up"]]),
             "edits": [o for o in gen.rand_ops(rng, doc, 8, {"bad": 0, "reload": 0}) if o["op"] != "reload"]}
        if files and i % 200 == 0:
            c["file"] = rng.choice(files)
            c["edits"] = []
            del c["doc"]
        cases.append(c)
    rng.shuffle(cases)
    run.drive(("drive_files.py", "FileFaultTrace"), split(cases, 8 if run.quick else 32), timeout=3000)
    return ["no room is a limit on the size of files (RLIMIT_FSIZE); permissions are not varied (the checks run as root)"]


CHECKS = {"C03": c03, "C32": c32}
