"""Saves and loads editors in a scratch folder and records the folder after every step."""
import hashlib
import json
import os
import random
import resource
import shutil
import sys
import tempfile
from dcommon import CFG, TraceWriter, call, cases

from play import DEFAULTS, perform
from spine_json_lib.spine_animation_editor import SpineAnimationEditor

BASE = os.getcwd()
FAULTS = CFG["prop"] == "C32"


def digest(v):
    return hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]


def content(path):
    with open(path, "rb") as f:
        raw = f.read()
    try:
        return digest(json.loads(raw.decode("utf-8")))
    except ValueError:
        return "raw:" + hashlib.sha1(raw).hexdigest()[:16]


def state(ed):
    out, d = call(ed.to_json_data)
    return {"doc": digest(d) if out == "ok" else out, "img": digest(ed.images_references)}


class Folder:
    def __init__(self, names):
        self.root = tempfile.mkdtemp(prefix="files-", dir=BASE)
        self.names = names          # names of the specification -> real ones
        self.back = {v: k for k, v in names.items()}
        os.chdir(self.root)

    def real(self, p):
        return "/".join(self.names[s] for s in p.split("/"))

    def look(self):
        files, dirs = {}, []
        for top, ds, fs in os.walk(self.root):
            rel = os.path.relpath(top, self.root)
            pre = "" if rel == "." else rel + "/"
            dirs += [self.spec(pre + x) for x in ds]
            for x in fs:
                files[self.spec(pre + x)] = content(os.path.join(top, x))
        return files, sorted(dirs)

    def spec(self, p):
        return "/".join(self.back.get(s, "?" + s) for s in p.split("/"))

    def arg(self, p, style):
        r = self.real(p)
        return {"bare": r, "abs": os.path.join(self.root, r), "dot": "./" + r,
                "up": "../%s/%s" % (os.path.basename(self.root), r)}[style]

    def close(self):
        os.chdir(BASE)
        shutil.rmtree(self.root, ignore_errors=True)


def blocked(root, real):
    """Whether a file stands where a folder should be."""
    top = os.path.dirname(real)
    while len(top) > len(root):
        if os.path.isfile(top):
            return True
        top = os.path.dirname(top)
    return os.path.isfile(real)


def cut(save, arg, rng, what):
    """A save for which there is no room: files cannot grow beyond some bytes."""
    out, v = call(what)
    try:
        size = len(json.dumps(v, indent=rng.choice([4, None]))) if out == "ok" else 2
    except (TypeError, ValueError):
        size = 2
    size = max(size, 2)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    room = rng.choice([0, 1, size - 1, size - 2, rng.randrange(size), rng.randrange(size)])
    resource.setrlimit(resource.RLIMIT_FSIZE, (max(room, 0), hard))
    try:
        return call(save, arg)[0]
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def session(t, c):
    t.case(c)
    doc = json.load(open(c["file"])) if "file" in c else c["doc"]
    rng = random.Random(c["seed"])
    fold = Folder(c["names"])
    try:
        out, ed = call(SpineAnimationEditor, doc)
        files, dirs = fold.look()
        if out != "ok":       # every document here has to load
            t.emit("reset", files=files, dirs=dirs, eds={"A": {"doc": "", "img": ""}})
            t.emit("step", op="edit", ed="A", path="", above=[], content="", out=out, files=files, dirs=dirs, eds={"A": {"doc": "", "img": ""}})
            return
        eds = {"A": ed}
        t.emit("reset", files=files, dirs=dirs, eds={k: state(v) for k, v in eds.items()})
        todo = list(c["edits"])
        for h in c["hist"]:
            op, e, p = h["op"], h["e"], h["p"]
            above = ["/".join(p.split("/")[:i]) for i in range(1, len(p.split("/")))]
            rec = {"op": op, "ed": e, "path": p, "above": above, "content": ""}
            arg = fold.arg(p, rng.choice(c["styles"])) if p else None
            real = os.path.join(fold.root, fold.real(p)) if p else None
            if e and e not in eds and op not in ("load",):
                continue        # it was never loaded
            if op == "doc":
                out, _ = call(eds[e].to_json, arg)
            elif op == "img":
                out, _ = call(eds[e].save_images_json, arg)
            elif op in ("cutdoc", "cutimg"):
                out = cut(eds[e].to_json if op == "cutdoc" else eds[e].save_images_json, arg, rng,
                          eds[e].to_json_data if op == "cutdoc" else lambda: eds[e].images_references)
            elif op == "mkdir":
                if FAULTS and blocked(fold.root, real):
                    continue
                os.makedirs(real, exist_ok=True)
                out = "ok"
            elif op == "rm":
                try:
                    (os.rmdir if os.path.isdir(real) else os.remove)(real)
                except OSError:
                    continue
                out = "ok"
            elif op == "load":
                if not FAULTS and not os.path.isfile(real):
                    break       # a violation seen before
                out, new = call(SpineAnimationEditor.from_json_file, arg)
                if out == "ok":
                    eds[e] = new
            elif op == "edit":
                o = todo.pop(0) if todo else {"op": "clean"}
                perform(eds[e], dict(DEFAULTS, **o))
                out = "ok"
            else:
                if FAULTS and (blocked(fold.root, real) or os.path.isdir(real)):
                    continue
                os.makedirs(os.path.dirname(real), exist_ok=True)
                with open(real, "w") as f:
                    f.write(rng.choice(["", "{", "[1,2", "x" * 200000, json.dumps({"a": ["b"] * 20000}), "{}"]))
                rec["content"] = content(real)
                out = "ok"
            files, dirs = fold.look()
            t.emit("step", out=out, files=files, dirs=dirs, eds={k: state(v) for k, v in eds.items()}, **rec)
            if out == "hang" or (op == "load" and out != "ok" and not FAULTS):
                break
    finally:
        fold.close()


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        session(t, c)
    t.close()


main()
