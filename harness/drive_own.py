"""Plays histories on documents shared with callers and records the digest of every object."""
import copy
import hashlib
import json
import random
from dcommon import CFG, TraceWriter, call, cases

from play import DEFAULTS, perform
from spine_json_lib.spine_animation_editor import SpineAnimationEditor


def digest(v):
    return hashlib.sha1(json.dumps(v).encode()).hexdigest()[:16]


def state(ed):
    out, d = call(ed.to_json_data)
    return {"doc": digest(d) if out == "ok" else out, "img": digest(ed.images_references)}


def soft(v, rng):
    """Changes every container in place that can be changed while the document stays loadable."""
    if isinstance(v, dict):
        for k in list(v):
            x = v[k]
            if isinstance(x, bool):
                v[k] = not x
            elif isinstance(x, (int, float)):
                v[k] = x + 1
            elif k == "color" and isinstance(x, str):
                v[k] = "10203040"
            else:
                soft(x, rng)
    elif isinstance(v, list):
        if v and all(isinstance(x, (int, float)) for x in v):
            v[:] = [x + 1 for x in v] + [0]
        elif v and isinstance(v[0], dict) and "name" not in v[0]:
            v.append(copy.deepcopy(v[-1]))
        for x in v:
            soft(x, rng)


def hard(v, rng):
    """Changes every container at every depth, in place."""
    if isinstance(v, dict):
        for x in list(v.values()):
            hard(x, rng)
        for k in list(v):
            if not isinstance(v[k], (dict, list)):
                v[k] = "changed"
        v["added"] = ["by the caller"]
    elif isinstance(v, list):
        for x in v:
            hard(x, rng)
        for i, x in enumerate(v):
            if not isinstance(x, (dict, list)):
                v[i] = "changed"
        v.append({"added": "by the caller"})


def clear(v, rng):
    if isinstance(v, (dict, list)):
        for x in list(v.values() if isinstance(v, dict) else v):
            clear(x, rng)
        v.clear()


def one(v, rng):
    """Changes one container somewhere."""
    path = v
    while True:
        kids = [x for x in (path.values() if isinstance(path, dict) else path) if isinstance(x, (dict, list))]
        if not kids or rng.random() < 0.1:
            break
        path = rng.choice(kids)
    if isinstance(path, dict):
        path["one"] = 1
    else:
        path.append(1)


def session(t, c):
    t.case(c)
    rng = random.Random(c["seed"])
    src = json.load(open(c["file"])) if "file" in c else c["doc"]
    docs, eds, alone, texts = {"in": src}, {}, {}, {}

    def emit(e, **k):
        t.emit(e, docs={n: digest(d) for n, d in docs.items()}, eds={n: state(x) for n, x in eds.items()}, **k)
    emit("reset")
    edits = list(c["edits"])
    hist = c["hist"]
    for i, h in enumerate(hist):
        op, o, p = h["op"], h["o"], h["p"]
        rec = {"op": op, "o": o, "p": p, "out": "ok", "aout": "ok", "alone": {"doc": "", "img": ""}}
        if op == "load":
            text = json.dumps(docs[p])
            out, ed = call(SpineAnimationEditor, docs[p])
            aout, al = call(SpineAnimationEditor, json.loads(text))
            rec.update(out=out, aout=aout)
            if out != "ok" and aout != "ok" and i == 0:
                rec["aout"] = "ok"       # every input has to load
            if out != "ok" or aout != "ok":
                emit_bad = dict(rec)
                t.emit("step", docs={n: digest(d) for n, d in docs.items()},
                       eds=dict({n: state(x) for n, x in eds.items()}, **{o: {"doc": "", "img": ""}}), **emit_bad)
                return
            eds[o], alone[o] = ed, al
            rec["alone"] = state(al)
        elif op == "hand":
            out, docs[p] = call(eds[o].to_json_data)
            rec["out"] = out
        elif op == "mutate":
            later = any(x["op"] == "load" and x["p"] == o for x in hist[i + 1:])
            (soft if later else rng.choice([soft, hard, hard, clear, one]))(docs[o], rng)
        else:
            want = {"anims": "erase_anims", "skins": "erase_skins"}.get(op, op)
            cand = [x for x in edits if x["op"] == want]
            x = dict(DEFAULTS, **(cand[0] if cand else {"op": want}))
            if cand:
                edits.remove(cand[0])
            out, _, ret = perform(eds[o], x)
            aout, _, _ = perform(alone[o], json.loads(json.dumps(x)))
            rec.update(out=out, aout=aout, alone=state(alone[o]))
            if p:
                docs[p] = ret if ret is not None else call(eds[o].to_json_data)[1]
        emit("step", **rec)


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        session(t, c)
    t.close()


main()
