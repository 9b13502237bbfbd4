"""Takes one document through several histories, each in an editor of its own (C33)."""
import hashlib
import json
from dcommon import CFG, TraceWriter, call, cases

import project
from play import DEFAULTS, perform
from spine_json_lib.spine_animation_editor import SpineAnimationEditor


def plain(v):
    """Numbers by their value: 2.0 is 2."""
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def digest(v):
    return hashlib.sha1(json.dumps(plain(v), sort_keys=True, default=str).encode()).hexdigest()[:16]


def run(src, ops):
    out, ed = call(SpineAnimationEditor, json.loads(json.dumps(src)))
    got = {"rs": set(), "ra": set(), "ri": set()}
    recs, outs = [], []
    for o in ops:
        o = dict(DEFAULTS, **o)
        recs.append({"op": o["op"], "names": o.get("names") or [], "strict": o["strict"], "safe": o["safe"], "islist": o["islist"],
                     "x": project.number(o["fx"]), "y": project.number(o["fy"])})
        if o["op"] == "reload":
            out, d = call(ed.to_json_data)
            if out == "ok":
                out, ed2 = call(SpineAnimationEditor, json.loads(json.dumps(d)))
                ed = ed2 if out == "ok" else ed
            rep = None
        else:
            out, rep, _ = perform(ed, o)
        outs.append(out)
        for k in got:
            got[k] |= {str(x) for x in (rep or {}).get(k, [])}
        if out == "hang":
            break
    out, doc = call(ed.to_json_data)
    return {"ops": recs[:len(outs)], "outs": outs,
            "a": {"doc": digest(doc) if out == "ok" else out, "imgs": digest(ed.images_references),
                  "rs": sorted(got["rs"]), "ra": sorted(got["ra"]), "ri": sorted(got["ri"])}}


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        t.case(c)
        src = json.load(open(c["file"])) if "file" in c else c["doc"]
        out, _ = call(SpineAnimationEditor, json.loads(json.dumps(src)))
        t.emit("reset", out=out, anims=sorted(src.get("animations") or {}), skins=[s["name"] for s in src.get("skins") or []],
               rooted="root" in [b.get("name") for b in src.get("bones") or []])
        if out != "ok":
            continue
        for ops in c["runs"]:
            t.emit("run", **run(src, ops))
    t.close()


main()
