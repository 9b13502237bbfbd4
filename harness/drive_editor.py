"""Plays sessions on the real editor and records every step."""
import copy
import json
import os
from dcommon import CFG, TraceWriter, call, cases

import project
from play import DEFAULTS, perform
from spine_json_lib.spine_animation_editor import SpineAnimationEditor

PROP = CFG["prop"]
TWIN, SHADOW, ASK = PROP == "C17", PROP == "C06", PROP == "C29"


def same_report(a, b):
    if a is None or b is None:
        return a is b
    return all(sorted(map(str, set(a[k]))) == sorted(map(str, set(b[k]))) for k in a)


class State:
    def __init__(self, ed):
        self.ed = ed

    def raw(self):
        out, doc = call(self.ed.to_json_data)
        return (out, json.loads(json.dumps(doc)), copy.deepcopy(self.ed.images_references)) if out == "ok" else (out, None, None)


def answers(st, raw, imgs):
    """Every query of the document, asked one after another (C29)."""
    q = {"out": "ok", "asked": [], "az": [], "np": [], "us": [], "ua": [], "sc": {}, "scr": [], "slots": [], "bones": [], "skins": [],
         "full": True, "imgs": True, "ver": True, "pure": True}
    ed = st.ed
    data = getattr(getattr(ed, "spine_anim_data", None), "data", None)

    def ask(o, name, *a):
        f = getattr(o, name, None)
        if f is None:
            return None
        out, v = call(f, *a)
        if out != "ok":
            q["out"] = "%s: %s" % (name, v)
            return None
        return v

    def same(kind, x, own):
        if kind == "slots":
            return x.bone == own["bone"] and x.attachment == own.get("attachment") and x.color == own.get("color")
        if kind == "bones":
            return x.parent == own.get("parent")
        return ({s: set(m) for s, m in (x.attachments or {}).items() if m}
                == {s: set(m) for s, m in (own.get("attachments") or {}).items() if m})

    for key, name in (("az", "get_slots_with_alpha_zero"), ("np", "get_slots_not_visible_in_setup_pose")):
        v = ask(data, name)
        if v is not None:
            q[key] = strings(v)
            q["asked"].append(key)
    v = ask(data, "get_unused_slots_and_attachments")
    if v is not None:
        q["us"], q["ua"] = strings(sorted(v[0], key=str)), strings(sorted(v[1], key=str))
        q["asked"].append("us")
    scales = {}
    for kind, name in (("slots", "get_slot"), ("bones", "get_bone"), ("skins", "get_skin")):
        own = {x["name"]: x for x in raw.get(kind) or []}
        others = {x["name"] for k in ("slots", "bones", "skins") for x in raw.get(k) or []} - set(own)
        for n in list(own) + sorted(others)[:8] + ["nobody", ""]:
            v = ask(data, name, n)
            if v is None:
                continue
            q[kind].append(n)
            if v.name != n or (n in own and not same(kind, v, own[n])):
                q["full"] = False
            if kind == "slots" and n in own:
                f = getattr(data, "get_slot_custom_scale", None)
                out, s = call(f, v) if f else ("none", None)
                if out == "ok":
                    scales[n] = s
                elif f:
                    q["scr"].append(n)
    if hasattr(data, "get_slot_custom_scale"):
        q["asked"].append("sc")
        q["sc"] = {n: {"n": r["n"], "d": r["d"]} for n, r in project.images({n: {"scale": s} for n, s in scales.items()}).items()}
    v = ask(ed, "get_images_references")
    q["imgs"] = v is None or v == imgs
    v = getattr(ed, "spine_version", None)
    q["ver"] = v is None or str(v) == str(type(v)(raw["skeleton"]["spine"])) and v == type(v)(raw["skeleton"]["spine"])
    _, raw2, imgs2 = st.raw()
    q["pure"] = raw2 == raw and list_of(raw2) == list_of(raw) and imgs2 == imgs
    return q


def list_of(x):
    return json.dumps(x)


NO_ANSWERS = {"out": "not asked", "asked": [], "az": [], "np": [], "us": [], "ua": [], "sc": {}, "scr": [], "slots": [], "bones": [],
              "skins": [], "full": True, "imgs": True, "ver": True, "pure": True}


def strings(x):
    return [v if isinstance(v, str) else "~%s" % (v,) for v in x]


def session(t, c):
    t.case(c)
    src = json.load(open(c["file"])) if "file" in c else c["doc"]
    out, ed = call(SpineAnimationEditor, src)
    empty = project.document({"skeleton": {}})
    if out != "ok":
        t.emit("reset", out=out, doc=empty, imgs={}, q=NO_ANSWERS)
        return
    st = State(ed)
    out, raw, imgs = st.raw()
    if out != "ok":
        t.emit("reset", out=out, doc=empty, imgs={}, q=NO_ANSWERS)
        return
    doc, pim = project.document(raw), project.images(imgs)
    t.emit("reset", out="ok", doc=doc, imgs=pim, q=answers(st, raw, imgs) if ASK else NO_ANSWERS)
    sh = State(SpineAnimationEditor(src)) if SHADOW else None
    for o in c["ops"]:
        o = dict(DEFAULTS, **o)
        rec = {"op": o["op"], "names": o.get("names") or [], "strict": o.get("strict", True),
               "safe": o.get("safe", False), "islist": o.get("islist", True),
               "x": project.number(o.get("fx", 1)), "y": project.number(o.get("fy", 1))}
        twin = {"doc": True, "imgs": True, "rep": True, "out": True}
        shadowsame, retsame = True, True
        tw = None
        if TWIN and o["op"] != "reload":
            tout, tw = call(SpineAnimationEditor, json.loads(json.dumps(raw)))
            if tout != "ok":
                tw = None
                twin["out"] = False
            else:
                tres = perform(tw, o)
        if o["op"] == "reload":
            ret = None
            out, ed2 = call(SpineAnimationEditor, json.loads(json.dumps(raw)))
            rep = {"rs": [], "ra": [], "ri": []}
            if out == "ok":
                st = State(ed2)
        else:
            out, rep, ret = perform(st.ed, o)
        o2, raw2, imgs2 = st.raw()
        if o2 != "ok":
            out, raw2, imgs2 = "unreadable", raw, imgs
        if ret is not None:
            retsame = json.loads(json.dumps(ret)) == raw2
        if tw is not None:
            o3, traw, timgs = State(tw).raw()
            twin = {"doc": traw == raw2, "imgs": timgs == imgs2, "rep": same_report(tres[1], rep), "out": tres[0] == out}
        if sh is not None:
            if out == "ok":
                if o["op"] == "reload":
                    o3, sraw, _ = sh.raw()
                    o3, sed = call(SpineAnimationEditor, sraw)
                    sh, srep = State(sed), rep
                else:
                    o3, srep, _ = perform(sh.ed, o)
                o4, sraw, simgs = sh.raw()
                shadowsame = o3 == out and sraw == raw2 and simgs == imgs2 and same_report(srep, rep)
            else:
                _, sraw, simgs = sh.raw()
                shadowsame = sraw == raw2 and simgs == imgs2
        raw, imgs = raw2, imgs2
        try:
            doc, pim = project.document(raw), project.images(imgs)
        except Exception:
            out = "unreadable"
        rep = rep or {"rs": [], "ra": [], "ri": []}
        t.emit("op", o=rec, out=out, doc=doc, imgs=pim, rs=strings(rep["rs"]), ra=strings(rep["ra"]),
               q=answers(st, raw, imgs) if ASK else NO_ANSWERS,
               ri=strings(rep["ri"]), retsame=retsame, shadowsame=shadowsame, twin=twin)
        if out in ("hang", "unreadable"):
            break


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        session(t, c)
    t.close()


main()
