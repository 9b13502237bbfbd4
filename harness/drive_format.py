"""Loads and saves documents with the real code and records them flattened."""
import json
from dcommon import CFG, TraceWriter, call, cases

from flat import boxes, flat
from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
from spine_json_lib.data.spine_version_type import SpineVersion
from spine_json_lib.spine_animation_editor import SpineAnimationEditor


def saved(doc, editor):
    a = SpineAnimationEditor(doc) if editor else JsonSpineAnimationData(doc)
    return json.loads(json.dumps(a.to_json_data()))


def down(doc, ver, out_version):
    a = JsonSpineAnimationData(doc)
    before = json.loads(json.dumps(a.to_json_data()))
    a.data.clean_unsupported_attributes(SpineVersion(ver))
    after = a.to_json_data() if out_version is None else dict(a.data.to_json(SpineVersion(out_version)), skeleton=before["skeleton"])
    return before, json.loads(json.dumps(after))


def edited(doc, edits):
    ed = SpineAnimationEditor(doc)
    for o in edits:
        if o["op"] == "scale":
            ed.scale_animation(o["x"], o["y"])
        elif o["op"] == "anims":
            ed.erase_animations(o["names"], is_safe_mode=o["safe"])
        else:
            ed.erase_skins(o["names"], is_safe_mode=o["safe"])
    return json.loads(json.dumps(ed.to_json_data()))


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        t.case(c)
        doc = json.load(open(c["file"])) if "file" in c else c["doc"]
        e = {"op": c["op"], "in": flat(doc)}
        if c["op"] == "edit":
            out, a = call(edited, doc, c["edits"])
            e["doc"] = flat(a) if out == "ok" else {}
        elif c["op"] == "load":
            out, a = call(saved, doc, c["editor"])
            e.update(doc={}, again={})
            if out == "ok":
                e["doc"] = flat(a)
                if CFG["prop"] == "C35":
                    e["boxes"] = [boxes(doc), boxes(a)]
                out, b = call(saved, a, c["editor"])
                e["again"] = flat(b) if out == "ok" else {"not": {"k": "loadable", "a": {}}}
                out = "ok"
        else:
            out, r = call(down, doc, c["ver"], c.get("save"))
            e.update(ver=c["ver"], before=flat(r[0]) if out == "ok" else {}, after=flat(r[1]) if out == "ok" else {})
        t.emit("reset", out=out, **e)
    t.close()


main()
