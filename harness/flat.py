"""A Spine document as the flat map of objects Format.tla speaks about: path -> [k, a]."""
import hashlib
import json

import project

TL = {"rotate": "rotate", "translate": "translate", "scale": "scale", "shear": "shear"}
STL = {"attachment": "attachment", "color": "color", "twoColor": "twoColor"}


def esc(k):
    return str(k).replace("~", "~0").replace("/", "~1")


def value(v):
    """Canonical text of an attribute value."""
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return "#" + project.num_text(v)
    if isinstance(v, str):
        s = "s:" + v
    elif isinstance(v, list):
        s = "l:" + json.dumps(deep(v), sort_keys=True)
    else:
        s = "j:" + json.dumps(deep(v), sort_keys=True)
    return s if len(s) <= 60 else s[:20] + "#" + hashlib.sha1(s.encode()).hexdigest()


def deep(v):
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items() if not (x is None or x == {} or x == [])}
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return project.num_text(v)
    return v


class Flat:
    def __init__(self):
        self.d = {}

    def obj(self, path, kind, o, skip=(), always=True):
        a = {}
        if not isinstance(o, dict):
            a["?"] = value(o)
        else:
            for k, v in o.items():
                if k not in skip:
                    a[str(k)] = value(v)
        if a or always:
            self.d[path] = {"k": kind, "a": a}

    def listed(self, path, kind, v):
        """list of objects of one kind; anything else is kept as one opaque object"""
        if isinstance(v, list):
            for i, o in enumerate(v):
                self.obj("%s/%d" % (path, i), kind, o)
        elif v:
            self.obj(path, "?" + kind, {"?": v})

    def maps(self, path, v, depth, f):
        if depth == 0:
            return f(path, v)
        if isinstance(v, dict):
            for k, x in v.items():
                self.maps("%s/%s" % (path, esc(k)), x, depth - 1, f)
        elif v:
            self.obj(path, "?map", {"?": v})


def boxes(v, path=""):
    """Paths of the lists and maps of a document that have a name, but for the offsets of draw order keys."""
    r = []
    if isinstance(v, dict):
        for k, x in v.items():
            q = "%s/%s" % (path, esc(k))
            if isinstance(x, (dict, list)):
                if not (k == "offsets" and "/drawOrder/" in path):
                    r.append(q)
                r += boxes(x, q)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (dict, list)):
                r += boxes(x, "%s/%d" % (path, i))
    return r


KNOWN = ("skeleton", "bones", "slots", "ik", "transform", "path", "skins", "events", "animations")


def flat(doc):
    f = Flat()
    f.obj("doc", "doc", doc, KNOWN, always=False)
    f.obj("skeleton", "skeleton", doc.get("skeleton"))
    f.listed("bones", "bone", doc.get("bones"))
    f.listed("slots", "slot", doc.get("slots"))
    f.listed("ik", "ik", doc.get("ik"))
    f.listed("transform", "transform", doc.get("transform"))
    f.listed("path", "path", doc.get("path"))
    f.maps("events", doc.get("events"), 1, lambda p, v: f.obj(p, "event", v))
    if isinstance(doc.get("skins"), list):
        for i, s in enumerate(doc["skins"]):
            f.obj("skins/%d" % i, "skin", s, ("attachments",))
            f.maps("skins/%d/at" % i, s.get("attachments"), 2, lambda p, v: attachment(f, p, v))
    elif doc.get("skins"):
        f.maps("skins", doc["skins"], 3, lambda p, v: attachment(f, p, v))
    f.maps("animations", doc.get("animations"), 1, lambda p, v: animation(f, p, v))
    return f.d


def attachment(f, p, v):
    t = v.get("type") if isinstance(v, dict) else None
    kind = {None: "region", "region": "region", "mesh": "mesh", "linkedmesh": "linkedmesh", "path": "pathatt"}.get(t if isinstance(t, str) or t is None else "",
                                                                         "type:%s" % value(t))
    f.obj(p, kind, v)


def animation(f, p, v):
    f.obj(p, "animation", v, ("bones", "slots", "ik", "transform", "path", "deform", "drawOrder", "events"))
    f.maps(p + "/bones", v.get("bones"), 1, lambda q, x: timelines(f, q, x, TL, "bonetl"))
    f.maps(p + "/slots", v.get("slots"), 1, lambda q, x: timelines(f, q, x, STL, "slottl"))
    f.maps(p + "/ik", v.get("ik"), 1, lambda q, x: f.listed(q, "ikkey", x))
    f.maps(p + "/transform", v.get("transform"), 1, lambda q, x: f.listed(q, "transformkey", x))
    f.maps(p + "/path", v.get("path"), 2, lambda q, x: f.listed(q, "pathkey", x))
    f.maps(p + "/deform", v.get("deform"), 3, lambda q, x: f.listed(q, "deform", x))
    f.listed(p + "/events", "eventkey", v.get("events"))
    for i, k in enumerate(v.get("drawOrder") or []):
        q = "%s/drawOrder/%d" % (p, i)
        f.obj(q, "drawkey", k, ("offsets",))
        f.listed(q + "/offsets", "offset", k.get("offsets"))


def timelines(f, p, v, kinds, kind):
    f.obj(p, kind, v, tuple(kinds), always=False)
    if isinstance(v, dict):
        for k, t in kinds.items():
            f.listed("%s/%s" % (p, k), t, v.get(k))
