"""One request to a real editor."""
from dcommon import call

DEFAULTS = {"names": [], "strict": True, "safe": False, "islist": True, "fx": 1, "fy": 1}


def perform(ed, o):
    """(outcome, report, returned document)"""
    names = o.get("names") or []
    if o["op"] == "erase_anims":
        arg = list(names) if o["islist"] else {"none": None, "tuple": tuple(names), "str": "".join(names),
                                              "dict": {n: 1 for n in names}, "set": set(names)}[o["arg"]]
        kw = {"is_safe_mode": True} if o["safe"] else {}
        if not o["strict"]:
            kw["strict_mode"] = False
        out, v = call(ed.erase_animations, arg, **kw)
        if out != "ok":
            return out, None, None
        return out, {"rs": list(v.result_summary[0]), "ra": list(v.result_summary[1]), "ri": []}, v.result_data_json
    if o["op"] == "erase_skins":
        arg = list(names) if o["islist"] else {"none": None, "int": 7}[o["arg"]]
        kw = {"is_safe_mode": True} if o["safe"] else {}
        out, v = call(ed.erase_skins, arg, **kw)
        if out != "ok":
            return out, None, None
        return out, {"rs": list(v[0][0]), "ra": list(v[0][1]), "ri": list(v[1])}, None
    if o["op"] == "clean":
        out, v = call(ed.clean_animation)
        if out != "ok":
            return out, None, None
        return out, {"rs": list(v[0]), "ra": list(v[1]), "ri": []}, None
    if o["op"] == "scale":
        x, y = o["fx"], o["fy"]
        if not o["islist"]:
            x, y = {"xnone": (None, y), "ynone": (x, None), "xstr": ("2", y), "ystr": (x, "2"), "ylist": (x, [2]), "both": ("a", {})}[o["arg"]]
        out, v = call(ed.scale_animation, x, y)
        return out, {"rs": [], "ra": [], "ri": []}, None
    raise ValueError(o["op"])
