"""Spine documents and image references as the records SpineDoc.tla speaks about."""
import hashlib
import json
from fractions import Fraction

BIG = 1 << 20


def num_text(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return repr(v)


def norm(v):
    """Content whose meaning the specification does not look into."""
    if isinstance(v, dict):
        r = {k: norm(x) for k, x in v.items()}
        return {k: x for k, x in r.items() if x is not None and x != {} and x != []}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return "#" + num_text(v)
    return v


def opaque(v):
    v = norm(v)
    if v in ({}, [], None):
        return ""
    s = json.dumps(v, sort_keys=True, ensure_ascii=True)
    return s if len(s) <= 40 else "h" + hashlib.sha1(s.encode()).hexdigest()[:16]


def txt(v):
    return "" if v is None else v if isinstance(v, str) else num_text(v)


def number(v):
    """value = i * 2^e; mantissas too long for TLC become names"""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return {"i": 1, "e": 0, "b": "?%s" % v}
    f = Fraction(v)
    if f == 0:
        return {"i": 0, "e": 0, "b": ""}
    n, e = f.numerator, -(f.denominator.bit_length() - 1)
    while n % 2 == 0:
        n //= 2
        e += 1
    if abs(n) > BIG:
        return {"i": 1 if n > 0 else -1, "e": e, "b": "%x" % abs(n)}
    return {"i": n, "e": e, "b": ""}


def rest(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


def attachment(a):
    return {"k": txt(a.get("type") or "region"), "p": txt(a.get("path")), "m": txt(a.get("name")),
            "c": txt(a.get("color")), "w": txt(a.get("width")), "h": txt(a.get("height")),
            "par": txt(a.get("parent")), "sk": txt(a.get("skin")),
            "g": opaque(rest(a, "type", "path", "name", "color", "width", "height", "parent", "skin"))}


def timeline(t):
    a = [{"n": txt(k.get("name")), "t0": (k.get("time") or 0) == 0, "r": opaque(rest(k, "name"))}
         for k in t.get("attachment") or []]
    return {"a": a, "nc": len(t.get("color") or []) + len(t.get("twoColor") or []),
            "r": opaque(rest(t, "attachment"))}


def animation(a):
    sl = {s: timeline(t) for s, t in (a.get("slots") or {}).items() if norm(t)}
    df = {}
    for sk, m in (a.get("deform") or {}).items():
        for s, m2 in m.items():
            for k, v in m2.items():
                if v:
                    df.setdefault(sk, {}).setdefault(s, {})[k] = opaque(v)
    dr = [{"t": txt(k.get("time") or 0), "of": [{"s": txt(o.get("slot")), "o": int(o.get("offset") or 0)}
                                                for o in k.get("offsets") or []]}
          for k in a.get("drawOrder") or []]
    return {"sl": sl, "dr": dr, "df": df, "r": opaque(rest(a, "slots", "deform", "drawOrder"))}


def refs(cs):
    return [{"b": list(c.get("bones") or ([c["bone"]] if c.get("bone") else [])), "t": txt(c.get("target"))} for c in cs]


def document(d):
    skins = []
    for s in d.get("skins") or []:
        at = {sl: {k: attachment(a) for k, a in m.items()} for sl, m in (s.get("attachments") or {}).items()}
        skins.append({"n": txt(s.get("name")), "at": {sl: m for sl, m in at.items() if m}})
    sk = d.get("skeleton") or {}
    return {
        "bones": [{"n": txt(b.get("name")), "p": txt(b.get("parent")), "m": txt(b.get("transform") or "normal"),
                   "sx": number(b.get("scaleX", 1)), "sy": number(b.get("scaleY", 1)),
                   "r": opaque(rest(b, "name", "parent", "transform", "scaleX", "scaleY"))} for b in d.get("bones") or []],
        "slots": [{"n": txt(s.get("name")), "b": txt(s.get("bone")), "a": txt(s.get("attachment")),
                   "c": txt(s.get("color")), "d": txt(s.get("dark")), "bl": txt(s.get("blend"))}
                  for s in d.get("slots") or []],
        "skins": skins,
        "anims": {n: animation(a) for n, a in (d.get("animations") or {}).items()},
        "ikr": refs(d.get("ik") or []), "trr": refs(d.get("transform") or []), "par": refs(d.get("path") or []),
        "ik": opaque(d.get("ik")), "tr": opaque(d.get("transform")), "pa": opaque(d.get("path")),
        "ev": opaque(d.get("events")), "sk": opaque(rest(sk, "images")),
        "dir": txt(sk.get("images", "./images/")),
    }


def images(refs_):
    out = {}
    for i, r in refs_.items():
        has = "scale" in r
        f = Fraction(r["scale"]) if has else Fraction(1)
        if f.denominator >= 1 << 26:           # not a dyadic number: the decimal it prints as
            f = Fraction(repr(r["scale"]))
        n, d = f.numerator, f.denominator
        if max(abs(n), d) >= 1 << 30:
            n, d = -1, 1
        out[i] = {"p": txt(r.get("path")), "has": has, "n": n, "d": d}
    return out
