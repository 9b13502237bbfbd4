"""Concrete Spine documents and requests: from the abstract ones the specification
enumerates, and random ones."""
import copy
import json
import random

VERSIONS = ["3.8", "3.8.59", "3.8.99", "3.8.0", "3.10", "3.9.1", "4.0.1", "4.1", "10.0.2"]
PLAIN = ["a", "b", "c", "d", "head", "arm", "s0", "s1"]
ODD = ["a_SLOT", "a_ATTACHMENT", "b_BONE", "s0_SLOT", "head_IMAGE", "x_IK", "with space", "a/b", "root", "default",
       "_SLOT", "uñí", "None_", "SLOT", "0", "a.b", "a_SLOT_SLOT", "A",
       "c, d", 'q"e: f', "tab\tx", " pad ", "{}", "\\", "é", "null",
       "%s", "new\nline", "a:b", "*", "ab", "e\u0301", "\U0001f600", "..", "__class__", "bones", "attachment", "[x]", "a]b["]
TAGGED = ["s[scale:0.5]", "t [ scale : 2 ]", "[scale:4]u", "v[scale:0.25]w", "x[scale:1]", "y[scale:1.5]",
          "n[scale:1.0078125]", "m[scale:1.00390625]o", "z[scale:0]"]
COLORS = ["ffffffff", "ffffff00", "00000000", "ff00ffff", "12345600", "ffffff01", "FFFFFF00", "000000f0", "ffffff0f", "00FF000A"]
MODES = ["normal", "onlyTranslation", "noRotationOrReflection", "noScale", "noScaleOrReflection"]


def mesh(extra=None, seed=0):
    m = {"type": "mesh", "uvs": [0, 0, 1, 0, 1, 1], "triangles": [0, 1, 2], "vertices": [1 + seed, 2.5, -3, 4, 5, 6],
         "hull": 3, "edges": [0, 2, 2, 4]}
    m.update(extra or {})
    return m


def put(d, **k):
    for n, v in k.items():
        if v not in ("", None):
            d[n] = v
    return d


# ------------------------------------------------------------------ from the specification
def concrete(ab, version="3.8.59", rng=None):
    """Abstract document (SpineDoc.tla) to JSON.  What the specification treats as opaque is
    filled with content of every kind, so that an edit has something to damage."""
    rng = rng or random.Random(0)
    doc = {"skeleton": {"spine": version, "hash": "h"}}
    if ab["dir"] != "./images/":
        doc["skeleton"]["images"] = ab["dir"]
    doc["bones"] = []
    for b in ab["bones"]:
        o = put({"name": b["n"]}, parent=b["p"], transform=b["m"] if b["m"] != "normal" else "")
        for k, n in (("scaleX", b["sx"]), ("scaleY", b["sy"])):
            v = b_value(n)
            if v != 1:
                o[k] = v
        if b["r"]:
            o.update(x=3.5, rotation=90, length=12)
        doc["bones"].append(o)
    doc["slots"] = [put({"name": s["n"], "bone": s["b"]}, attachment=s["a"], color=s["c"], dark=s["d"], blend=s["bl"])
                    for s in ab["slots"]]
    doc["skins"] = []
    for s in ab["skins"]:
        at = {}
        for sl, m in fn(s["at"]):
            for k, a in fn(m):
                at.setdefault(sl, {})[k] = attachment(a)
        doc["skins"].append({"name": s["n"], "attachments": at} if at or rng.random() < 0.5 else {"name": s["n"]})
    doc["animations"] = {}
    for n, a in fn(ab["anims"]):
        o = {}
        for sl, t in fn(a["sl"]):
            tl = {}
            if t["a"]:
                tl["attachment"] = [put({"name": k["n"] or None}, time=0 if k["t0"] else 0.25 * (i + 1)) if rng.random() < 0.5
                                    or not k["t0"] else {"name": k["n"] or None} for i, k in enumerate(t["a"])]
            if t["nc"]:
                tl[rng.choice(["color", "color", "twoColor"])] = [
                    {"time": 0.5 * i, "color": "ffffff80"} if True else {} for i in range(t["nc"])]
                if "twoColor" in tl:
                    tl["twoColor"] = [{"time": 0.5 * i, "light": "ffffffff", "dark": "000000"} for i in range(t["nc"])]
            o.setdefault("slots", {})[sl] = tl
        dr = [put({"time": float(k["t"]) if "." in k["t"] else int(k["t"])},
                  offsets=[{"slot": x["s"], "offset": x["o"]} for x in k["of"]]) for k in a["dr"]]
        if dr:
            o["drawOrder"] = dr
        for sk, m in fn(a["df"]):
            for sl, m2 in fn(m):
                for k, _ in fn(m2):
                    o.setdefault("deform", {}).setdefault(sk, {}).setdefault(sl, {})[k] = [{"time": 0.5, "vertices": [1, 2, 3]}]
        if a["r"]:
            o["bones"] = {ab["bones"][-1]["n"]: {"rotate": [{"angle": 30}, {"time": 1, "angle": 45, "curve": "stepped"}]}}
            o["events"] = [{"time": 0.3, "name": "ev", "int": 2}]
        doc["animations"][n] = o
    doc["ik"] = [{"name": "ik%d" % i, "order": i, "bones": c["b"], "target": c["t"]} for i, c in enumerate(ab["ikr"])]
    doc["transform"] = [{"name": "tr%d" % i, "order": i, "bones": c["b"], "target": c["t"], "rotation": 1} for i, c in enumerate(ab["trr"])]
    doc["path"] = [{"name": "pa%d" % i, "order": i, "bones": c["b"], "target": c["t"], "position": 2} for i, c in enumerate(ab["par"])]
    for k in ("ik", "transform", "path"):
        if not doc[k]:
            del doc[k]
    if ab["ev"]:
        doc["events"] = {"ev": {"int": 1}, "ev2": {"string": "x"}}
    return doc


def fn(m):
    return (m or {}).items() if isinstance(m, dict) else []


def b_value(n):
    v = n["i"] * 2.0 ** n["e"]
    return int(v) if v == int(v) else v


def attachment(a):
    k = a["k"]
    o = {} if k == "region" else {"type": k}
    put(o, path=a["p"], name=a["m"], color=a["c"], parent=a["par"], skin=a["sk"])
    if a["w"]:
        o["width"] = int(a["w"])
    if a["h"]:
        o["height"] = int(a["h"])
    g = a["g"]
    if k == "mesh":
        o.update(mesh(seed=int(g) if g.isdigit() else 0))
    elif k == "path":
        o.update(lengths=[1, 2], vertexCount=2, vertices=[1, 2, 3, 4])
    elif k == "region" and g:
        o.update(x=1.5, rotation=int(g) if g.isdigit() else 7)
    return o


# ------------------------------------------------------------------ random documents
class Gen:
    def __init__(self, rng, size=4, odd=0.35, tags=0.25, many=0, big=False):
        self.rng, self.size, self.odd, self.tags, self.many = rng, size, odd, tags, many
        self.big = big                  # more of everything: deep skeletons, many skins, animations, keys

    def upto(self, n, big):
        """A number from 1 to n (big: to more than that)."""
        return self.rng.randrange(1, (big if self.big else n) + 1)

    def name(self, extra=0.0):
        r = self.rng
        x = r.random()
        if x < self.tags:
            return r.choice(TAGGED)
        if x < self.tags + self.odd:
            return r.choice(ODD if r.random() < 0.6 else ODD[:12])
        if self.big:
            return r.choice(["n%d" % r.randrange(40), "n%d" % r.randrange(40), "bone " + "x" * r.randrange(120), str(r.randrange(30))])
        return r.choice(PLAIN)

    def distinct(self, n, tries=60):
        out = []
        for _ in range(tries):
            if len(out) >= n:
                break
            x = self.name()
            if out and self.rng.random() < self.odd / 2:        # almost a name that is there
                y = self.rng.choice(out)
                x = self.rng.choice([y.swapcase(), y.title(), y + " ", " " + y, y + y, y + "_", y[:-1], y + "0", y + "1", y + "2", y + "\u0301", "0" + y])
                if "[" in y or x in ("", "None"):
                    continue
            if x not in out:
                out.append(x)
        return out

    def curve(self, k):
        r = self.rng
        x = r.random()
        if x < 0.2:
            k["curve"] = "stepped"
        elif x < 0.4:
            k.update(curve=0.25, c3=0.75)
        elif x < 0.5:
            k.update(curve=0.1, c2=0.2, c4=0.9)
        return k

    def bones(self):
        r = self.rng
        names = [n for n in self.distinct(r.randrange(1, self.size + 1)) if n != "root"]
        out = [self.bone("root", None)]
        for n in names:
            out.append(self.bone(n, (out[-1] if self.big and r.random() < 0.7 else r.choice(out))["name"]))
        return out

    def bone(self, n, p):
        r = self.rng
        b = {"name": n}
        if p is not None:
            b["parent"] = p
        if r.random() < 0.4:
            b["transform"] = r.choice(MODES)
        for k in ("scaleX", "scaleY"):
            if r.random() < 0.3:
                b[k] = r.choice([2, 0.5, -1, 3, 1, 1.0, 1.25, 0])
        for k, vs in (("x", [0, 1.5, -20]), ("rotation", [0, 90.25]), ("shearX", [2]), ("length", [50, 0]), ("color", ["ff0000ff"])):
            if r.random() < 0.2:
                b[k] = r.choice(vs)
        return b

    def doc(self, anims=None):
        r = self.rng
        bones = self.bones()
        bn = [b["name"] for b in bones]
        slots = []
        att_pool = self.distinct(r.randrange(1, self.size + 2))
        names = self.distinct(r.randrange(0 if r.random() < 0.05 else 1, self.size + 2))
        names += ["p%d" % i for i in range(self.many)]
        for n in names:
            s = {"name": n, "bone": r.choice(bn)}
            if r.random() < 0.7:
                s["attachment"] = r.choice(att_pool) if r.random() < 0.9 else "missing"
            if r.random() < 0.4:
                s["color"] = r.choice(COLORS)
            if r.random() < 0.15:
                s["dark"] = "112233"
            if r.random() < 0.2:
                s["blend"] = r.choice(["additive", "normal", "multiply"])
            slots.append(s)
        sn = [s["name"] for s in slots]
        doc = {"skeleton": put({"spine": r.choice(VERSIONS), "hash": "abc", "width": 10.5},
                               images=r.choice(["", "", "./images/", "images", "../art/", "/abs/dir", "imgs/sub", "./", "art\\x", "a b/", "images//", "//x"])),
               "bones": bones, "slots": slots}
        if r.random() < 0.03:
            doc["skeleton"]["images"] = ""
        skin_names = ["default"] + [n for n in self.distinct(self.upto(4, 9) - 1) if n != "default"]
        if r.random() < 0.3:
            r.shuffle(skin_names)
        if r.random() < 0.1:
            skin_names.remove("default")
        skins = []
        for n in skin_names:
            at = {}
            for s in sn:
                if r.random() < (0.65 if not self.many else 0.4):
                    ks = r.sample(att_pool, min(len(att_pool), self.upto(3, 6)))
                    at[s] = {k: self.attachment() for k in ks}
            skins.append({"name": n, "attachments": at})
        # linked meshes: on meshes of any skin
        meshes = [(sk["name"], s, k) for sk in skins for s, m in sk["attachments"].items() for k, a in m.items()
                  if a.get("type") == "mesh"]
        for sk in skins:
            for s in sn:
                cands = [m for m in meshes if m[1] == s]
                if cands and r.random() < 0.5:
                    src = r.choice(cands)
                    key = r.choice(att_pool + [src[2]])
                    if (sk["name"], s, key) in meshes:
                        continue
                    a = {"type": "linkedmesh", "parent": src[2]}
                    if src[0] != "default" or r.random() < 0.4:
                        a["skin"] = src[0]
                    if r.random() < 0.5:
                        a["width"], a["height"] = r.choice([7, 8]), 9
                    if r.random() < 0.2:
                        a["deform"] = r.choice([False, True])
                    self.image(a)
                    sk["attachments"].setdefault(s, {})[key] = a
        doc["skins"] = skins
        targets = []
        if sn and r.random() < 0.35:
            doc["path"] = []
            for i in range(self.upto(2, 6)):
                t = r.choice(sn)
                targets.append(t)
                doc["path"].append(put({"name": "path%d" % i, "order": i, "bones": r.sample(bn, 1), "target": t},
                                       positionMode=r.choice(["", "fixed"]), rotateMix=r.choice([None, 0.5]),
                                       position=r.choice([None, 10.5])))
                for sk in skins:
                    if t in sk["attachments"] and r.random() < 0.6:
                        key = r.choice(att_pool)
                        if (sk["name"], t, key) not in meshes:
                            sk["attachments"][t][key] = self.path()
        iks = []
        if len(bn) > 1 and r.random() < 0.5:
            doc["ik"] = []
            for i in range(self.upto(2, 14)):
                t = r.choice(bn)
                iks.append("ik%d" % i)
                doc["ik"].append(put({"name": iks[-1], "order": i, "bones": r.sample([b for b in bn if b != t], 1), "target": t},
                                     mix=r.choice([None, 0.25, 0]), softness=r.choice([None, 3])))
                if r.random() < 0.3:
                    doc["ik"][-1]["bendPositive"] = False
        trs = []
        if r.random() < 0.35:
            trs = ["tr"]
            doc["transform"] = [put({"name": "tr", "order": 5, "bones": r.sample(bn, 1), "target": r.choice(bn)},
                                    x=r.choice([None, 4]), rotateMix=r.choice([None, 0, 0.5]), local=r.choice([None, True]))]
        if r.random() < 0.4:
            doc["events"] = {"ev": {}, "ev2": {"int": 3, "string": "x", "float": 0.5}}
        n_anims = self.upto(3, 8) if anims is None else anims
        doc["animations"] = {n: self.anim(doc, sn, bn, att_pool, iks, trs) for n in self.distinct(n_anims)}
        return doc

    def image(self, a):
        r = self.rng
        if r.random() < 0.4:
            a["path"] = r.choice(["img1", "img2", "sub/img3", "img 4", "a", "head", "/abs/img", "./dot", "x//y", "up/../z", "win\\img", "dir/", "img1.png"])
        if r.random() < 0.3:
            a["name"] = r.choice(["img1", "nm", "a", "b"])
        if r.random() < 0.2:
            a["color"] = r.choice(COLORS)
        return a

    def path(self):
        r = self.rng
        a = {"type": "path", "lengths": [10, 20.5], "vertexCount": 3, "vertices": [1, 2, 3, 4, 5, 6]}
        if r.random() < 0.3:
            a["closed"] = True
        return a

    def attachment(self):
        r = self.rng
        x = r.random()
        if x < 0.55:
            a = {"width": r.choice([10, 20]), "height": 30}
            for k, v in (("x", 1.25), ("rotation", -45), ("scaleX", 0.5), ("y", 0)):
                if r.random() < 0.25:
                    a[k] = v
        elif x < 0.92:
            a = mesh(seed=r.randrange(9))
            if r.random() < 0.5:
                a["width"], a["height"] = 11, 12
        else:
            a = self.path()
            if r.random() < 0.3:
                a["name"] = "nm"
            return a
        return self.image(a)

    def times(self, n):
        r = self.rng
        t, out = r.choice([0, 0, 0.0, 0.1, 0.5, 0.001]), []
        for _ in range(n):
            out.append(t)
            t = round(t + r.choice([0.1, 0.25, 1]), 4)
        return out

    def at(self, t, k):
        if t != 0 or self.rng.random() < 0.4:
            k["time"] = t
        return k

    def anim(self, doc, sn, bn, pool, iks, trs):
        r = self.rng
        a = {}
        slots = {}
        for s in sn:
            if r.random() < 0.5:
                tl = {}
                x = r.random()
                if x < 0.3:
                    tl["attachment"] = [self.at(r.choice([0, 0, 0.0, 0.5, 0.0001]), {"name": None})]
                elif x < 0.75:
                    tl["attachment"] = [self.at(t, {"name": r.choice(pool + [None])}) for t in self.times(self.upto(3, 9))]
                if r.random() < 0.3:
                    tl["color"] = [self.curve(self.at(t, {"color": r.choice(COLORS)})) for t in self.times(self.upto(2, 5))]
                if r.random() < 0.15:
                    tl["twoColor"] = [self.at(t, {"light": "ffffffff", "dark": "00ff00"}) for t in self.times(1)]
                if tl or r.random() < 0.3:
                    slots[s] = tl
        if slots:
            a["slots"] = slots
        if sn and r.random() < 0.5:
            a["drawOrder"] = []
            for t in self.times(self.upto(3, 8)):
                k = self.at(t, {})
                of = self.draw_order(sn)
                if of:
                    k["offsets"] = of
                a["drawOrder"].append(k)
        df = {}
        for sk in doc["skins"]:
            for s, m in sk["attachments"].items():
                for key, at in m.items():
                    if r.random() < 0.3 and at.get("type") in ("mesh", "linkedmesh", "path"):
                        df.setdefault(sk["name"], {}).setdefault(s, {})[key] = [
                            self.curve(self.at(t, r.choice([{}, {"vertices": [1, 2.5]}, {"offset": 2, "vertices": [0.5]}])))
                            for t in self.times(r.randrange(1, 3))]
        if df:
            a["deform"] = df
        if r.random() < 0.6:
            a["bones"] = {b: {k: [self.curve(self.at(t, r.choice(v))) for t in self.times(2)]
                              for k, v in (("rotate", [{"angle": 10}, {}]), ("translate", [{"x": 1}, {"y": 2}]),
                                           ("scale", [{"x": 2, "y": 0.5}]), ("shear", [{"x": 5}])) if r.random() < 0.5}
                          for b in r.sample(bn, r.randrange(1, len(bn) + 1))}
        if iks and r.random() < 0.4:
            a["ik"] = {iks[0]: [self.at(t, {"mix": 0.5}) for t in self.times(2)]}
        if trs and r.random() < 0.4:
            a["transform"] = {"tr": [self.at(t, {"rotateMix": 0.25}) for t in self.times(2)]}
        if doc.get("path") and r.random() < 0.4:
            a["path"] = {"path0": {"position": [self.at(t, {"position": 5}) for t in self.times(2)]}}
        if doc.get("events") and r.random() < 0.5:
            a["events"] = [self.at(t, {"name": "ev", "int": 4}) for t in self.times(2)]
        return a

    def draw_order(self, sn):
        r = self.rng
        n = len(sn)
        perm = list(range(n))
        for _ in range(self.upto(4, 20) - 1):
            i, j = r.randrange(n), r.randrange(n)
            perm.insert(j, perm.pop(i))
        pos = {s: i for i, s in enumerate(perm)}     # slot index -> position
        # slots that need an offset: all but a set that stays in increasing order
        free, last = set(), -1
        for p in range(n):
            s = perm[p]
            if s > last and r.random() < 0.8:
                free.add(s)
                last = s
        if len(free) == n and r.random() < 0.5:
            return []
        return [{"slot": sn[i], "offset": pos[i] - i} for i in range(n) if i not in free]


WRONG = {"erase_anims": ["none", "tuple", "set"], "erase_skins": ["none", "int"],
         "scale": ["xnone", "ynone", "xstr", "ystr", "ylist", "both"]}


def wrong_name(rng, doc, known, usual):
    """A name that is none of the known ones (or, by chance, another one): often one that looks much like it."""
    if not known or rng.random() < 0.4:
        return rng.choice(usual)
    k = rng.choice(known)
    return rng.choice([k.swapcase(), k.upper(), k.title(), k + " ", " " + k, k.strip(), k[:-1], k[1:], k + k, "", k + "_", "./" + k, k + "\u0301",
                       k.replace("_", "-"), k.rstrip("0123456789"), k + "0"] + [x["name"] for x in doc["bones"][:2] + doc.get("slots", [])[:2]])


def rand_ops(rng, doc, n, weights=None):
    anims = list(doc.get("animations") or {})
    skins = [s["name"] for s in doc["skins"]]
    w = {"erase_anims": 3, "erase_skins": 3, "clean": 3, "scale": 1, "reload": 1, "bad": 1}
    w.update(weights or {})
    kinds = list(w)
    out = []
    for _ in range(n):
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        if k == "clean" or k == "reload":
            out.append({"op": k})
        elif k == "scale":
            f = [2, 0.5, 3, -1, 1, 1.5, 0.25, 1.0, -2, 0]
            out.append({"op": "scale", "fx": rng.choice(f), "fy": rng.choice(f)})
            if w["bad"] and rng.random() < 0.1:
                out[-1].update(islist=False, arg=rng.choice(WRONG["scale"]))
        elif k == "erase_anims" or (k == "bad" and rng.random() < 0.6):
            names = rng.sample(anims, rng.randrange(0, len(anims) + 1)) if rng.random() < 0.3 else \
                rng.sample(anims, min(len(anims), 1))
            o = {"op": "erase_anims", "names": names, "safe": rng.random() < 0.3}
            if rng.random() < (0.9 if k == "bad" else 0.1):
                names.insert(rng.randrange(len(names) + 1), wrong_name(rng, doc, anims, ["nope", "default", "a_SLOT"]))
            if names and rng.random() < 0.1:
                names.append(rng.choice(names))
            o["strict"] = rng.random() < 0.7
            if k == "bad" and rng.random() < 0.3:
                o.update(islist=False, arg=rng.choice(["none", "tuple", "str", "dict", "set"]))
            out.append(o)
        else:
            names = rng.sample(skins, rng.randrange(0, len(skins) + 1)) if rng.random() < 0.4 else \
                rng.sample(skins, min(len(skins), 1))
            o = {"op": "erase_skins", "names": names, "safe": rng.random() < 0.4}
            if rng.random() < (0.8 if k == "bad" else 0.08):
                names.insert(rng.randrange(len(names) + 1), wrong_name(rng, doc, skins, ["nope", "a_SLOT", "Default"]))
            if names and rng.random() < 0.1:
                names.append(rng.choice(names))
            if k == "bad" and rng.random() < 0.2:
                o.update(islist=False, arg=rng.choice(["none", "int"]))
            out.append(o)
    return out
