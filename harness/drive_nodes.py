"""What several graphs of one process hold, request after request (C34)."""
import copy
from dcommon import CFG, TraceWriter, call, cases

from spine_json_lib.deserializer.spine_nodes import SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.factories import DefaultNodeFactory

DEFAULTS = {"id": "", "c": "", "gen": False, "idok": True, "ty": "", "d": "", "pub": ""}


PLAIN = {"empty": {}, "zero": 0, "no": False, "list": [], "text": "", "word": "w"}


def content(token):
    if token in PLAIN:
        return copy.deepcopy(PLAIN[token])
    return None if token == "" else {"token": token, "list": [1, [token]], "map": {token: {}}}


def token(d):
    if d is None:
        return ""
    for k, v in PLAIN.items():
        if type(v) is type(d) and v == d:
            return k
    t = d.get("token") if isinstance(d, dict) else None
    return t if t and d == content(t) else "~not what was given"


def public(token):
    return {"<empty>": "", "<zero>": 0, "<number>": 7}.get(token, token)


def shown(v):
    return {"": "<empty>", 0: "<zero>", 7: "<number>"}.get(v, v) if type(v) in (str, int) else "~neither text nor number"


class Graphs:
    def __init__(self, t, c):
        self.t = t
        self.sorts = c["sorts"]
        one, other = SpineNodeFactory(), DefaultNodeFactory()
        self.g = {n: DAGraph(one if c.get("share") else SpineNodeFactory()) if s == "spine" else
                  DAGraph(other) if c.get("share") else DAGraph() for n, s in self.sorts.items()}
        self.mine = {n: {} for n in self.sorts}
        self.ids = set()
        self.given = []
        t.case(c)
        t.emit("reset", sorts=self.sorts, obs=self.obs())

    def node(self, n, i, v):
        d = token(v.data)
        if v.id != i or (i in self.mine[n] and v is not self.mine[n][i]):
            d += "~another node"
        return {"ty": str(v.node_type), "d": d, "pub": i if v.public_id == i else shown(v.public_id)}

    def obs(self):
        res = {}
        for n, g in self.g.items():
            ns, es, pa = {}, [], []
            for i in self.ids:
                out, v = call(g.get_node, i)
                if out != "ok" or v is None:
                    continue
                ns[i] = self.node(n, i, v)
                es += [[i, k if k == c.id else k + "~"] for k, c in v.children.items()]
                pa += [[k if k == p.id else k + "~", i] for k, p in v.parents.items()]
            if sorted(es) != sorted(pa):
                es.append(["parents", "differ"])
            res[n] = {"ns": ns, "es": es}
        return res

    def intact(self):
        return all(a == b for a, b in self.given)

    def request(self, n, o):
        o = dict(DEFAULTS, **o)
        g, ret, itself = self.g[n], "", True
        i = o["id"] if o["idok"] else 7
        was = self.mine[n].get(o["id"])
        if o["op"] == "add":
            kw = {"node_type": int(o["ty"]) if o["ty"] in ("0", "3") else o["ty"]}
            if o["d"]:
                d = content(o["d"])
                self.given.append((d, copy.deepcopy(d)))
                kw["node_data"] = d
            if o["pub"]:
                kw["public_id"] = public(o["pub"])
            if not o["gen"]:
                kw["node_id"] = i
            out, v = call(g.add_node, **kw)
            if out == "ok":
                ret = str(getattr(v, "id", ""))
                self.ids.add(ret)
                _, w = call(g.get_node, ret)
                itself = v is not None and v is w
                if itself:
                    self.mine[n][ret] = v
            if not o["gen"] and o["idok"]:
                self.ids.add(i)
        elif o["op"] in ("link", "unlink"):
            out, v = call(g.add_edge if o["op"] == "link" else g.remove_edge, i, o["c"])
        elif o["op"] == "remove":
            out, v = call(g.remove_node_by_id, i)
            itself = out != "ok" or v is was
            if out == "ok":
                self.mine[n].pop(o["id"], None)
        self.t.emit("request", g=n, o=o, out=out, ret=ret, itself=itself, intact=self.intact(), obs=self.obs())

    def get(self, n, i):
        out, v = call(self.g[n].get_node, i)
        self.t.emit("get", g=n, id=i, out=out, found=v is not None, itself=v is not None and v is self.mine[n].get(i),
                    intact=self.intact(), obs=self.obs())

    def same(self, n, i, m, j):
        a, b = self.mine[n].get(i), self.mine[m].get(j)
        if a is None or b is None:
            return
        out, v = call(lambda: (bool(a == b), bool(a != b), hash(a) == hash(b), b in {a}))
        self.t.emit("same", a=i, b=j, out=out, eq=out == "ok" and v[0], ne=out == "ok" and v[1], hash=out == "ok" and v[2],
                    inset=out == "ok" and v[3], obs=self.obs())


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        s = Graphs(t, c)
        for o in c["ops"]:
            if o["op"] == "get":
                s.get(o["g"], o["id"])
            elif o["op"] == "same":
                s.same(o["g"], o["id"], o["h"], o["c"])
            else:
                s.request(o["g"], {k: v for k, v in o.items() if k != "g"})
    t.close()


main()
