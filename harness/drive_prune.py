"""Prunes the graph of an animation (SpineGraphContainer) and records the graph after each call."""
import re
from dcommon import CFG, TraceWriter, call, cases

from spine_json_lib.deserializer.spine_nodes import SpineNodeFactory
from spine_json_lib.spine_graph_container import SpineGraphContainer

EMPTY = {"skeleton": {"spine": "3.8"}, "bones": [], "slots": [], "skins": []}


class Session:
    def __init__(self, t):
        self.t = t

    def find(self, ids):
        """Every node: the expected ones and whatever is linked to them or to a head."""
        g = self.c.graph
        todo = [g.get_node(i) for i in ids] + [g.get_node(i) for i in list(g.get_heads_id()) + list(g.get_tails_id())]
        seen = {}
        while todo:
            n = todo.pop()
            if n is None or id(n) in seen:
                continue
            seen[id(n)] = n
            todo += list(n.children.values()) + list(n.parents.values())
        self.ids = {n.id for n in seen.values()} | set(ids)

    def obs(self):
        g = self.c.graph
        nodes = {i: n for i, n in ((i, g.get_node(i)) for i in self.ids) if n is not None}
        known = lambda k, n: k if nodes.get(k) is n and n.id == k else k + "~stale"  # noqa
        return {"nodes": {i: str(n.node_type) for i, n in nodes.items()},
                "ch": [[i, known(k, c)] for i, n in nodes.items() for k, c in n.children.items()],
                "pa": [[known(k, p), i] for i, n in nodes.items() for k, p in n.parents.items()],
                "counts": all(n.num_children == len(n.children) and n.num_parents == len(n.parents) for n in nodes.values())}

    def reset(self, c):
        if "doc" in c:
            out, self.c = call(SpineGraphContainer, c["doc"])
            if out != "ok":
                none = {"nodes": {}, "ch": [], "pa": [], "counts": True}
                self.t.case(c)
                self.t.emit("reset", forbid={}, nodes={}, edges=[], obs=none)
                self.t.emit("prune", ty="SLOT", dir="leafs", keep=[], out=out, ret=[], bases={}, obs=none)
                return False
            self.find([])
        else:
            self.c = SpineGraphContainer(EMPTY)
            g = self.c.graph
            for base, ty in c["nodes"]:
                call(g.add_node, node_id="%s_%s" % (base, ty), node_type=ty, node_data={"idx": 0, "data": {"name": base}})
            for p, k in c["edges"]:
                call(g.add_edge, p, k)
            self.find(["%s_%s" % (b, t) for b, t in c["nodes"]])
        o = self.obs()
        self.t.emit("reset", forbid={}, nodes=o["nodes"], edges=o["ch"], obs=o)
        self.t.case(c)
        return True

    def op(self, o):
        if o["op"] == "prune":
            ty, d = o["ty"], o["dir"]
            bases = {i: i[:-len(ty) - 1] for i in self.ids if i.endswith("_" + ty)}
            f = self.c.remove_heads_of_type if d == "heads" else self.c.remove_leafs_of_type
            keep = []
            if d == "leafs" and o.get("keep"):      # some nodes of that type, and a name of none
                now = sorted(i for i in bases if self.c.graph.get_node(i) is not None)
                keep = sorted({now[k % len(now)] for k in o["keep"]}) if now else []
            out, v = call(f, ty, [i[:-len(ty) - 1] for i in keep] + ["no node"]) if keep else call(f, ty)
            self.t.emit("prune", ty=ty, dir=d, keep=keep, out=out, ret=[str(x) for x in v] if out == "ok" else [], bases=bases, obs=self.obs())
        else:
            ty = o["ty"]
            now = sorted(i for i in self.ids if self.c.graph.get_node(i) is not None and i.endswith("_" + ty)
                         and self.c.graph.get_node(i).node_type == ty)
            ids = [now[k % len(now)] for k in o["pick"]] if now else []
            ids = list(dict.fromkeys(ids))
            f = self.c.remove_slots if ty == "SLOT" else self.c.remove_attachments
            out, v = call(f, [i[:-len(ty) - 1] for i in ids])
            self.t.emit("remove_ids", ids=ids, out=out, obs=self.obs())


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        s = Session(t)
        if s.reset(c):
            for o in c["ops"]:
                s.op(o)
    t.close()


main()
