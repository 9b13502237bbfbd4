"""Runs operations and queries on the real DAGraph and records what happened."""
import random
import sys
from dcommon import CFG, TraceWriter, call, cases

from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.factories import INodeFactory
from spine_json_lib.graph.spamnode import SpamNode

FORBID = {"B": ["A"]}


class Factory(INodeFactory):
    """Like the factories of the library: the type decides which child types are forbidden."""

    def __init__(self, forbid):
        self.forbid = forbid

    def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
        return SpamNode(id_value=node_id, order=order, data=node_data, node_type=node_type,
                        children_types_forbidden=self.forbid.get(node_type), public_id=public_id)


class Session:
    def __init__(self, trace, forbid, use_factory=True):
        self.t, self.forbid = trace, forbid
        self.g = DAGraph(Factory(forbid)) if use_factory else DAGraph()
        self.ids = set()

    def obs(self):
        g = self.g
        nodes = {}
        for i in self.ids:
            n = g.get_node(i)
            if n is not None:
                nodes[i] = n
        known = lambda k, n: k if nodes.get(k) is n and n.id == k else k + "~stale"  # noqa
        ch = [[i, known(k, c)] for i, n in nodes.items() for k, c in n.children.items()]
        pa = [[known(k, p), i] for i, n in nodes.items() for k, p in n.parents.items()]
        counts = all(n.num_children == len(n.children) and n.num_parents == len(n.parents) for n in nodes.values())
        return {"nodes": {i: str(n.node_type) for i, n in nodes.items()}, "ch": ch, "pa": pa, "counts": counts}

    def reset(self, nodes, edges, case):
        """Build a graph through the public operations, then start a session with it."""
        for i, ty in nodes:
            self.ids.add(i)
            call(self.g.add_node, node_id=i, node_type=ty)
        for p, c in edges:
            call(self.g.add_edge, p, c)
        self.t.emit("reset", forbid=self.forbid, nodes={i: str(ty) for i, ty in nodes}, edges=[list(x) for x in edges],
                    obs=self.obs())
        self.t.case(case)

    def op(self, o):
        k, g = o["op"], self.g
        if k == "add_node":
            i = o.get("id")
            if isinstance(i, str):
                self.ids.add(i)
            out, v = call(g.add_node, node_id=i, node_type=o["ty"])
            ret = v.id if out == "ok" else ""
            if out == "ok":
                self.ids.add(ret)
                if v is not g.get_node(ret):
                    ret += "~other"
            self.t.emit(k, id=i if isinstance(i, str) else "", gen=i is None,
                        idok=i is None or isinstance(i, str), ty=str(o["ty"]), out=out, ret=str(ret), obs=self.obs())
        elif k in ("add_edge", "remove_edge"):
            p, c = o["p"], o["c"]
            out, v = call(getattr(g, k), p, c)
            ok = isinstance(p, str) and isinstance(c, str)
            self.t.emit(k, p=str(p), c=str(c), idok=ok, out=out, obs=self.obs())
        elif k == "remove_node":
            out, v = call(g.remove_node_by_id, o["id"])
            if out == "ok" and v.id != o["id"]:
                out = "wrong"
            self.t.emit(k, id=str(o["id"]), idok=isinstance(o["id"], str), out=out, obs=self.obs())
        elif k in ("heads", "tails"):
            out, v = call(g.get_heads_id if k == "heads" else g.get_tails_id)
            self.t.emit(k, out=out, ret=list(v) if out == "ok" else [], obs=self.obs())
        elif k == "validate":
            out, v = call(g.validate)
            circ, unc, other = [], [], 0
            if out == "ok":
                for err in v.errors:
                    for name, ids in err.items():
                        if name == "CIRCULAR_REFS":
                            circ += list(ids)
                        elif name == "UNCONNECTED_NODES":
                            unc += list(ids)
                        else:
                            other += 1
            self.t.emit(k, out=out, circ=circ, unc=unc, other=other, obs=self.obs())
        elif k == "paths":
            kw = {} if o.get("k") is None else {"maximum_depth": o["k"]}
            out, v = call(g.get_all_paths, o["a"], o["b"], **kw)
            self.t.emit(k, a=o["a"], b=o["b"], k=20 if o.get("k") is None else o["k"], out=out,
                        ret=[list(p) for p in v] if out == "ok" else [], obs=self.obs())
        elif k == "order":
            out, v = call(g.sequential_order_of_execution)
            self.t.emit(k, out=out, ret=list(v) if out == "ok" else [], obs=self.obs())
        else:
            raise ValueError(k)


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        s = Session(t, c.get("forbid", FORBID), c.get("factory", True))
        s.reset(c["nodes"], c["edges"], c)
        for o in c["ops"]:
            s.op(o)
    t.close()


main()
