"""Works on the graph of documents (SpineGraphContainer) and reads it back after every request."""
import json
import os
from dcommon import CFG, TraceWriter, call, cases

import project
from drive_docgraph import doc_record, graph_of
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.spine_graph_container import SpineGraphContainer

TYPES = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"]
KINDS = (("bones", "bones"), ("slots", "slots"), ("ik", "iks"))


def items(data):
    return {b: [{"n": project.txt(x.get("name")), "x": project.opaque(x)} for x in data.get(a) or []] for a, b in KINDS}


class Session:
    def __init__(self, t, c):
        self.t, self.c, self.known = t, c, set()

    def shape(self, g):
        for i in graph_of(g):
            self.known.add(i)
        nodes = {i: g.get_node(i) for i in self.known if g.get_node(i) is not None}
        known = lambda k, n: k if nodes.get(k) is n and n.id == k else k + "~stale"  # noqa
        return {"nodes": {i: str(n.node_type) for i, n in nodes.items()},
                "ch": [[i, known(k, x)] for i, n in nodes.items() for k, x in n.children.items()],
                "pa": [[known(k, x), i] for i, n in nodes.items() for k, x in n.parents.items()]}

    def look(self):
        """Everything that can be read from the graph now."""
        g = self.box.graph
        e = self.shape(g)
        nothing = {"bones": [], "slots": [], "iks": []}
        e.update(back=nothing, text=nothing, built={"out": "none", "nodes": {}, "ch": []}, asked=[])
        out, data = call(g.to_json_data, SpineGraphParser)
        if out == "ok":
            e["back"] = items(data)
            saved = json.dumps({k: v for k, v in data.items()})
            out, text = call(g.to_json, SpineGraphParser)
            if out == "ok":
                e["text"] = items(json.loads(text))
            again = json.loads(saved)
            again["skins"] = self.doc["skins"]
            plain = json.dumps(again, ensure_ascii=False)       # files are UTF-8, whatever the locale
            with open("graph.json", "wb") as f:
                f.write(plain.encode("utf-8", "surrogatepass"))
            out, b = call(DAGraph.create_from_json_file, SpineGraphParser, "graph.json", SpineNodeFactory())
            if out == "ok":
                mine, self.known = self.known, set(self.known)
                s = self.shape(b)
                self.known = mine
                e["built"] = {"out": "ok" if sorted(s["ch"]) == sorted(s["pa"]) else "one-sided", "nodes": s["nodes"], "ch": s["ch"]}
        for ty in TYPES:
            o1, h = call(self.box.get_heads_with_type, ty)
            o2, t = call(self.box.get_leafs_of_type, ty)
            e["asked"].append({"ty": ty, "heads": list(h) if o1 == "ok" else ["failed"], "leafs": list(t) if o2 == "ok" else ["failed"]})
        e["pure"] = self.shape(g) == {k: e[k] for k in ("nodes", "ch", "pa")}
        return e

    def run(self):
        c = self.c
        self.doc = json.load(open(c["file"], encoding="utf-8")) if "file" in c else c["doc"]
        d = doc_record(self.doc)
        want = items(self.doc)
        for k in ("bones", "slots", "iks"):
            d[k] = [dict(r, x=w["x"]) for r, w in zip(d[k], want[k])]
        self.known = {"%s_%s" % (x["n"], ty) for k, ty in (("bones", "BONE"), ("slots", "SLOT"), ("iks", "IK")) for x in d[k]}
        text = json.dumps(self.doc)
        out, self.box = call(SpineGraphContainer, self.doc)
        self.t.case(c)
        if out != "ok":
            self.t.emit("reset", out=out, doc=d, nodes={}, ch=[], pa=[])
            return
        e = self.look()
        if json.dumps(self.doc) != text:
            out = "input_changed"
        self.t.emit("reset", out=out, doc=d, ret=[], **e)
        for o in c["ops"]:
            o = {"op": o["op"], "ty": o.get("ty") or "", "ids": o.get("ids") or [], "keep": o.get("keep") or []}
            g = self.box.graph
            if o["op"] == "slots":
                out, v = call(self.box.remove_slots, list(o["ids"]))
                ret = [n.id for n in v] if out == "ok" else []
            elif o["op"] == "atts":
                out, v = call(self.box.remove_attachments, list(o["ids"]))
                ret = [n.id for n in v] if out == "ok" else []
            else:
                f = self.box.remove_heads_of_type if o["op"] == "heads" else self.box.remove_leafs_of_type
                out, v = call(f, o["ty"], *([list(o["keep"])] if o["keep"] else []))
                ret = ["%s_%s" % (x, o["ty"]) for x in v] if out == "ok" else []
            self.t.emit("op", out=out, o=o, ret=ret, **self.look())
            if out == "hang":
                break


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        Session(t, c).run()
    t.close()
    if os.path.exists("graph.json"):
        os.unlink("graph.json")


main()
