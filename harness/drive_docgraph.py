"""Builds the graph of documents with the real parser and records it."""
import json
from dcommon import CFG, TraceWriter, call, cases

import project
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser
from spine_json_lib.spine_animation_editor import SpineAnimationEditor
from spine_json_lib.spine_graph_container import SpineGraphContainer


def graph_of(doc):
    """Nodes and edges, from everything that can be reached from heads, tails and expected ids."""
    g = doc
    want = []
    seen, todo = {}, [g.get_node(i) for i in list(g.get_heads_id()) + list(g.get_tails_id())]
    while todo:
        n = todo.pop()
        if n is None or id(n) in seen:
            continue
        seen[id(n)] = n
        todo += list(n.children.values()) + list(n.parents.values())
    return {n.id: n for n in seen.values()}


def expected_ids(doc):
    out = ["%s_BONE" % b["name"] for b in doc["bones"]] + ["%s_SLOT" % s["name"] for s in doc.get("slots", [])]
    return out + ["%s_IK" % i["name"] for i in doc.get("ik", [])]


def doc_record(doc):
    """The document as DocGraph.tla sees it."""
    return {"bones": [{"n": b["name"], "p": b.get("parent") or ""} for b in doc["bones"]],
         "slots": [{"n": s["name"], "b": s["bone"]} for s in doc.get("slots", [])],
         "skins": [{"n": s["name"], "at": {sl: {k: {"p": a.get("path") or "", "m": a.get("name") or ""} for k, a in m.items()}
                                           for sl, m in (s.get("attachments") or {}).items() if m}} for s in doc["skins"]],
         "iks": [{"n": i["name"], "b": i.get("bones") or [], "t": i.get("target") or ""} for i in doc.get("ik", [])]}


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        t.case(c)
        doc = json.load(open(c["file"])) if "file" in c else c["doc"]
        out = "ok"
        if c.get("editor"):
            out, ed = call(SpineAnimationEditor, doc)
            if out == "ok":
                out, saved = call(ed.to_json_data)
                doc = saved if out == "ok" else doc
        text = json.dumps(doc)
        d = doc_record(doc)
        want = {k: [project.opaque(x) for x in doc.get(k, [])] for k in ("bones", "slots", "ik")}
        e = {"doc": d, "want": want, "back": {"bones": [], "slots": [], "ik": []}, "nodes": {}, "ch": [], "pa": []}
        if out == "ok":
            out, box = call(SpineGraphContainer, doc)
        if out == "ok":
            nodes = graph_of(box.graph)
            for i in expected_ids(doc):
                n = box.graph.get_node(i)
                if n is not None:
                    nodes[n.id] = n
            e["nodes"] = {i: str(n.node_type) for i, n in nodes.items()}
            e["ch"] = [[i, k] for i, n in nodes.items() for k in n.children]
            e["pa"] = [[k, i] for i, n in nodes.items() for k in n.parents]
            out, back = call(box.graph.to_json_data, SpineGraphParser)
            if out == "ok":
                e["back"] = {k: [project.opaque(x) for x in back[k]] for k in ("bones", "slots", "ik")}
            if json.dumps(doc) != text:
                out = "input_changed"
        t.emit("reset", out=out, **e)
    t.close()


if __name__ == "__main__":
    main()
