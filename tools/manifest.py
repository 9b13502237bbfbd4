#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 36)]
PENDING = os.environ.get("PENDING", "").split()
TECH = {
    "graph": "TLA+ specification of the graph machine (Graph, MCGraph) model checked with TLC; its transitions and graphs replayed in the real DAGraph, recorded traces validated by TLC (GraphTrace)",
    "text": "TLA+ specification of versions and tags (Text, MCText) model checked with TLC; enumerated strings replayed, recorded calls validated by TLC (TextTrace)",
    "editor": "TLA+ specification of documents and the editor (SpineDoc, SpineEditor, MCEditor) model checked with TLC; its behaviours and random histories replayed in the real editor, recorded traces validated by TLC (EditorTrace)",
    "container": "TLA+ specification of pruning (Graph, MCGraph) model checked with TLC; its graphs and documents replayed in the real graph container, traces validated by TLC (GraphTrace)",
    "docgraph": "TLA+ specification of the graph of a document (DocGraph) evaluated by TLC on graphs recorded from the real parser (DocGraphTrace), documents enumerated by TLC and random",
    "format": "TLA+ specification of the Spine JSON format (Format, MCFormat) model checked with TLC; enumerated documents loaded and saved by the real code, recorded traces validated by TLC (FormatTrace)",
    "files": "TLA+ specification of files and editors (FileStore, MCFileStore) model checked with TLC; its histories replayed on the real code in scratch folders, traces validated by TLC (FileTrace)",
    "faults": "TLA+ specification of files, editors and obstacles (FileStore, FileFaults, MCFileFaults) model checked with TLC; its histories replayed on the real code in scratch folders with faults injected, traces validated by TLC (FileFaultTrace)",
    "batch": "TLA+ specification of histories of requests and what they ask for in all (SpineEditor, Batch, MCBatch) model checked with TLC; its histories replayed on the real editor, the recorded ones compared with one another by TLC (BatchTrace)",
    "nodes": "TLA+ specification of what graphs hold (Graph, NodeStore, MCNodeStore) model checked with TLC; its transitions and random histories on several graphs replayed in the real DAGraph, traces validated by TLC (NodeStoreTrace)",
    "graphedit": "TLA+ specification of work on the graph of a document (GraphEdit, MCGraphEdit) model checked with TLC; its histories replayed on the real graph container, traces validated by TLC (GraphEditTrace)",
    "replicas": "TLA+ specification of editors side by side (Replicas, MCReplicas) model checked with TLC; its schedules played by the real editors in several processes, traces validated by TLC (ReplicasTrace)",
    "ownership": "TLA+ specification of ownership (Ownership, MCOwnership) model checked with TLC; its histories replayed on the real code, traces validated by TLC (OwnershipTrace)",
}
KIND = {}
for i in ALL:
    n = int(i[1:])
    KIND[i] = ("editor" if 5 <= n <= 18 else "text" if n in (19, 20) else "graph" if 21 <= n <= 25 else
               {26: "container", 27: "docgraph", 28: "format", 29: "editor", 30: "graphedit", 31: "replicas", 32: "faults", 33: "batch", 34: "nodes", 35: "format", 1: "format", 2: "format", 3: "files", 4: "ownership"}[n])
NOTE = ("The specification is checked exhaustively by TLC within the bounds named in the evidence; the implementation is bound to it "
        "by replaying those behaviours (and seeded random and fixture ones) in the real code and validating every recorded step against "
        "the specification. Trusts TLC, the drivers' projection of the real state, and CPython; says nothing about inputs outside the "
        "domains listed in DESIGN.md or larger than those explored.")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p, "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": TECH[KIND[p]],
        "level": "model_checking", "level_note": NOTE} for p in ALL if p not in PENDING],
    "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in PENDING],
    "notes": "No hooks in /repo are needed: everything observed is public state. TLA+ with TLC; see DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
