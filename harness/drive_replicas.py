"""Plays the same histories several times and records every answer.
With "plays" in its configuration it plays (one process, one hash seed); without, it starts the
processes that play and puts what they answered together."""
import hashlib
import json
import os
import subprocess
import sys
import dcommon
from dcommon import CFG, TraceWriter, call, cases

from play import DEFAULTS, perform
from spine_json_lib.spine_animation_editor import SpineAnimationEditor

PLAIN = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}      # a process whose texts are not UTF-8
SEEDS = ["0", "1", "4242"]


def digest(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:16]


def answer(ed, out, rep):
    a = {"out": out, "doc": "", "file": "", "imgs": "", "rep": ""}
    if ed is None:
        return a
    o, doc = call(ed.to_json_data)
    a["doc"] = digest(doc) if o == "ok" else o
    for k, f, name in (("file", ed.to_json, "animation.json"), ("imgs", ed.save_images_json, "images.json")):
        o, _ = call(f, name)
        a[k] = hashlib.sha1(open(name, "rb").read()).hexdigest()[:16] if o == "ok" else o
    a["imgs"] += digest(list(ed.images_references.items()))
    a["rep"] = digest(None if rep is None else {k: sorted(map(str, v)) for k, v in rep.items()})
    return a


def play(c, mode):
    """mode 0: the schedule; 1: the editors alone, last one first; 2: the schedule, reversed editors."""
    n = len(c["docs"])
    turns = [(e, k) for e, k in c["sched"]]
    if mode == 1:
        turns = [t for e in reversed(range(n)) for t in turns if t[0] == e]
    elif mode == 2:
        count, turns2 = {}, []
        own = {e: [t for t in turns if t[0] == e] for e in range(n)}
        for e, _ in reversed(turns):
            turns2.append(own[e][count.get(e, 0)])
            count[e] = count.get(e, 0) + 1
        turns = turns2
    events, eds = [], {}
    order = list(range(n))
    if mode:
        order.reverse()

    def open_(e):
        d = c["docs"][e]
        doc = json.load(open(d["file"], encoding="utf-8")) if "file" in d else json.loads(json.dumps(d))
        if mode == 1:
            with open("given.json", "wb") as f:
                f.write(json.dumps(doc, ensure_ascii=False).encode("utf-8", "surrogatepass"))
            out, ed = call(SpineAnimationEditor.from_json_file, "given.json")
        else:
            out, ed = call(SpineAnimationEditor, doc)
        eds[e] = ed if out == "ok" else None
        events.append({"e": "open", "ed": "e%d" % e, "d": c["names"][e], "a": answer(eds[e], out, None)})

    if mode != 1:
        for e in order:
            open_(e)
    for e, k in turns:
        if e not in eds:
            open_(e)
        if eds[e] is None:
            continue
        o = dict(DEFAULTS, **c["table"][e][k])
        if o["op"] == "reload":
            out, data = call(eds[e].to_json_data)
            if out == "ok":
                out, ed = call(SpineAnimationEditor, data)
                if out == "ok":
                    eds[e] = ed
            rep = None
        else:
            out, rep, _ = perform(eds[e], o)
        events.append({"e": "do", "ed": "e%d" % e, "o": "%d" % k, "a": answer(eds[e], out, rep)})
    return events


def main():
    if "mode" in CFG:
        with open(CFG["answers"], "w") as f:
            order = list(cases())
            if CFG["mode"] == 1:
                order.reverse()            # another past of the process
            for c in order:
                f.write(json.dumps([c["no"], play(c, CFG["mode"])]) + "\n")
                if dcommon.hangs >= 3:
                    break
        return
    t = TraceWriter(CFG["trace"])
    todo = list(cases())
    with open("cases.ndjson", "w") as f:
        for i, c in enumerate(todo):
            f.write(json.dumps(dict(c, no=i)) + "\n")
    procs = []
    for mode, seed in enumerate(SEEDS):
        cfg = dict(CFG, cases="../cases.ndjson", mode=mode, answers="answers")
        os.makedirs("p%d" % mode, exist_ok=True)
        procs.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), json.dumps(cfg)], cwd="p%d" % mode,
                                      env=dict(os.environ, PYTHONHASHSEED=seed, **(PLAIN if mode == 1 else {}))))
    said = []
    for mode, p in enumerate(procs):
        if p.wait():
            sys.exit("a playing process failed")
        said.append(dict(json.loads(x) for x in open("p%d/answers" % mode)))
    for i, c in enumerate(todo):
        if not all(i in s for s in said):
            continue                # a process stopped after calls that hang
        t.emit("reset")
        t.case(c)
        for s in said:
            for e in s[i]:
                t.emit(e.pop("e"), **e)
    t.close()


main()
