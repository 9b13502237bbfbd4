"""C19, C20: versions and tags."""
import itertools
import random

from common import split

DRIVER = ("drive_text.py", "TextTrace")


def cfg(kind, tokens, n):
    return "\n".join(["SPECIFICATION Spec", "CONSTANTS",
                      ' Kind = "%s"' % kind, " N = %d" % n, " Emit = TRUE",
                      " Tokens = {%s}" % ",".join('"%s"' % t for t in tokens),
                      "CHECK_DEADLOCK FALSE", "INVARIANTS Show " + ("TagsOk" if kind == "tags" else "VersionOk")])


def c19(run):
    rng = random.Random(run.seed)
    tokens = ["0", "3", "8", "10", ".", "-", " ", "a"] + ([] if run.quick else ["_", "+"])
    n = 5 if run.quick else 6
    words = run.model_check("MCText", cfg("versions", tokens, n), name="every string of %d tokens" % n, xmx="8g")
    if len(words) > 300000:
        rng.shuffle(words)
        words = words[:300000]
    out = [{"kind": "version", "s": c["s"]} for c in words]
    for s in ["3.8\n", "3.8.5\t", "3,8", "v3.8", "3.8.59-beta", "3.8.5.9", "", ".", "..", "3..8", "3.8.", ".8", "3",
              "3.8.93", "1000.1000.1000", "3.x", "3x8", "3a8.1", "33 8.1", "3.8 .1", "0.0.0", "00.1"]:
        out.append({"kind": "version", "s": s})
    nums = [0, 1, 3, 7, 8, 9, 10, 59, 99, 100, 999, 1000, 1001, 2000]
    versions = ["%d.%d" % (a, b) for a in (0, 3, 4, 10) for b in (0, 7, 8, 10, 1000)]
    versions += ["%d.%d.%d" % (a, b, c) for a in (0, 3, 4, 10) for b in (0, 7, 8, 10, 1000)
                 for c in (0, 1, 59, 93, 1000, 1001)]
    pairs = list(itertools.product(versions, versions))
    if run.quick:
        rng.shuffle(pairs)
        pairs = pairs[:6000]
    for _ in range(2000 if run.quick else 60000):
        mk = lambda: ".".join(str(rng.choice(nums)) for _ in range(rng.choice([2, 3])))  # noqa
        pairs.append((mk(), mk()))
    for v in versions:
        pairs.append((v, v))
        if v.count(".") == 1:
            pairs += [(v, v + ".0"), (v + ".0", v)]
    out += [{"kind": "cmp", "a": a, "b": b} for a, b in pairs]
    run.drive(DRIVER, split(out))
    return ["__hash__ of versions is not part of the property; numbers up to 32 bits"]


def c20(run):
    rng = random.Random(run.seed)
    toks = ["[", "]", ":", " ", "scale", "0.5", "x", "-"]
    n = 6 if run.quick else 7
    out = []
    # whole tags, then the pieces of tags around each other
    words = run.model_check("MCText", cfg("tags", ["[scale:0.5]", "[ scale : 2 ]", "[x:1]", "[scale: x]", "[", "]", ":", "arm"], 4 if run.quick else 5),
                            name="sequences of tags and fragments", xmx="8g")
    out += [c["s"] for c in words]
    words = run.model_check("MCText", cfg("tags", toks, n - 1), name="every string of %d tokens" % (n - 1), xmx="10g", timeout=1500)
    w = [c["s"] for c in words]
    if len(w) > 400000:
        rng.shuffle(w)
        w = w[:400000]
    out += w
    values = ["ñ", "2é", "1", "0", "0.5", ".5", "5.", "1.5.2", "", " ", "1 2", "x1", "1x", "e5", "1e1", "1e", "007", "0.125", ".", "12.250", "3.14159", "100"]
    names = ["scale", "Scale", "scale2", "sca le", "", "s-c", "color", "-", "_", "scale ", "escalá", "ñ", "日本", "ß_1"]
    blanks = ["", " ", "  ", "\t"]
    for v in values:
        for nme in names:
            for b in blanks:
                out.append("[%s%s%s:%s%s%s]" % (b, nme, b, b, v, b))
                out.append("bone_%s[%s%s%s:%s%s%s]tail" % (v, b, nme, b, b, v, b))
    out += ["[scale:2][scale:3]", "[scale:2]a[scale:2]", "[a:1][scale:2]", "[scale:2][a:1]", "[[scale:2]]", "[scale:2]]", "[[scale:2]",
            "[scale:[scale:2]]", "a]b[scale:2]", "[scale:2", "scale:2]", "[scale:a][scale:2]", "[scale::2]", "[scale:2:3]", "[:2]", "[scale:]"]
    out += ["é[scale:2]", "[scale:2]日本", "ñ[ñ:1]", "[scale:2][ñ:1]", "[escalá:0.5]", "[ñ]", "[ñ:]", "[:ñ]", "[scale:ñ][scale:2]", "[Ωμ-é : é]"]
    # random joins of chunks
    chunks = ["[scale:2]", "[ scale:0.25 ]", "[scale :.5]", "[scale: 1.0 ]", "[foo:1]", "[scale:bar]", "arm", "_", " ", "[", "]", ":", "2", "-", "[scale:2", "ñ", "[ñ:1]", "[scale:é]"]
    for _ in range(3000 if run.quick else 100000):
        out.append("".join(rng.choice(chunks) for _ in range(rng.randrange(1, 7))))
    out = list(dict.fromkeys(out))
    run.notes["strings"] = len(out)
    run.drive(DRIVER, split([{"kind": "tags", "s": s} for s in out]))
    return ["ASCII punctuation, digits and blanks, letters of any script; values without '_' between digits and without the words inf and nan",
            "numbers are compared exactly as decimals"]


CHECKS = {"C19": c19, "C20": c20}
