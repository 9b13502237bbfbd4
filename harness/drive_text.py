"""Runs the real version type and tag reader on strings."""
import operator
from fractions import Fraction
from dcommon import CFG, TraceWriter, call, cases

from spine_json_lib.data.spine_version_type import SpineVersion
from spine_json_lib.utils import get_tags_from_name

OPS = {k: getattr(operator, k) for k in ("lt", "le", "gt", "ge", "eq", "ne")}


def main():
    t = TraceWriter(CFG["trace"])
    for c in cases():
        t.emit("reset")
        t.case(c)
        if c["kind"] == "version":
            out, v = call(SpineVersion, c["s"])
            d = dict(major=v.major, minor=v.minor, patch=v.patch) if out == "ok" else {}
            t.emit("version", s=c["s"], out=out, **d)
            if out == "ok" and str(v) != c["s"]:
                t.emit("version", s=c["s"], out="str", **d)
        elif c["kind"] == "cmp":
            a, b = c["a"], c["b"]
            outs = {}
            ok = "ok"
            for name, f in (("vv", lambda op: op(SpineVersion(a), SpineVersion(b))),
                            ("vs", lambda op: op(SpineVersion(a), b)),
                            ("sv", lambda op: op(a, SpineVersion(b)))):
                outs[name] = {}
                for k, op in OPS.items():
                    o, r = call(f, op)
                    if o != "ok":
                        ok = "err"
                    outs[name][k] = r is True
            t.emit("cmp", a=a, b=b, out=ok, **outs)
        else:
            first = None
            for again in (False, True):     # what was asked before, and what was done with the answer, is no matter
                out, v = call(get_tags_from_name, c["s"])
                ret = {}
                if out == "ok":
                    for k, x in v.items():
                        f = Fraction(repr(x)) if isinstance(x, float) else Fraction(-12345)
                        ret[k] = [f.numerator, f.denominator]
                    if isinstance(v, dict):
                        v["scale"] = 77.0
                if (out, ret) != first:
                    t.emit("tags", s=c["s"], out=out, ret=ret)
                first = (out, ret)
    t.close()


main()
