"""Human-readable dump of the canonicalised functions: python3 -m vp.show NAME"""
import sys
from . import build
from .ir import *


def show(f, out=sys.stdout):
    print("==", f.name, f.where(), file=out)
    for b, l in f.blocks.items():
        print(" b%d%s -> %s" % (b, " (loop %s)" % f.loopof[b] if f.loopof[b] is not None else "", f.succ[b]), file=out)
        for i in l:
            if i.callee.startswith(IGNORED_INTR):
                continue
            if i.op in ("getelementptr", "zext", "trunc", "sext"):
                continue
            e = ""
            if i.op == "br":
                e = repr(f.val(i.args[0])) + " ? b%s : b%s" % (i["tb"], i["fb"]) if "tb" in i.d else ""
            elif i.op == "phi":
                e = " ".join("b%d:%r" % (b2, f.val(a)) for b2, a in zip(i["pb"], i.args))
            else:
                e = ", ".join(repr(f.val(a)) for a in i.args)
            print("   %4d %s %s %s%s" % (i.id, i.op, i.qn or (("IND " + repr(f.val(i["ind"]))) if "ind" in i.d else ""), e, " unwind b%s" % i["unwind"] if i.op == "invoke" else ""), file=out)
    for h, l in f.loops.items():
        print("  loop", h, l["btc"], [x["b"] for x in l["exits"]], file=out)


if __name__ == "__main__":
    with build.Work() as w:
        if sys.argv[1:2] == ["--unit"]:
            p = build.unit(w, sys.argv[2])
            pats = sys.argv[3:]
        else:
            p, n = build.core(w)
            pats = sys.argv[1:]
        for f in p.fns:
            if not pats or any(x in f.qn for x in pats):
                show(f)
