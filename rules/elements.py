"""Helpers for rules on element memory: which addresses are constructed,
destroyed or written on a path, also by loops."""
from vp.q import A, C
from vp.ir import Poly
from vp.paths import Hooks, paths
from vp import ev, ineq, loops
from .copying import Check, contradicted, is_first, is_zero, known

BASE = 1 << 40


def ld(base, off):
    return Poly.atom(("load", base + C(off)))


def vals(sample):
    """Values of atoms for terms given as (Poly, value) pairs."""
    return {t.single_atom(): v for t, v in sample}


def feasible(p, fx):
    return not contradicted(p, fx)


def addresses(f, p, e, fx, addr):
    """Values of `addr` at the executions of event e, for the given atoms;
    None when they are not determined."""
    h = loops.innermost(f, e.ins.blk)
    a = loops.first(addr)
    if h is None or not e.loops:
        if not loops.only_known(a, set(fx)):
            return None
        return [ev.Env(1, fx).ev(a)]
    tr = loops.trace(f, p.st, h, fx, e.ins.blk, limit=16)
    if tr.early or not tr.ended or tr.skips or \
       any(x != tr.last for x in tr.skipped):
        return None
    out = []
    for x in tr.its:
        if not loops.only_known(a, set(x)):
            return None
        out.append(ev.Env(1, x).ev(a))
    return out


def spans(ck, aspect, f, p, evs, addr, base, step, samples, want):
    """The events together happen exactly once for every address
    base + step * i, i in want(sample), whatever the order. `samples` are
    dictionaries of atom values consistent with each other."""
    ok = True
    n = 0
    for s in samples:
        fx = dict(s)
        fx[base.single_atom()] = BASE
        if not feasible(p, fx):
            continue
        n += 1
        got = []
        for e in evs:
            l = addresses(f, p, e, fx, addr(e))
            if l is None:
                return ck(aspect, False, p, "the elements are not determined",
                          e)
            got += l
        exp = [BASE + step * i for i in want(s)]
        if sorted(got) != sorted(exp):
            return ck(aspect, False, p, "for %s: elements %s, should be %s" %
                      ({str(Poly.atom(k)): v for k, v in s.items()},
                       [(g - BASE) / step for g in sorted(got)],
                       list(want(s))), evs[0] if evs else None)
    return ck(aspect, True) if ok and n else True


class LifeHooks(Hooks):
    """Constructors and destructors of the element type E."""

    def __init__(self, names):
        self.names = names      # callee -> kind

    def kind(self, st, I, args):
        return self.names.get(I.d.get("callee"))

    def readonly(self, st, I, kind, k):
        kind = kind or self.kind(st, I, None)
        if kind:
            return k != 0 or kind == "destroy"
        return Hooks.readonly(self, st, I, kind, k)


def life_names(ctx, u, names=("vp_make_default", "vp_make_copy",
                              "vp_make_args", "vp_destroy")):
    out = {}
    for n in names:
        l = [f for f in u.fns if f.name == n]
        if not l:
            continue
        cs = [i.d["callee"] for i in l[0].calls() if "callee" in i.d]
        ctx.R.need(len(cs) == 1, "%s: one call expected" % n)
        out[cs[0]] = {"vp_make_default": "default", "vp_make_copy": "copyc",
                      "vp_make_args": "argc", "vp_destroy": "destroy",
                      "vp_make_move": "movec"}[n]
    return out


MAKE = ("default", "copyc", "argc", "movec")


def source_of(p, e):
    """What a copy-constructed element is a copy of, through temporaries."""
    t = e.args[1]
    for _ in range(4):
        r = p.st.root(t)
        if r is None or r[0][0] != "alloca":
            return t
        m = [x for x in p.events if x.n < e.n and x.kind in MAKE and
             x.args[0] == t]
        if not m:
            return t
        m = m[-1]
        if m.kind == "default":
            return "default"
        if m.kind == "argc":
            return "args"
        t = m.args[1]
    return t
