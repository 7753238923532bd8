"""Rules for vecmem::copy (properties C..)."""
import re
from vp.q import *          # noqa
from vp.q import A, C
from vp.ir import Poly
from vp.paths import Hooks, paths, recurrence, refuted, rpo
from vp import ev, ineq, loops, sample


class Unit:
    """The copy unit: virtual table slots and the layout of the views."""

    def __init__(self, ctx):
        self.p = ctx.unit("copy")
        R = ctx.R

        def one(n):
            l = [f for f in self.p.fns if f.name == n]
            R.need(l, "entry %s not found" % n)
            return l[0]
        self.one = one

        def slot(n, k=0):
            f = one(n)
            for i in f.calls():
                if "ind" in i.d:
                    a = f.val(i["ind"]).single_atom()
                    b = a[1].atoms() if a and a[0] == "load" else []
                    for x in b:
                        if x[0] == "load":
                            return (a[1] - Poly.atom(x)).cval()
            R.need(False, "%s: virtual call not found" % n)
        self.slots = {slot("vp_slot_copy"): "copy",
                      slot("vp_slot_memset"): "memset",
                      slot("vp_slot_event"): "event"}
        self.wait = slot("vp_slot_wait")

        def off(n):
            f = one(n)
            t = f.val(f.rets()[0].args[0]).single_atom()
            R.need(t and t[0] == "load", n + ": unexpected accessor")
            return (t[1] - A(0)).cval()
        self.cap, self.size, self.ptr = (off("vp_v_" + x) for x in
                                         ("cap", "size", "ptr"))
        self.jsize, self.jptr, self.jhost = (off("vp_j_" + x) for x in
                                             ("size", "ptr", "host"))
        f = one("vp_sizeof_view")
        self.vsz = f.val(f.rets()[0].args[0]).cval()


class CopyHooks(Hooks):
    def __init__(self, u, selfarg=0):
        self.u = u
        self.me = A(selfarg)

    def kind(self, st, I, args):
        if I.qn == "vecmem::copy::create_event":
            return "dummy"
        if "ind" in I.d:
            a = st.val(I["ind"]).single_atom()
            if a and a[0] == "load" and isinstance(a[1], Poly):
                v = [x for x in a[1].atoms() if x[0] == "load"]
                if len(v) == 1 and isinstance(v[0][1], Poly):
                    o = (a[1] - Poly.atom(v[0])).cval()
                    if v[0][1] == self.me:
                        return self.u.slots.get(o)
                    if v[0][1] == args[0] and o == self.u.wait:
                        return "wait"
                    if v[0][1] == args[0] and o == 8:
                        return "delete"
        return None

    def readonly(self, st, I, kind, k):
        if kind is None:
            kind = self.kind(st, I, [st.val(z) for z in I.args])
        if kind == "copy":
            return k != 3
        if kind in ("event", "dummy"):
            return k != 0
        if kind in ("wait", "delete"):
            return True
        if kind == "memset":
            return k != 2
        return False

    def effect(self, st, I, kind, args):
        if kind == "copy":
            r = st.root(args[3])
            if r:
                st.writes.append(("copy", r, args[3], args[1].cval(),
                                  args[2]))
                return True
        if kind in ("event", "dummy"):
            # events are never null
            o = Poly.atom(("out", I.id, kind, 0, 0))
            st.write(args[0], 8, o)
            st.fa.nz.add(o)
            return True
        return False


def ld(base, off):
    return Poly.atom(("load", base + C(off)))


def run_paths(ctx, u, name, facts=None, merge=False, hooks=None, **kw):
    f = u.one(name)
    ctx.R.fn(f)
    ps = paths(f, hooks or CopyHooks(u), facts, merge=merge, **kw)
    ctx.R.count("paths", len(ps))
    if ctx.R.pid in ("C01", "C04", "C06", "C07"):
        es = {e.ins.id: e for p in ps for e in p.calls("copy", "memset")}
        bad = [(e, x) for e in es.values() for x in [narrow(f, e.ins.args[1])]
               if x]
        if es:
            ctx.R.ob("width", "%s: numbers of bytes are not computed in 32 "
                     "bits" % name, not bad,
                     bad[0][0].where() if bad else "",
                     "%s at %s" % (bad[0][1].op, bad[0][1].where()) if bad else "")
    return f, ps


def narrow(f, r, seen=None):
    """A product or sum of 32 bits, or cut down to them, in the computation
    of r."""
    seen = set() if seen is None else seen
    if r["k"] != "ins" or r["i"] in seen:
        return None
    seen.add(r["i"])
    I = f.ins[r["i"]]
    if I.op in ("mul", "shl"):
        if I["t"] == "i32":
            return I
    elif I.op == "phi" and I["t"] == "i32":
        for x in I.args:
            J = f.ins[x["i"]] if x["k"] == "ins" else None
            if J and J.op == "add" and all(y["k"] == "ins" for y in J.args) \
                    and any(y["i"] == I.id for y in J.args):
                return J            # a sum
    elif I.op == "trunc" or I.op == "and" and any(
            x["k"] == "int" and 1 << 31 <= int(x["v"]) < 1 << 32
            for x in I.args):
        for x in I.args:
            if x["k"] == "ins" and f.ins[x["i"]].op in ("mul", "shl"):
                return f.ins[x["i"]]
    elif I.op not in ("zext", "sext", "add", "sub", "or", "phi", "select",
                      "freeze", "and"):
        return None
    for x in I.args:
        y = narrow(f, x, seen)
        if y:
            return y
    return None


# ------------------------------------------------------------------ views
class Vec:
    """A one dimensional view at address `b`."""

    def __init__(self, u, b, S):
        self.cap, self.size, self.ptr = (ld(b, o) for o in
                                         (u.cap, u.size, u.ptr))
        self.S, self.b = S, b


class Jag:
    """A jagged view at address `b`: descriptors of the inner vectors are
    read through the host pointer."""

    def __init__(self, u, b, S):
        self.u, self.b, self.S = u, b, S
        self.size = ld(b, u.jsize)
        self.dev = ld(b, u.jptr)
        self.host = ld(b, u.jhost)

    def inner(self, i):
        return Vec(self.u, self.host + self.u.vsz * i
                   if not isinstance(i, int) else
                   self.host + C(self.u.vsz * i), self.S)

    def locate(self, t):
        """(field, index) when t is a field of an inner descriptor."""
        a = t.single_atom() if isinstance(t, Poly) else None
        if not a or a[0] != "load":
            return None
        d = a[1] - self.host
        u = self.u
        c = d.cval() if d.cval() is not None else d.t.get((), 0)
        off = c % u.vsz
        if any(v % u.vsz for v in d.t.values() if v != c or 1) and \
           any(v % u.vsz for k, v in d.t.items() if k):
            return None
        if ("load", self.b + C(u.jhost)) in d.atoms():
            return None
        for n, o in (("cap", u.cap), ("size", u.size), ("ptr", u.ptr)):
            if off == o:
                i = Poly({k: v // u.vsz for k, v in
                          (d - C(off)).t.items()})
                return n, i
        return None


def known(p, t):
    """True/False when the path decides whether t is non-null."""
    if p.facts.ev(Poly.atom(("icmp", "eq", t, C(0)))) is True:
        return False
    if p.facts.ev(Poly.atom(("icmp", "eq", t, C(0)))) is False:
        return True
    return None


def is_zero(p, t):
    return t.cval() == 0 or known(p, t) is False


class Check:
    """Obligations over the paths of one entry: one obligation per aspect,
    failed with the first path that breaks it."""

    def __init__(self, R, entry, f):
        self.R, self.entry, self.f = R, entry, f
        self.asp = {}

    def __call__(self, aspect, ok, p=None, why="", e=None):
        x = self.asp.setdefault(aspect, [0, None])
        x[0] += 1
        if not ok and x[1] is None:
            where = (e or (p.events[-1] if p and p.events else None))
            x[1] = (where.where() if where else self.f.name,
                    why + ("\n" + p.text() if p else ""))
        return ok

    def failed(self):
        return any(x[1] for x in self.asp.values())

    def done(self, need=()):
        for a in need:
            if a not in self.asp:
                self.asp[a] = [0, (self.f.name, "never observed")]
        for a, (n, bad) in sorted(self.asp.items()):
            self.R.ob(self.entry, a, bad is None, *(bad or ("", "")))


HOSTWARD = {"unknown", "h2h"}
# numbers of copy::type::copy_type
KINDS = {"h2d": 0, "d2h": 1, "h2h": 2, "d2d": 3, "unknown": 4}


def only(t, x):
    """Is x the only unknown of t?"""
    if isinstance(t, Poly):
        return all(only(a, x) for k in t.t for a in k)
    if t == x:
        return True
    return t[0] in ("op", "icmp", "select") and \
        all(only(y, x) for y in t[1:] if isinstance(y, (Poly, tuple)))


def kinds_on(p, k):
    """Values of the copy type (an argument) possible on a path."""
    x = k.single_atom()
    out = []
    for v in KINDS.values():
        e = ev.Env(1, {x: v})
        if all(not only(c, x) or bool(e.ev(c) & 1) == pol
               for c, pol in p.conds):
            out.append(v)
    return out


def size_kind_ok(p, e, k):
    """Copy of a host variable to the target of a copy of kind k."""
    x = k.single_atom()
    if not only(e.args[4], x):
        return False
    for v in kinds_on(p, k):
        got = ev.Env(1, {x: v}).ev(e.args[4])
        want = {KINDS["h2d"]: "h2d", KINDS["d2d"]: "h2d",
                KINDS["d2h"]: "h2h", KINDS["h2h"]: "h2h"}.get(v, "unknown")
        if got not in (KINDS[want], KINDS["unknown"]):
            return False
    return True


def n_of(p, F):
    """Number of elements of a view on a path: what its size variable says
    if it has one, its capacity otherwise."""
    r = known(p, F.size)
    if r is None:
        return None
    return Poly.atom(("load", F.size)) if r else F.cap


def vector_copy(ck, p, F, T, kind, tag="", size_kinds=True):
    """One path of a copy between two one dimensional views."""
    n = n_of(p, F)
    cp = [e for e in p.calls("copy", "memset")]
    pay = [e for e in cp if e.args[3 if e.kind == "copy" else 2] == T.ptr]
    siz = [e for e in cp if e.args[3 if e.kind == "copy" else 2] == T.size]
    t = tag
    if n is None:
        ck(t + "the number of elements to copy is determined", False, p,
           "no decision on the size variable of the source")
        return
    for e in siz:
        ck(t + "size of the target set from the number of copied elements",
           e.kind == "copy" and e.args[1] == C(4) and
           p.st.read(e.args[2], 4, upto=e.path_mem) == n, p,
           "size %s, source %s" % (e.args[1], e.args[2]), e)
        if size_kinds and e.kind == "copy":
            ck(t + "kind of the size copy", size_kind_ok(p, e, kind), p,
               "", e)
    if p.end == "ret":
        k = known(p, T.size)
        if k is None:
            ck(t + "decides whether the target is resizable", False, p)
        ck(t + "size of a resizable target set once",
           len(siz) == (1 if k else 0), p,
           "%d size copies, target %sresizable" %
           (len(siz), "" if k else "not "))
        ck(t + "target capacity is not exceeded",
           ineq.implies(p.conds, "uge", T.cap, n), p,
           "capacity check not passed on this path")
        if not pay:
            ck(t + "payload copied unless empty", is_zero(p, n), p,
               "nothing copied, but the source may hold elements")
        else:
            ck(t + "payload copied once", len(pay) == 1, p, "", pay[-1])
    for e in pay:
        ck(t + "payload bytes, source and kind",
           e.kind == "copy" and e.args[1] == F.S * n and
           e.args[2] == F.ptr and e.args[4] == kind, p,
           "copies %s bytes from %s, kind %s" % (e.args[1], e.args[2],
                                                 e.args[-1]), e)


def vector_throw(ck, p, F, T, tag=""):
    n = n_of(p, F)
    ck(tag + "fails only when the target is too small",
       n is not None and ineq.implies(p.conds, "ult", T.cap, n), p)
    ck(tag + "the target is untouched on failure",
       not any(e.args[3 if e.kind == "copy" else 2] in (T.ptr, T.size)
               for e in p.calls("copy", "memset")), p)


def targets(p):
    return [(e, e.args[3 if e.kind == "copy" else 2])
            for e in p.calls("copy", "memset")]


def vectors(ctx):
    """C01"""
    R = ctx.R
    u = Unit(ctx)
    S = 12
    # view -> view
    f, ps = run_paths(ctx, u, "vp_copy")
    ck = Check(R, "vector to vector", f)
    F, T = Vec(u, A(1), S), Vec(u, A(2), S)
    for p in ps:
        if p.end == "ret":
            vector_copy(ck, p, F, T, A(3))
        elif p.end == "throw":
            vector_throw(ck, p, F, T)
        for e, d in targets(p):
            ck("writes the target or a local variable only",
               d in (T.ptr, T.size) or p.st.root(d), p, str(d), e)
    ck.done(["payload bytes, source and kind",
             "fails only when the target is too small",
             "size of the target set from the number of copied elements"])
    # view -> std::vector
    f, ps = run_paths(ctx, u, "vp_copy_std")
    ck = Check(R, "vector to std::vector", f)
    data = ld(A(2), 0)
    for p in ps:
        if p.end != "ret":
            continue
        n = n_of(p, F)
        rs = [e for e in p.events if e.ins.qn == "std::vector::resize" and
              e.args[0] == A(2)]
        ck("resized to the number of elements",
           n is not None and len(rs) == 1 and rs[0].args[1] == n, p)
        pay = [e for e in p.calls("copy") if e.args[3] == data]
        ck("payload copied once unless empty", len(pay) == 1 or
           not pay and n is not None and is_zero(p, n), p)
        for e in pay:
            ck("payload bytes, source and kind",
               e.args[1] == S * n and e.args[2] == F.ptr and
               e.args[4] == A(3) and rs and e.n > rs[0].n, p,
               str(e.args), e)
    ck.done(["payload bytes, source and kind"])
    # to()
    f, ps = run_paths(ctx, u, "vp_to")
    ck = Check(R, "vector to new buffer", f)
    O = A(4)
    for p in ps:
        if p.end != "ret":
            continue
        n = n_of(p, F)
        al = [e for e in p.events if e.ins.qn.endswith("::allocate")]
        optr = p.load(O + C(u.ptr))
        ck("the buffer describes the copied elements",
           n is not None and p.load(O + C(u.cap), 4) == n, p,
           "capacity %s" % p.load(O + C(u.cap), 4))
        pay = [e for e in p.calls("copy") if e.args[2] == F.ptr]
        ck("payload copied once unless empty", len(pay) == 1 or
           not pay and n is not None and is_zero(p, n), p)
        for e in pay:
            ck("payload bytes, target and kind",
               e.args[1] == S * n and e.args[4] == A(3) and
               e.args[3] == optr and len(al) == 1 and
               al[0].args[0] == A(2) and e.n > al[0].n, p, str(e.args), e)
            ck("the payload lies in the new allocation",
               al and al[0].ret.single_atom() in atoms_deep(optr) and
               ev_fits(optr, al[0].ret, al[0].args[1], e.args[1]), p,
               "%s for %s bytes" % (optr, al and al[0].args[1]), e)
    ck.done(["payload bytes, target and kind",
             "the payload lies in the new allocation"])
    # get_size
    f, ps = run_paths(ctx, u, "vp_get_size")
    ck = Check(R, "get_size", f)
    for p in ps:
        if p.end == "ret":
            n = n_of(p, F)
            ck("returns the size variable or the capacity",
               n is not None and p.ret == n, p, str(p.ret))
    ck.done(["returns the size variable or the capacity"])
    # setup / memset
    f, ps = run_paths(ctx, u, "vp_setup")
    ck = Check(R, "setup of a vector", f)
    for p in ps:
        if p.end != "ret":
            continue
        ms = targets(p)
        k = known(p, F.size)
        if not ms:
            ck("size variable zeroed when there is one", k is False or
               is_zero(p, F.cap), p)
        for e, d in ms:
            ck("zeroes exactly the size variable",
               e.kind == "memset" and d == F.size and e.args[1] == C(4) and
               e.args[3] == C(0), p, str(e.args), e)
            ck("zeroed once", len(ms) == 1, p)
    ck.done(["zeroes exactly the size variable"])
    f, ps = run_paths(ctx, u, "vp_memset")
    ck = Check(R, "memset of a vector", f)
    for p in ps:
        if p.end != "ret":
            continue
        ms = targets(p)
        if not ms:
            ck("whole capacity is set", is_zero(p, F.cap), p)
        for e, d in ms:
            ck("sets exactly the payload",
               len(ms) == 1 and e.kind == "memset" and d == F.ptr and
               e.args[1] == S * F.cap and e.args[3] == A(2), p,
               str(e.args), e)
    ck.done(["sets exactly the payload"])


def atoms_deep(t, out=None):
    out = set() if out is None else out
    if isinstance(t, Poly):
        for k in t.t:
            for a in k:
                out.add(a)
                for x in a[1:]:
                    atoms_deep(x, out)
    elif isinstance(t, tuple):
        for x in t:
            atoms_deep(x, out)
    return out


def ev_fits(ptr, base, total, n):
    """ptr .. ptr+n lies within base .. base+total (evaluated; the base is
    assumed aligned as the allocation asked for)."""
    b = base.single_atom()
    for k in range(60):
        e = ev.Env(k, {b: 4096 * (k + 1)})
        for a in atoms_deep(total) | atoms_deep(n):
            if a[0] in ("load", "arg", "phi"):
                e.fixed[a] = [1, 2, 3, 5, 7, 100, 4001][k % 7]
        x, t, m = e.ev(ptr), e.ev(total), e.ev(n)
        if x < e.ev(base) or x + m > e.ev(base) + t:
            return False
    return True


# ------------------------------------------------------------------ jagged
def zvec(p, t):
    """(data atom, number of elements) when t is the data of a vector made on
    this path with a known number of elements."""
    for a in atoms_deep(t):
        if a[0] == "out" and len(a) == 5 and a[4] == 0 and \
           a[2].startswith("std::vector::_M_") and "initialize" in a[2]:
            for e in p.events:
                if e.ins.id == a[1]:
                    return a, e.args[1]
    return None


def vec_env(p, fixed):
    """Adds begin/end of the vectors made on this path to an environment."""
    out = dict(fixed)
    k = 0
    for e in p.events:
        if e.ins.qn.startswith("std::vector::_M_") and \
           "initialize" in e.ins.qn and len(e.args) > 1:
            k += 1
            n = ev.Env(1, out).ev(e.args[1])
            b = (1 << 30) + (k << 24)
            out[("out", e.ins.id, e.ins.qn, 0, 0)] = b
            out[("out", e.ins.id, e.ins.qn, 0, 8)] = b + 4 * n
    return out


def is_first(e):
    """Not an event of the second visit of a loop."""
    return not e.second


def infeasible(p, N, M=None):
    """The path contradicts what is known about the vectors made on it."""
    R = (0, 1, 2, 3, 4, 1000)
    return all(contradicted(p, vec_env(p, {N.single_atom(): k,
                                           **({M.single_atom(): m}
                                              if M is not None else {})}))
               for k in R for m in (R if M is not None else (0,)))


def covers(ck, aspect, f, p, e, N, idx, skip=None, extra=None):
    """The event happens once for every index 0..N-1 (evaluated for N up to
    4), apart from those `skip` allows to leave out."""
    h = loops.innermost(f, e.ins.blk)
    if h is None:
        return ck(aspect, False, p, "not in a loop", e)
    for n in range(0, 5):
        fx = vec_env(p, {N.single_atom(): n,
                         **(extra(n) if callable(extra) else extra or {})})
        if n == 0 and contradicted(p, fx):
            continue
        tr = loops.trace(f, p.st, h, fx, e.ins.blk)
        if tr.early:
            return ck(aspect, False, p,
                      "the loop may end early at %s" % tr.early.where(), e)
        got = [ev.Env(1, x).ev(idx) for x in tr.its]
        if got != list(range(n)) or not tr.ended:
            return ck(aspect, False, p,
                      "visits %s of %d" % (got, n), e)
        for c, pol in tr.skips:
            if not (skip and skip(c, pol)):
                return ck(aspect, False, p,
                          "elements may be left out when %s is %s" %
                          (c, pol), e)
    return ck(aspect, True)


def contradicted(p, fx):
    known_ = set(fx)
    env = ev.Env(1, fx)

    def denies(c, pol):
        c = loops.apart(c)
        return loops.only_known(c, known_) and bool(env.ev(c) & 1) != pol
    return refuted(p.conds, p.alts, denies)


def index_of(t, base, step):
    """i when t == base + step * i."""
    d = t - Poly.atom(base)
    if base in d.atoms() or any(v % step for v in d.t.values()):
        return None
    return Poly({k: v // step for k, v in d.t.items()})


def sizes_fetched(ck, f, p, Z, F, upto, tag=""):
    """The vector with data Z holds the sizes of the inner vectors of F."""
    for e in p.events[:upto]:
        if e.kind == "copy" and is_first(e):
            i = index_of(e.args[3], Z, 4)
            if i is None:
                continue
            at = F.locate(e.args[2])
            return ck(tag + "sizes of the source are fetched from its size "
                      "variables",
                      at is not None and at[0] == "size" and at[1] == i and
                      e.args[1] + 4 * i == 4 * F.size, p,
                      "%s bytes from %s to %s" % (e.args[1], e.args[2],
                                                  e.args[3]), e)
    for e in p.events[:upto]:
        if e.kind == "store" and is_first(e):
            i = index_of(e.args[0], Z, 4)
            if i is None:
                continue
            ok = e.args[1] == F.inner(i).cap
            ck(tag + "sizes of a fixed source are its capacities", ok, p,
               str(e.args), e)
            return covers(ck, tag + "sizes of a fixed source are taken for "
                          "every inner vector", f, p, e, F.size, i)
    return ck(tag + "the sizes used come from the source", False, p, str(Z))


def mismatch(F, T, c, pol):
    """Which of the conditions for a copy in one go does this branch outcome
    deny?  ("cap" or ("gap", view))"""
    a = c.single_atom()
    if not a or a[0] != "icmp" or a[1] not in ("eq", "ne"):
        return None
    if (a[1] == "eq") == pol:
        return None
    x, y = loops.first(a[2]), loops.first(a[3])
    for g, h in ((x, y), (y, x)):
        lf, lt = F.locate(g), T.locate(h)
        if lf and lt and lf[0] == lt[0] == "cap" and lf[1] == lt[1]:
            return "cap"
        for J in (F, T):
            # ptr[i] == (ptr or phi) + S * cap[i - 1]
            l = J.locate(h)
            if l and l[0] == "ptr":
                i = l[1]
                r = g - J.S * J.inner(i - C(1)).cap
                if r == J.inner(i - C(1)).ptr or \
                   (r.single_atom() or ("",))[0] == "phi":
                    return "gap", J.b
            elif not l and (h.single_atom() or ("",))[0] == "phi":
                pass
    return None


def last_gap(f, p, J, phi):
    """The pointer carried round a contiguity loop is ptr[i]."""
    return True


def jagged_copy(ck, f, p, F, T, kind, tag="", only=None):
    if infeasible(p, F.size, T.size):
        return
    ops = targets(p) if only is None else only
    pay, siz = [], []
    for e, d in ops:
        l = T.locate(d)
        if l and l[0] == "ptr":
            pay.append((e, l[1]))
        elif l and l[0] == "size":
            siz.append((e, l[1]))
        else:
            ck(tag + "writes the target or local memory only",
               p.st.root(d) or zvec(p, d), p, str(d), e)
    for e, i in pay:
        if not is_first(e):
            continue
        i = loops.first(i)
        l = F.locate(e.args[2])
        if not ck(tag + "inner vectors are copied from and to the same index",
                  e.kind == "copy" and l and l[0] == "ptr" and
                  loops.first(l[1]) == i and
                  e.args[4] == kind, p, str(e.args), e):
            continue
        nb = loops.first(e.args[1])
        z = zvec(p, nb)
        for x in atoms_deep(nb):
            if not z and x[0] == "phi":
                h = loops.innermost(f, f.ins[x[1]].blk)
                for q in f.blocks[h]:
                    for r in q.args:
                        t = p.st.terms.get(r.get("i"))
                        z = z or t is not None and zvec(p, t)
                    t = p.st.terms.get(("init", q.id))
                    z = z or t is not None and zvec(p, t)
        n = Poly({k: v // F.S for k, v in nb.t.items()}) \
            if not any(v % F.S for v in nb.t.values()) else None
        if not z:
            ck(tag + "bytes of an inner vector", False, p, str(e.args[1]), e)
            continue
        Z, cnt = z
        a = n and n.single_atom()
        if a and a[0] == "load" and index_of(a[1], Z, 4) == i:
            # one inner vector at a time
            ck(tag + "bytes of an inner vector", cnt == F.size, p, "", e)
            sizes_fetched(ck, f, p, Z, F, e.n, tag)

            def skip(c, pol, n=n):
                b = c.single_atom()
                return b and b[0] == "icmp" and b[2] == n and \
                    b[3] == C(0) and (b[1] == "eq") == pol
            covers(ck, tag + "every non-empty inner vector is copied", f, p,
                   e, F.size, i, skip)
        else:
            in_one_go(ck, f, p, F, T, e, nb, i, Z, cnt, tag)
    if p.end == "ret":
        resized = [x for x in siz]
        k = known(p, T.inner(0).size)
        empty = is_zero(p, F.size)
        if not empty:
            ck(tag + "sizes of a resizable target are set", k is not None and
               len(siz) == (1 if k else 0), p,
               "%d size copies" % len(siz))
            ck(tag + "outer size of the target is sufficient",
               ineq.implies(p.conds, "uge", T.size, F.size), p)
        for e, i in siz:
            z = zvec(p, e.args[2])
            ck(tag + "sizes of the target are those of the source",
               z and e.args[2] == Poly.atom(z[0]) and i == C(0) and
               z[1] == F.size and
               count_matches(p, e.args[1], z, F), p, str(e.args), e)
            if z:
                sizes_fetched(ck, f, p, z[0], F, e.n, tag)


def count_matches(p, nbytes, z, F):
    for n in range(5):
        fx = vec_env(p, {F.size.single_atom(): n})
        if ev.Env(1, fx).ev(nbytes) != 4 * n:
            return False
    return True


def mismatches(p, F, T, m):
    """Views with one mismatch."""
    for k in range(2, 5):
        for bad in range(0 if m == "cap" else 1, k):
            for d in (1, -1, 7) if m == "cap" else (64, 8, -4096):
                fx = vec_env(p, {F.size.single_atom(): k,
                                 T.size.single_atom(): k,
                                 F.host.single_atom(): 1 << 20,
                                 T.host.single_atom(): 1 << 21})
                mem = {}
                for J in (F, T):
                    at, ptr = fx[J.host.single_atom()], 1 << (26 + (J is T))
                    for i in range(k):
                        n = 2 + i % 2
                        if m == "cap" and J is T and i == bad:
                            n += d
                        if m == ("gap", J.b) and i == bad:
                            ptr += d
                        mem[at + J.u.vsz * i + J.u.cap] = n
                        mem[at + J.u.vsz * i + J.u.ptr] = ptr
                        ptr += J.S * n
                yield k, bad, fx, mem


def looked_for(ck, aspect, f, p, F, T, m, e):
    """The mismatch m is looked for in every pair of inner vectors."""
    seen = None
    for c, pol, I in branches(f, p):
        for w in (True, False):
            if mismatch(F, T, c, w) == m:
                seen = (c, I)
    if seen is None:
        for k, bad, fx, mem in mismatches(p, F, T, m):
            if not ck(aspect, not sample.Run(f, p, fx, mem).ok, p,
                      "of %d inner vectors number %d may differ" % (k, bad),
                      e):
                return False
        return ck(aspect, True)
    ck(aspect, True)
    c, I = seen
    h = loops.innermost(f, I.blk)
    lo = 0 if m == "cap" else 1
    at = next(l[1] for x in c.single_atom()[2:4]
              for l in [(T if m == "cap" or m[1] == T.b else
                         F).locate(loops.first(x))]
              if l and l[0] in ("cap", "ptr"))
    for k in range(2, 5):
        fx = vec_env(p, {F.size.single_atom(): k,
                         T.size.single_atom(): k,
                         F.host.single_atom(): 1 << 20,
                         T.host.single_atom(): 1 << 21})
        tr = loops.trace(f, p.st, h, fx, I.blk) if h is not None else None
        got = tr and [ev.Env(1, x).ev(at) for x in tr.its]
        if not ck(aspect + " for every inner vector",
                  tr and got == list(range(lo, k)), p,
                  "visits %s of %d" % (got, k), e):
            return False
    return True


def in_one_go(ck, f, p, F, T, e, n, i, Z, cnt, tag):
    """The whole payload is copied with one request."""
    a = tag + "copy in one go: "
    # never after a mismatch was seen
    bad = [c for c in p.conds if mismatch(F, T, *c)]
    ck(a + "only for contiguous views of equal layout", not bad, p,
       "also happens after %s" % (bad[:1],), e)
    # all three kinds of mismatch are looked for, over all inner vectors
    for m, what in (("cap", "capacities compared"),
                    (("gap", F.b), "contiguity of the source checked"),
                    (("gap", T.b), "contiguity of the target checked")):
        if not looked_for(ck, a + what, f, p, F, T, m, e):
            return
    # number of elements: the sum over the capacities of the source
    zs = [x for x in p.events if x.kind == "store" and x.n < e.n and
          is_first(x) and index_of(x.args[0], Z, 4) is not None]
    ck(a + "capacities of the source are summed up",
       len({x.ins.id for x in zs}) == 1 and
       zs[0].args[1] in [J.inner(index_of(zs[0].args[0], Z, 4)).cap
                         for J in (F, T)], p, "", e)
    sum_of(ck, a + "bytes are the sum over all inner vectors", f, p, e, n,
           F, Z, F.S)
    skip_first(ck, a + "starts at the first non-empty inner vector", f, p, e,
               F, Z, i)


def branches(f, p):
    for b in f.blocks:
        I = f.blocks[b][-1]
        if I.op == "br" and "tb" in I.d and I["tb"] != I["fb"] and \
           I.args[0]["k"] == "ins":
            t = p.st.terms.get(I.args[0]["i"])
            if t is not None:
                yield loops.first(t), None, I


def sum_of(ck, aspect, f, p, e, n, F, Z=None, S=1, desc=None):
    """n is the value an accumulating loop has after adding up every element
    of the vector at Z (or the `desc` fields)."""
    ids = [a[1] for a in n.atoms() if a[0] == "phi"]
    hs = {loops.innermost(f, f.ins[x].blk) for x in ids}
    if len(hs) != 1 or None in hs:
        return ck(aspect, False, p, "not a sum: %s" % n, e)
    h = next(iter(hs))
    for k in range(1, 5):
        fx = vec_env(p, {F.size.single_atom(): k,
                         F.host.single_atom(): 1 << 20})
        # memory: element j holds 10 ** j
        if Z is not None:
            base, step = fx[Z], 4
        else:
            base, step = (1 << 20) + desc, F.u.vsz

        def mem(env, t):
            s = 0
            for mono, c in t.t.items():
                v = c
                for a in mono:
                    if a[0] == "load":
                        x = env.ev(a[1]) - base
                        if x % step or not 0 <= x // step < k:
                            raise KeyError(a)
                        v *= 10 ** (x // step)
                    else:
                        v *= env.at(a)
                s += v
            return s
        tr = acc_trace(f, p, h, fx, mem)
        try:
            got = tr and mem(ev.Env(1, tr), n)
        except KeyError:
            got = "a read outside of the sizes"
        want = S * sum(10 ** j for j in range(k))
        if got != want:
            return ck(aspect, False, p,
                      "for %d inner vectors: %s" % (k, got), e)
    return ck(aspect, True)


def acc_trace(f, p, h, fx, mem):
    """Values of the header phis in the last iteration of a summing loop."""

    def term(z):
        t = p.st.terms.get(z["i"]) if z["k"] == "ins" else p.st.val(z)
        return None if t is None else loops.first(t)
    init, nxt = recurrence(f, p.st, h, term)
    if set(init) != set(nxt):
        return None
    vals = {a: ev.Env(1, fx).ev(t) for a, t in init.items()}
    for _ in range(8):
        cur = dict(fx)
        cur.update(vals)
        tr = loops.trace1(f, p.st, h, cur)
        if tr == "exit":
            return cur
        if tr != "latch":
            return None
        new = {}
        for a, t in nxt.items():
            try:
                new[a] = mem(ev.Env(1, cur), t)
            except KeyError:
                return None
        vals = new
    return None


def skip_first(ck, aspect, f, p, e, F, Z, i):
    """The request is made for the first i with a non-zero size: the loop
    over i goes from 0 up, and i is skipped only when its size is zero."""
    x = i.single_atom()
    if not x or x[0] != "phi":
        return ck(aspect, False, p, "index %s" % i, e)
    h = loops.innermost(f, f.ins[x[1]].blk)
    if h is None:
        return ck(aspect, False, p, "index %s" % i, e)
    for k in range(1, 5):
        fx = vec_env(p, {F.size.single_atom(): k,
                         F.host.single_atom(): 1 << 20})
        tr = loops.trace(f, p.st, h, fx)
        if tr.early:
            tr = loops.trace(f, p.st, h, fx, tr.early.blk)
        got = [ev.Env(1, y).ev(i) for y in tr.its]
        if got != list(range(k)):
            return ck(aspect, False, p, "visits %s of %d" % (got, k), e)
        c = tr.early and loops.first(p.st.val(tr.early.args[0]))
        c = c and c.single_atom()
        if not c or c[0] != "icmp" or c[3] != C(0) or c[1] not in \
           ("eq", "ne") or not zero_test(c[2], F, Z, i):
            return ck(aspect, False, p, "stops when %s" % (c,), e)
    return ck(aspect, True)


def zero_test(t, F, Z, i):
    a = t.single_atom()
    if not a or a[0] != "load":
        return False
    return Z is not None and index_of(a[1], Z, 4) == i or t == F.inner(i).cap


def through_loops(ck, aspect, f, hooks, hs, N, reached=None):
    """A non-empty source cannot be handled without passing through one of
    the payload loops."""
    hooks.track = set(hs)
    for p in paths(f, hooks, merge=True):
        if p.end != "ret" or p.tracked:
            continue
        ok = all(contradicted(p, vec_env(p, {N.single_atom(): k}))
                 for k in (1, 2, 3, 4, 1000)) or is_zero(p, N)
        ck(aspect, ok, p, "not passed")
    ck(aspect, True)


def jagged(ctx):
    """C04"""
    R = ctx.R
    u = Unit(ctx)
    S = 12
    F, T = Jag(u, A(1), S), Jag(u, A(2), S)
    hk = CopyHooks(u)
    hk.keep = lambda c, pol: mismatch(F, T, c, pol)
    f, ps = run_paths(ctx, u, "vp_jcopy", merge=True, hooks=hk)
    ck = Check(R, "jagged vector to jagged vector", f)
    hs = set()
    for p in ps:
        jagged_copy(ck, f, p, F, T, A(3))
        for e, d in targets(p):
            l = T.locate(d)
            if l and l[0] == "ptr" and is_first(e):
                h = loops.innermost(f, e.ins.blk)
                if h is None:
                    x = l[1].single_atom()
                    h = x and x[0] == "phi" and \
                        loops.innermost(f, f.ins[x[1]].blk)
                if h is not None and h is not False:
                    hs.add(h)
    through_loops(ck, "a non-empty source reaches the copying loops", f,
                  CopyHooks(u), hs, F.size)
    ck.done(["every non-empty inner vector is copied",
             "bytes of an inner vector",
             "sizes of a fixed source are taken for every inner vector",
             "sizes of the source are fetched from its size variables",
             "sizes of the target are those of the source"])


# ------------------------------------------------------- rules over all entries
V, J, S1, S2 = "vector", "jagged", "edm", "edm2"
# entry, what it is called, views (argument, kind), event argument
ENTRIES = [
    ("vp_setup", "setup of a vector", [(1, V)], 2),
    ("vp_memset", "memset of a vector", [(1, V)], 3),
    ("vp_to", "vector to new buffer", [(1, V)], None),
    ("vp_copy", "vector to vector", [(1, V), (2, V)], 4),
    ("vp_copy_std", "vector to std::vector", [(1, V)], 4),
    ("vp_get_size", "get_size of a vector", [(1, V)], None),
    ("vp_jsetup", "setup of a jagged vector", [(1, J)], 2),
    ("vp_jmemset", "memset of a jagged vector", [(1, J)], 3),
    ("vp_jto", "jagged vector to new buffer", [(1, J)], None),
    ("vp_jcopy", "jagged vector to jagged vector", [(1, J), (2, J)], 4),
    ("vp_jcopy_std", "jagged vector to std::vector", [(1, J)], 4),
    ("vp_get_sizes", "get_sizes", [(1, J)], None),
    ("vp_set_sizes", "set_sizes", [(2, J)], 3),
    ("vp_esetup", "setup of a container", [(1, S1)], 2),
    ("vp_ememset", "memset of a container", [(1, S1)], 3),
    ("vp_ecopy", "container to container", [(1, S1), (2, S1)], 4),
    ("vp_eget_size", "get_size of a container", [(1, S1)], None),
    ("vp_e2setup", "setup of a jagged container", [(1, S2)], 2),
    ("vp_e2memset", "memset of a jagged container", [(1, S2)], 3),
    ("vp_e2copy", "jagged container to container", [(1, S2), (2, S2)], 4),
]
INNER = ("vecmem::copy::operator()", "vecmem::copy::setup")


class NestedHooks(CopyHooks):
    """Calls of other copy functions are operations with an event."""

    def kind(self, st, I, args):
        if I.qn in INNER:
            return "nested"
        return CopyHooks.kind(self, st, I, args)

    def readonly(self, st, I, kind, k):
        if kind == "nested":
            return k != 0
        return CopyHooks.readonly(self, st, I, kind, k)

    def effect(self, st, I, kind, args):
        if kind == "nested":
            o = Poly.atom(("out", I.id, "event", 0, 0))
            st.write(args[0], 8, o)
            st.fa.nz.add(o)
            return True
        return CopyHooks.effect(self, st, I, kind, args)


def nested_unit(ctx):
    u = Unit(ctx)
    u.p = ctx.unit("copy", opaque=[
        r"D:vecmem::copy::operator\(\)<E>\(vecmem::data::(jagged_)?"
        r"vector_view<.*E.*> const&, vecmem::data::(jagged_)?vector_view<E>,",
        r"D:vecmem::copy::setup<E>\(vecmem::data::(jagged_)?vector_view"])

    def one(n):
        l = [f for f in u.p.fns if f.name == n]
        ctx.R.need(l, "entry %s not found" % n)
        return l[0]
    u.one = one
    return u


def all_entries(ctx):
    u = Unit(ctx)
    nu = None
    for name, what, views, out in ENTRIES:
        if name == "vp_jto":
            nu = nested_unit(ctx)
            f, ps = run_paths(ctx, nu, name, merge=True,
                              hooks=NestedHooks(nu), limit=60000)
            yield nu, f, ps, what, views, out
        else:
            f, ps = run_paths(ctx, u, name, merge=True, limit=60000)
            yield u, f, ps, what, views, out


OPS = ("copy", "memset", "nested")


def made_by(p, t):
    """The event (of the path) which made the event object t."""
    a = t.single_atom() if t is not None else None
    if not a or a[0] != "out" or a[2] not in ("event", "dummy"):
        return None
    for e in reversed(p.events):
        if e.ins.id == a[1] and e.kind in ("event", "dummy", "nested"):
            return e
    return None


def pending_at(p, upto):
    """Operations not known to have finished before event number `upto`."""
    ops = []
    for e in p.events[:upto]:
        if e.kind in OPS:
            ops.append(e)
        elif e.kind == "wait":
            m = made_by(p, e.args[0])
            if m is not None and m.kind == "event":
                ops = [o for o in ops if o.n > m.n]
            elif m is not None and m.kind == "nested":
                ops = [o for o in ops if o.n != m.n]
    return ops


def events(ctx):
    """C02"""
    R = ctx.R
    for u, f, ps, what, views, out in all_entries(ctx):
        ck = Check(R, what, f)
        asp = []
        for p in ps:
            for e in p.calls("wait"):
                ck("waits on events made by the copy object",
                   made_by(p, e.args[0]) is not None, p, str(e.args[0]), e)
            if p.end != "ret":
                continue
            pend = pending_at(p, len(p.events))
            if out is None:
                ck("everything has finished on return", not pend, p,
                   "%s not waited for" % [e.where() for e in pend],
                   pend[-1] if pend else None)
                continue
            m = made_by(p, p.load(A(out)))
            if not ck("returns an event made by this call", m is not None, p,
                      "returns %s" % p.load(A(out))):
                continue
            if m.kind == "dummy":
                ck("an event that is always complete is returned only when "
                   "nothing is pending", not pend, p,
                   "%s pending" % [e.where() for e in pend],
                   pend[-1] if pend else None)
            else:
                late = [e for e in pend if e.n > m.n]
                ck("the returned event is made after the last operation",
                   not late, p, "%s later" % [e.where() for e in late],
                   late[-1] if late else None)
        ck.done(["everything has finished on return"] if out is None else
                ["returns an event made by this call"])


def local_key(p, t):
    """Identity of the host memory made by this call that t points to."""
    r = p.st.root(t)
    if r:
        return r[0]
    z = zvec(p, t)
    if z and p_has(t, z[0]):
        return z[0]
    for a in t.atoms():
        if a[0] == "out" and a[2].startswith("std::vector::") and \
           t.t.get((a,)) == 1:
            return a
    return None


def p_has(t, a):
    return t.t.get((a,)) == 1


def temporaries(ctx):
    """C03"""
    R = ctx.R
    n = 0
    for u, f, ps, what, views, out in all_entries(ctx):
        ck = Check(R, what, f)
        for p in ps:
            loc = {}
            for e in p.events:
                if e.kind == "copy":
                    for t, way in ((e.args[2], "r"), (e.args[3], "w")):
                        k = local_key(p, t)
                        if k is not None:
                            loc.setdefault(k, []).append((e, way))
                elif e.kind == "memset":
                    k = local_key(p, e.args[2])
                    if k is not None:
                        loc.setdefault(k, []).append((e, "w"))
            if not loc:
                continue
            n += 1

            def use(upto, k, ways, aspect, e):
                done = {x.n for x in pending_at(p, upto)}
                bad = [o for o, w in loc[k] if o.n < upto and w in ways and
                       o.n in done]
                ck(aspect, not bad, p, "%s has not been waited for" %
                   [o.where() for o in bad], e)
            for at, addr, ins in p.st.reads:
                k = local_key(p, addr)
                if k in loc:
                    use(at, k, "w", "results are read after waiting for "
                        "them", p.events[min(at, len(p.events) - 1)])
            for e in p.events:
                if e.kind == "store" and local_key(p, e.args[0]) in loc:
                    use(e.n, local_key(p, e.args[0]), "rw",
                        "memory in use is not overwritten", e)
                elif e.ins.qn in ("operator delete", "operator delete[]") \
                        and e.args and local_key(p, e.args[0]) in loc:
                    use(e.n, local_key(p, e.args[0]), "rw",
                        "memory in use is not released", e)
                elif e.kind == "copy":
                    k = local_key(p, e.args[2])
                    if k in loc:
                        use(e.n, k, "w", "results are copied on after "
                            "waiting for them", e)
            if p.end in ("ret", "throw"):
                for k in loc:
                    use(len(p.events), k, "rw", "local memory outlives the "
                        "operations on it", p.events[-1])
        if ck.asp:
            ck.done()
    R.count("paths with operations on local memory", n)
    R.need(n > 10, "operations on local memory not found")


# ----------------------------------------------------------- device pointers
class Lay:
    """Places of the views in a view of a container."""

    def __init__(self, u, ctx, edm):
        def off(n):
            g = u.one(n)
            t = g.val(g.rets()[0].args[0])
            a = t.single_atom()
            if a and a[0] == "load":
                return (a[1] - A(0)).cval()
            return (t - A(0)).cval()
        pre = "vp_e_" if edm == S1 else "vp_e2_"
        for k in ("cap", "payload", "size", "layout", "host"):
            setattr(self, k, off(pre + k))
        self.vars = [off(pre + str(i)) for i in
                     range(3 if edm == S1 else 2)]
        # what the variables are, with their element sizes
        self.kinds = [("scalar", 20), (V, 12), (V, 20)] if edm == S1 else \
            [(V, 20), (J, 12)]


def device(ctx):
    """C05"""
    R = ctx.R
    total = 0
    for u, f, ps, what, views, out in all_entries(ctx):
        ck = Check(R, what, f)
        fields = {}
        jag = []
        for arg, kind in views:
            b = A(arg)
            vs, js = [], []
            if kind == V:
                vs.append(b)
            elif kind == J:
                js.append(b)
            else:
                l = Lay(u if what != "jagged vector to new buffer" else
                        Unit(ctx), ctx, kind)
                vs += [b + C(l.payload), b + C(l.size), b + C(l.layout)]
                for o, (k, s) in zip(l.vars, l.kinds):
                    if k == V:
                        vs.append(b + C(o))
                    elif k == J:
                        js.append(b + C(o))
                    else:
                        fields[("load", b + C(o))] = "a scalar variable"
            for x in vs:
                fields[("load", x + C(u.ptr))] = "the elements of a view"
                fields[("load", x + C(u.size))] = "the size of a view"
            for x in js:
                fields[("load", x + C(u.jptr))] = "the view array on the " \
                    "device"
                jag.append(Jag(u, x, 1))

        def dev(t):
            for a in t.atoms():
                if t.t.get((a,)) != 1 or a[0] not in ("load", "phi"):
                    continue
                if a in fields:
                    return fields[a]
                if a[0] == "load":
                    for J_ in jag:
                        l = J_.locate(Poly.atom(a))
                        if l and l[0] in ("ptr", "size"):
                            return "the %s of an inner vector" % \
                                ("elements" if l[0] == "ptr" else "size")
            return None

        def alloc(p, t):
            """Memory allocated from the memory resource of the target
            (which serves the host as well if no other one is given)."""
            if what == "jagged vector to new buffer" and \
               known(p, A(3)) is False:
                return False
            for a in t.atoms():
                if a[0] == "call" and t.t.get((a,)) == 1:
                    for e in p.events:
                        if e.ret is not None and \
                           e.ret.single_atom() == a and \
                           "allocate" in e.ins.qn and \
                           e.args[0] == A(2):
                            return True
            return False
        for p in ps:
            for at, addr, ins in p.st.reads:
                total += 1
                ck("device memory is not read by the host",
                   dev(addr) is None and not alloc(p, addr), p,
                   "reads %s directly (%s)" % (dev(addr), addr),
                   p.events[min(at, len(p.events) - 1)]
                   if p.events else None)
            for e in p.events:
                if e.kind in ("store", "atomicrmw", "cmpxchg", "aload",
                              "memset_local"):
                    l = e.args[:1]
                elif e.kind == "memcpy":
                    l = e.args[:2]
                else:
                    continue
                for t in l:
                    ck("device memory is not accessed by the host",
                       dev(t) is None and not alloc(p, t), p,
                       "accesses %s directly" % dev(t), e)
        if ck.asp:
            ck.done()
    R.count("memory accesses", total)


def eq_known(p, x, y):
    return ineq.implies(p.conds, "eq", x, y)


def jagged_memset(ck, f, p, J, value, tag="", ms=None):
    """One path of memset on a jagged view."""
    ms = [(e, d) for e, d in targets(p) if is_first(e)] if ms is None else ms
    if p.end != "ret":
        return
    for e, d in ms:
        l = J.locate(loops.first(d))
        if not ck(tag + "sets payloads of inner vectors only",
                  e.kind == "memset" and l and l[0] == "ptr" and
                  e.args[3] == value, p, str(e.args), e):
            continue
        i = l[1]
        nb = loops.first(e.args[1])
        if nb == J.S * J.inner(i).cap:
            def skip(c, pol, n=J.inner(i).cap):
                b = c.single_atom()
                return b and b[0] == "icmp" and b[2] == n and \
                    b[3] == C(0) and (b[1] == "eq") == pol
            covers(ck, tag + "every inner vector is set", f, p, e, J.size,
                   i, skip)
            continue
        a = tag + "set in one go: "
        bad = [c for c in p.conds if mismatch(J, J, *c)]
        ck(a + "only for contiguous views", not bad, p,
           "also happens after %s" % (bad[:1],), e)
        looked_for(ck, a + "contiguity checked", f, p, J, J, ("gap", J.b), e)
        if any(v % J.S for v in nb.t.values()):
            ck(a + "bytes are the sum over all inner vectors", False, p,
               str(nb), e)
            continue
        n = Poly({k: v // J.S for k, v in nb.t.items()})
        sum_of(ck, a + "bytes are the sum over all inner vectors", f, p, e,
               n, J, desc=J.u.cap)
        first_filled(ck, a + "starts at the first non-empty inner vector", f,
                     p, e, J, i)
    if not ms and not is_zero(p, J.size):
        # nothing was set: all inner vectors were seen to be empty
        ok = False
        for h in f.loops:
            if h not in p.blocks:
                continue
            phis = [x for x in f.blocks[h] if x.op == "phi"]
            for x in phis:
                if only_empty(f, p, h, J, Poly.atom(("phi", x.id))) is True:
                    ok = True
        ck(tag + "nothing is set only if all inner vectors are empty", ok, p)


def empty_test(c, J, i):
    """The condition compares a field of inner vector i with zero."""
    a = c.single_atom()
    return a and a[0] == "icmp" and a[1] in ("eq", "ne") and \
        a[3] == C(0) and loops.first(a[2]) in (
            J.inner(i).cap, J.inner(i).ptr, J.inner(i).size)


def only_empty(f, p, h, J, i):
    """The loop h visits i = 0 .. size - 1 and goes on only past inner
    vectors that are empty; else what is wrong."""
    body = f.loops[h]["blocks"]
    zero = []
    for b in body:
        I = f.blocks[b][-1]
        if I.op != "br" or "tb" not in I.d or I["tb"] == I["fb"]:
            continue
        t = p.st.terms.get(I.args[0].get("i"))
        t = loops.first(t) if t is not None else None
        if t is not None and empty_test(t, J, i):
            zero.append(I)
    if not zero:
        return "no test for empty inner vectors"
    zero.sort(key=lambda I: rpo(f).index(I.blk))
    for k in range(1, 5):
        fx = vec_env(p, {J.size.single_atom(): k,
                         J.host.single_atom(): 1 << 20})
        tr = loops.trace(f, p.st, h, fx, zero[0].blk)
        its = [ev.Env(1, y).ev(i) for y in tr.its]
        if its != list(range(k)):
            return "visits %s of %d" % (its, k)
    # leaving the body needs a non-empty inner vector: all other ways on
    # are decided by these tests
    for b in body:
        I = f.blocks[b][-1]
        if I.op == "br" and "tb" in I.d and I["tb"] != I["fb"] and \
           I not in zero:
            t = p.st.terms.get(I.args[0].get("i"))
            t = loops.first(t) if t is not None else None
            if t is None or not loops.only_known(
                    t, {J.size.single_atom(), i.single_atom()} |
                    set(vec_env(p, {J.size.single_atom(): 1}))):
                return "also depends on %s" % t
    return True


def first_filled(ck, aspect, f, p, e, J, i):
    x = i.single_atom()
    if not x or x[0] != "phi":
        return ck(aspect, False, p, "index %s" % i, e)
    h = loops.innermost(f, f.ins[x[1]].blk)
    r = only_empty(f, p, h, J, i) if h is not None else "no loop"
    return ck(aspect, r is True, p, str(r), e)


def jagged_other(ctx):
    """C06"""
    R = ctx.R
    u = Unit(ctx)
    S = 12
    J_ = Jag(u, A(1), S)
    # setup
    f, ps = run_paths(ctx, u, "vp_jsetup", merge=True)
    ck = Check(R, "setup of a jagged vector", f)
    for p in ps:
        if p.end != "ret":
            continue
        jagged_setup(ck, p, J_)
    ck.done(["size variables zeroed", "inner vectors described on the "
             "device"])
    # memset
    hk = CopyHooks(u)
    hk.keep = lambda c, pol: mismatch(J_, J_, c, pol)
    f, ps = run_paths(ctx, u, "vp_jmemset", merge=True, hooks=hk)
    ck = Check(R, "memset of a jagged vector", f)
    for p in ps:
        jagged_memset(ck, f, p, J_, A(2))
    ck.done(["every inner vector is set"])
    # get_sizes
    f, ps = run_paths(ctx, u, "vp_get_sizes", merge=True)
    ck = Check(R, "get_sizes", f)
    for p in ps:
        if p.end != "ret" or is_zero(p, J_.size) or infeasible(p, J_.size):
            continue
        got_sizes(ck, f, p, J_)
    ck.done(["sizes come from the size variables or the capacities"])
    # set_sizes
    T = Jag(u, A(2), S)
    f, ps = run_paths(ctx, u, "vp_set_sizes", merge=True)
    ck = Check(R, "set_sizes", f)
    data, end = ld(A(1), 0), ld(A(1), 8)
    for p in ps:
        if p.end == "throw":
            ck("nothing is written on failure", not targets(p), p)
        if p.end != "ret":
            continue
        tg = targets(p)
        bad = []
        for k in (0, 1, 2, 3, 1000):
            for m in (0, 1, 2, 3, 1000):
                fx = {T.size.single_atom(): m, data.single_atom(): 1 << 30,
                      end.single_atom(): (1 << 30) + 4 * k}
                if k != m and not contradicted(p, fx):
                    bad.append((k, m))
        ck("the number of sizes has to match", not bad, p, str(bad[:3]))
        zero = is_zero(p, T.size) or all(
            contradicted(p, {T.size.single_atom(): m,
                             data.single_atom(): 1 << 30,
                             end.single_atom(): (1 << 30) + 4 * m})
            for m in (1, 2, 3, 1000))
        k = known(p, T.inner(0).size)
        if not zero:
            ck("decides whether the target is resizable", k is not None, p)
            ck("sizes written exactly to resizable targets",
               len(tg) == (1 if k else 0), p)
            fits_checked(ck, f, p, T, data, end)
        for e, d in tg:
            nb = [ev.Env(1, {data.single_atom(): 1 << 30,
                             end.single_atom(): (1 << 30) + 4 * k,
                             T.size.single_atom(): k}).ev(e.args[1])
                  for k in (1, 2, 1000)]
            ck("all sizes are written to the size variables",
               e.kind == "copy" and nb == [4, 8, 4000] and
               e.args[2] == data and d == T.inner(0).size, p,
               str(e.args), e)
    ck.done(["all sizes are written to the size variables",
             "capacities are checked"])
    # to std::vector, with the copy of the payload left to the copy between
    # views
    nu = nested_unit(ctx)
    f, ps = run_paths(ctx, nu, "vp_jcopy_std", merge=True,
                      hooks=NestedHooks(nu))
    ck = Check(R, "jagged vector to std::vector", f)
    for p in ps:
        if p.end != "ret" or infeasible(p, J_.size):
            continue
        ne = p.calls("nested")
        rs = [e for e in p.events if e.ins.qn == "std::vector::resize"]
        ck("outer vector resized", len(rs) > 0 and rs[0].args[0] == A(2) and
           rs[0].args[1] == J_.size, p, str(rs and rs[0].args))
        some = not all(contradicted(p, vec_env(p, {
            J_.size.single_atom(): k, ("load", A(2) + C(8)): 1 << 24,
            ("load", A(2) + C(16)): (1 << 24) + 32 * k}))
                       for k in (1, 2, 3, 1000))
        inner = [e for e in rs[1:] if is_first(e)] if some else []
        if some:
            ck("inner vectors resized", len(inner) == 1, p)
        for e in inner:
            a = e.args[1].single_atom()
            z = zvec(p, a[1]) if a and a[0] == "load" else None
            i = z and index_of(a[1], z[0], 4)
            if not ck("inner vectors get the sizes of the source",
                      i is not None and i != False and
                      index_of(e.args[0], ("load", A(2) + C(8)), 32) == i,
                      p, str(e.args), e):
                continue
            # the outer vector has that many elements by then
            covers(ck, "all inner vectors are resized", f, p, e, J_.size, i,
                   extra=lambda n: {("load", A(2) + C(8)): 1 << 24,
                                    ("load", A(2) + C(16)):
                                    (1 << 24) + 32 * n})
            sizes_fetched(ck, f, p, z[0], J_, e.n)
        ck("copied to the resized vector", len(ne) == 1 and
           ne[0].args[0] == A(4) and ne[0].args[2] == A(1) and
           ne[0].args[4] == A(3) and
           all(e.n < ne[0].n for e in rs), p)
    ck.done(["inner vectors get the sizes of the source",
             "copied to the resized vector"])
    # to a new buffer
    f, ps = run_paths(ctx, nu, "vp_jto", merge=True, hooks=NestedHooks(nu))
    ck = Check(R, "jagged vector to new buffer", f)
    for p in ps:
        if p.end != "ret" or infeasible(p, J_.size):
            continue
        some = not all(contradicted(p, vec_env(p, {J_.size.single_atom(): k}))
                       for k in (1, 2, 3, 1000))
        ne = p.calls("nested")
        ck("the buffer is set up, then the source copied to it",
           len(ne) == 2 and len(ne[0].args) == 3 and len(ne[1].args) == 5,
           p, str([e.args for e in ne]))
        if len(ne) != 2 or len(ne[1].args) != 5:
            continue
        def fields(t, at):
            return [p.st.read(t + C(o), 8, upto=at) for o in
                    (u.jsize, u.jptr, u.jhost)]
        v = [p.load(A(5) + C(o)) for o in (u.jsize, u.jptr, u.jhost)]
        ck("the new buffer is set up", fields(ne[0].args[2],
                                              ne[0].path_mem) == v, p,
           "", ne[0])
        ck("the source is copied to the new buffer",
           fields(ne[1].args[2], ne[1].path_mem) in (
               [J_.size, J_.dev, J_.host],) and
           fields(ne[1].args[3], ne[1].path_mem) == v and
           ne[1].args[4] == A(4), p, "", ne[1])
        if not some:
            continue
        H = v[2]
        sz = []
        for e in p.events:
            if e.kind != "store" or not is_first(e):
                continue
            d = e.args[0] - H
            i = Poly({k: x // u.vsz for k, x in d.t.items() if x % u.vsz == 0})
            a = e.args[1].single_atom()
            z = zvec(p, a[1]) if a and a[0] == "load" else None
            if z is None or not any(k for k in d.t) or \
               (d - u.vsz * i).cval() != u.cap:
                continue
            sz.append(e)
            ck("inner vectors get the sizes of the source",
               index_of(a[1], z[0], 4) == i, p, str(e.args), e)
            covers(ck, "all inner vectors get a size", f, p, e, J_.size, i)
            sizes_fetched(ck, f, p, z[0], J_, e.n)
        ck("inner vectors get sizes", len(sz) == 1, p, "%d stores" % len(sz))
        ck("as many inner vectors as the source", all(
            ev.Env(1, vec_env(p, {J_.size.single_atom(): k})).ev(v[0]) == k
            for k in (1, 2, 5)), p, str(v[0]))
    ck.done(["inner vectors get the sizes of the source",
             "the source is copied to the new buffer"])


def fits_checked(ck, f, p, T, data, end):
    """A path that accepts the sizes has compared every one of them with the
    capacity of its inner vector."""
    found = None
    for c, pol, I in branches(f, p):
        a = c.single_atom()
        if not a or a[0] != "icmp" or a[1] not in ("ult", "ule", "ugt",
                                                   "uge"):
            continue
        for x, y, w in ((a[2], a[3], a[1]), (a[3], a[2],
                                             SWAP[a[1]])):
            l = T.locate(x)
            b = y.single_atom()
            if l and l[0] == "cap" and b and b[0] == "load" and \
               index_of(b[1], data.single_atom(), 4) == l[1]:
                # capacity w size
                bad = I["tb"] if w == "ult" else I["fb"] if w == "uge" \
                    else None
                if bad and loops.throws_only(f, bad):
                    found = (I, l[1])
    if not ck("capacities are checked", found is not None, p,
              "no such test that fails with an exception"):
        return
    I, i = found
    h = loops.innermost(f, I.blk)
    for k in range(1, 5):
        fx = {T.size.single_atom(): k, data.single_atom(): 1 << 30,
              end.single_atom(): (1 << 30) + 4 * k}
        tr = loops.trace(f, p.st, h, fx, I.blk) if h is not None else None
        got = tr and [ev.Env(1, x).ev(i) for x in tr.its]
        if not ck("capacities are checked for every inner vector",
                  got == list(range(k)) and not tr.skips and not tr.early and
                  h in p.blocks, p, "visits %s of %d" % (got, k)):
            break


SWAP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def jagged_setup(ck, p, J_, tag=""):
    k = known(p, J_.inner(0).size)
    ms = [e for e, d in targets(p) if e.kind == "memset"]
    cs = [e for e, d in targets(p) if e.kind == "copy"]
    if is_zero(p, J_.size):
        ck(tag + "nothing to do for an empty vector", not ms and not cs, p)
        return
    ck(tag + "size variables zeroed", k is not None and
       len(ms) == (1 if k else 0), p, "%d memsets" % len(ms))
    for e in ms:
        ck(tag + "all size variables zeroed",
           e.args[2] == J_.inner(0).size and e.args[1] == 4 * J_.size and
           e.args[3] == C(0), p, str(e.args), e)
    same = eq_known(p, J_.dev, J_.host)
    ck(tag + "inner vectors described on the device",
       len(cs) == (0 if same else 1), p, "%d copies" % len(cs))
    for e in cs:
        ck(tag + "descriptions of all inner vectors copied to the device",
           e.args[1] == J_.u.vsz * J_.size and e.args[2] == J_.host and
           e.args[3] == J_.dev and
           e.args[4].cval() in (KINDS["h2d"], KINDS["unknown"]), p,
           str(e.args), e)


def got_sizes(ck, f, p, J_):
    """One path of get_sizes for a non-empty view."""
    Z = p.load(A(2))
    news = [e for e in p.events if e.ins.qn == "operator new"]
    fill = [e for e in p.events if e.ins.qn.startswith("std::vector::_M_") and
            "initialize" in e.ins.qn]
    za = Z.single_atom()
    ck("the result has an element for every inner vector",
       za and len(fill) == 1 and fill[0].args[1] == J_.size, p, str(Z))
    if not za:
        return
    asp = "sizes come from the size variables or the capacities"
    got = False
    for e, d in targets(p):
        if not is_first(e):
            continue
        i = index_of(d, za, 4)
        l = J_.locate(e.args[2]) if e.kind == "copy" else None
        got = True
        ck(asp, i is not None and l and l[0] == "size" and l[1] == i and
           e.args[1] + 4 * i == 4 * J_.size, p, str(e.args), e)
        if i is not None and i.cval() != 0:
            first_filled(ck, "sizes are fetched from the first resizable "
                         "inner vector on", f, p, e, J_, i)
    for e in p.events:
        if e.kind == "store" and is_first(e) and not got:
            i = index_of(e.args[0], za, 4)
            if i is None:
                continue
            got = True
            ck(asp, e.args[1] == J_.inner(i).cap, p, str(e.args), e)
            covers(ck, "capacities are taken for every inner vector", f, p,
                   e, J_.size, i)
    ck(asp, got, p, "nothing read")


# ---------------------------------------------------------- SoA containers
class Con:
    """A view of a container at address `b`."""

    def __init__(self, u, l, b):
        self.u, self.l, self.b = u, l, b
        self.cap = ld(b, l.cap)
        self.payload = Vec(u, b + C(l.payload), 1)
        self.size = Vec(u, b + C(l.size), 1)
        self.layout = Vec(u, b + C(l.layout), 1)
        self.host = Vec(u, b + C(l.host), 1)
        self.vars = []
        for o, (k, s) in zip(l.vars, l.kinds):
            if k == V:
                self.vars.append((k, Vec(u, b + C(o), s)))
            elif k == J:
                self.vars.append((k, Jag(u, b + C(o), s)))
            else:
                self.vars.append((k, (ld(b, o), s)))


class Sub:
    """The part of a path about one variable."""


def belongs(p, d, con, k):
    """Does the target address d belong to variable k of the container?"""
    kind, v = con.vars[k]
    if kind == V:
        return d in (v.ptr, v.size)
    if kind == J:
        l = v.locate(d)
        return bool(l and l[0] in ("ptr", "size"))
    return d == v[0]


def containers(ctx):
    """C07"""
    R = ctx.R
    u = Unit(ctx)
    for S_, pre, what in ((S1, "vp_e", "container"),
                          (S2, "vp_e2", "jagged container")):
        l = Lay(u, ctx, S_)
        D = Con(u, l, A(1))
        # setup
        f, ps = run_paths(ctx, u, pre + "setup", merge=True)
        ck = Check(R, "setup of a " + what, f)
        for p in ps:
            if p.end != "ret":
                continue
            ms = [e for e, d in targets(p) if e.kind == "memset"]
            if is_zero(p, D.cap):
                continue
            k = known(p, D.size.ptr)
            if k and is_zero(p, D.size.cap) and not ms:
                k = False
            ck("size variables zeroed", k is not None and
               len(ms) == (1 if k else 0), p, "%d memsets" % len(ms))
            for e in ms:
                ck("exactly the size variables zeroed",
                   e.args[2] == D.size.ptr and e.args[1] == D.size.cap and
                   e.args[3] == C(0), p, str(e.args), e)
            if not eq_known(p, D.layout.ptr, D.host.ptr):
                vector_copy(ck, p, D.host, D.layout, C(KINDS["unknown"]),
                            "layout: ", size_kinds=False)
        ck.done(["exactly the size variables zeroed",
                 "layout: payload bytes, source and kind"])
        # memset
        hk = CopyHooks(u)
        for kind, v in D.vars:
            if kind == J:
                hk.keep = lambda c, pol, v=v: mismatch(v, v, c, pol)
        f, ps = run_paths(ctx, u, pre + "memset", merge=True, hooks=hk)
        ck = Check(R, "memset of a " + what, f)
        for p in ps:
            container_memset(ck, f, p, D, what)
        ck.done(["whole payload set", "variable 0: set"])
        # get_size
        if S_ == S1:
            f, ps = run_paths(ctx, u, pre + "get_size", merge=True)
            ck = Check(R, "get_size of a " + what, f)
            for p in ps:
                if p.end == "ret":
                    k = known(p, D.size.ptr)
                    want = None if k is None else \
                        Poly.atom(("load", D.size.ptr)) if k else D.cap
                    ck("returns the size variable or the capacity",
                       p.ret == want, p, str(p.ret))
            ck.done(["returns the size variable or the capacity"])
    containers_copied(ctx)


def container_memset(ck, f, p, D, what):
    if p.end != "ret":
        return
    tg = [(e, d) for e, d in targets(p) if is_first(e)]
    if any(d == D.payload.ptr for e, d in tg):
        for e, d in tg:
            ck("whole payload set", d == D.payload.ptr and len(tg) == 1 and
               e.kind == "memset" and e.args[1] == D.payload.cap and
               e.args[3] == A(2), p, str(e.args), e)
        ck("payload set at once only if there is one",
           known(p, D.payload.ptr) is True, p)
        return
    if known(p, D.payload.ptr) and is_zero(p, D.payload.cap):
        return
    for e, d in tg:
        ck("nothing else is set", any(belongs(p, d, D, k) for k in
                                      range(len(D.vars))), p, str(d), e)
    for k, (kind, v) in enumerate(D.vars):
        t = "variable %d: " % k
        mine = [(e, d) for e, d in tg if belongs(p, d, D, k)]
        if kind == J:
            jagged_memset(ck, f, p, v, A(2), t, mine)
            continue
        ptr, nb = (v.ptr, v.S * v.cap) if kind == V else (v[0], C(v[1]))
        ck(t + "set", len(mine) == 1 or not mine and
           is_zero(p, v.cap if kind == V else C(1)), p)
        for e, d in mine:
            ck(t + "all bytes set", e.kind == "memset" and d == ptr and
               e.args[1] == nb and e.args[3] == A(2), p, str(e.args), e)


class ConHooks(CopyHooks):
    """Copies of (jagged) vector views are operations of their own."""

    def kind(self, st, I, args):
        n = I.d.get("callee", "")
        for k, rx in CALLS:
            if re.search(rx, n):
                return k
        return CopyHooks.kind(self, st, I, args)

    def readonly(self, st, I, kind, k):
        kind = kind or self.kind(st, I, [st.val(z) for z in I.args])
        if kind in dict(CALLS):
            return k != 0 or kind == "vcopy" and len(I.args) == 4
        return CopyHooks.readonly(self, st, I, kind, k)

    def effect(self, st, I, kind, args):
        if kind == "set_sizes" or kind == "vcopy" and len(args) == 5:
            o = Poly.atom(("out", I.id, "event", 0, 0))
            st.write(args[0], 8, o)
            st.fa.nz.add(o)
            return True
        return kind == "vcopy" or CopyHooks.effect(self, st, I, kind, args)


VIEW = r"vecmem::data::(jagged_)?vector_view<[^()]*>( const)?&?"
NAME = r"vecmem::copy::(operator\(\)|[a-z_]+)<[^()]*>\("
CALLS = [("vcopy", NAME + VIEW + ", " + VIEW +
          r", vecmem::copy::type::copy_type\)"),
         ("get_sizes", r"vecmem::copy::get_sizes<[^()]*>\("),
         ("set_sizes", r"vecmem::copy::set_sizes<[^()]*>\(")]
SIZES = {"E": 12, "G": 20, "char": 1}


class ConUnit(Unit):
    def __init__(self, ctx):
        Unit.__init__(self, ctx)
        self.p = ctx.unit("copy", opaque=["D:" + x for k, x in CALLS])
        q = ctx.unit("copy", entries=["^vp_slot_wait$", "D:" + CALLS[0][1]])
        self.inst = {f.name: f for f in q.fns
                     if re.search(CALLS[0][1], f.name)}
        self.used = {}

        def one(n):
            l = [f for f in self.p.fns if f.name == n]
            ctx.R.need(l, "entry %s not found" % n)
            return l[0]
        self.one = one

    def same_view(self, p, e, t, b, jag):
        """Does t point to a copy of the view at b?"""
        fs = (self.jsize, self.jptr, self.jhost) if jag else \
            (self.cap, self.size, self.ptr)
        return t == b or all(
            any(p.st.read(t + C(o), n, upto=e.path_mem) == ld(b, o)
                for n in (4, 8)) for o in fs)

    def nested(self, p):
        """Copies between views on a path: (event, from, to, kind)."""
        for e in p.events:
            if e.kind == "vcopy":
                yield e, e.args[-3], e.args[-2], e.args[-1]


def vcopy_instance(ctx, f, jag):
    """A copy between (jagged) vector views, called by the container copy."""
    m = re.search(r"<([A-Za-z_]+)>\(", f.name)
    ctx.R.need(m and m.group(1) in SIZES, "element type of %s" % f.name)
    S = SIZES[m.group(1)]
    k = 1 if len(f.d["args"]) == 5 else 0
    u = Unit(ctx)
    hk = CopyHooks(u, k)
    kind = A(k + 3)
    cls = Jag if jag else Vec
    F, T = cls(u, A(k + 1), S), cls(u, A(k + 2), S)
    what = "%s of %s" % ("jagged vectors" if jag else "vectors", m.group(1))
    ck = Check(ctx.R, "copy between " + what, f)
    ctx.R.fn(f)
    if jag:
        hk.keep = lambda c, pol: mismatch(F, T, c, pol)
    for p in paths(f, hk, merge=jag, limit=60000):
        if jag:
            jagged_copy(ck, f, p, F, T, kind)
        elif p.end == "ret":
            vector_copy(ck, p, F, T, kind)
        elif p.end == "throw":
            vector_throw(ck, p, F, T)
        if not jag:
            for e, d in targets(p):
                ck("writes the target or local memory only",
                   d in (T.ptr, T.size) or p.st.root(d), p, str(d), e)
    ck.done(["every non-empty inner vector is copied"] if jag else
            ["payload bytes, source and kind"])


def containers_copied(ctx):
    """C07"""
    R = ctx.R
    u = ConUnit(ctx)
    used = {}
    for S_, pre, what in ((S1, "vp_e", "container"),
                          (S2, "vp_e2", "jagged container")):
        l = Lay(Unit(ctx), ctx, S_)
        F, T = Con(u, l, A(1)), Con(u, l, A(2))
        f = u.one(pre + "copy")
        R.fn(f)
        hk = ConHooks(u)
        jj = [(v, w) for (k, v), (_, w) in zip(F.vars, T.vars) if k == J]
        if jj:
            hk.keep = lambda c, pol: mismatch(jj[0][0], jj[0][1], c, pol)
        ps = paths(f, hk, merge=bool(jj), limit=60000)
        R.count("paths", len(ps))
        ck = Check(R, what + " to " + what, f)
        for p in ps:
            container_copy(ck, u, f, p, F, T, used)
        ck.done(["in one go: payload", "variable 0: copied once",
                 "variable 1: copied once"])
    for n, jag in sorted(used.items()):
        R.need(n in u.inst, "no body of %s" % n)
        vcopy_instance(ctx, u.inst[n], jag)


def container_copy(ck, u, f, p, F, T, used):
    l, b = F.l, F.b
    parts = [("payload", V, l.payload, 1), ("size", V, l.size, 1)] + \
        [(j, k, o, s) for j, (o, (k, s)) in enumerate(zip(l.vars, l.kinds))]
    kind = A(3)
    done = {}
    for e, x, y, k in u.nested(p):
        jag = "jagged_vector_view" in e.ins.d["callee"]
        used[e.ins.d["callee"]] = jag
        if not is_first(e):
            ck("views are copied once", False, p, "in a loop", e)
        m = [t for t in parts if t[1] != "scalar" and
             (t[1] == J) == jag and
             u.same_view(p, e, y, T.b + C(t[2]), jag)]
        if not ck("writes the target only", len(m) == 1, p, str(e.args), e):
            continue
        n, kd, off, s = m[0]
        ck("the corresponding view is copied", u.same_view(
            p, e, x, F.b + C(off), jag) and k == kind, p, str(e.args), e)
        done.setdefault(n, []).append(e)
    raw = [(e, d) for e, d in targets(p) if is_first(e)]
    for e, d in raw:
        for j, (kd, v) in enumerate(T.vars):
            if kd == "scalar" and d == v[0]:
                done.setdefault(j, []).append(e)
                ck("variable %d: bytes, source and kind" % j,
                   e.kind == "copy" and e.args[1] == C(v[1]) and
                   e.args[2] == F.vars[j][1][0] and e.args[4] == kind, p,
                   str(e.args), e)
                break
        else:
            ck("writes the target or local memory only",
               d == T.size.ptr or p.st.root(d), p, str(d), e)
            if d == T.size.ptr:
                done.setdefault("raw size", []).append(e)
    sets = p.calls("set_sizes")
    both = known(p, F.payload.ptr) is True and \
        known(p, T.payload.ptr) is True
    same = both and eq_known(p, F.payload.cap, T.payload.cap)
    one = "payload" in done or p.end == "ret" and same and \
        not any(j in done for j in range(len(T.vars)))
    if not one:
        ck("sizes of the target are set through its variables only",
           not sets and "raw size" not in done and "size" not in done, p)
        if p.end != "ret":
            return
        for j, (kd, v) in enumerate(T.vars):
            ck("variable %d: copied once" % j, len(done.get(j, [])) == 1, p,
               "%d copies" % len(done.get(j, [])))
        return
    t = "in one go: "
    ck(t + "only for containers with a single payload of the same size",
       same, p)
    ck(t + "only for equal capacities", eq_known(p, F.cap, T.cap), p)
    e0 = (done.get("payload") or [p.events[-1]])[0]
    for (k, v), (_, w) in zip(F.vars, T.vars):
        if k == J:
            same_layout(ck, t, f, p, v, w, e0)
    if p.end != "ret":
        return
    ck(t + "payload", len(done.get("payload", [])) == 1 or
       "payload" not in done and (is_zero(p, T.payload.cap) or
                                  is_zero(p, F.payload.cap)), p)
    ck(t + "nothing else is copied",
       not any(j in done for j in range(len(T.vars))), p)
    if is_zero(p, T.payload.cap) or is_zero(p, F.payload.cap):
        # no elements, so that sizes cannot be anything but zero
        return
    r = known(p, T.size.ptr)
    ck(t + "decides whether the target is resizable", r is not None, p)
    n = len(done.get("size", [])) + len(done.get("raw size", []))
    if r is False:
        ck(t + "sizes written to resizable targets only", n == 0 and
           not sets, p)
        return
    k = known(p, F.size.ptr)
    ck(t + "decides whether the source is resizable", k is not None, p)
    if k:
        ck(t + "size variables of the source are copied", n == 1 and
           len(done.get("size", [])) == 1 and not sets, p)
        ck(t + "size variables of the same number", eq_known(
            p, F.size.cap, T.size.cap), p)
    elif all(kd != J for kd, v in F.vars):
        l = done.get("raw size", [])
        ck(t + "size of the target set once", len(l) == 1, p)
        for e in l:
            ck(t + "size of the target set to the capacity of the source",
               e.kind == "copy" and e.args[1] == C(4) and
               p.st.read(e.args[2], 4, upto=e.path_mem) in
               (F.cap, T.cap) and size_kind_ok(p, e, kind), p, str(e.args),
               e)
    else:
        for (kd, v), (_, w) in zip(F.vars, T.vars):
            if kd != J:
                continue
            l = [e for e in sets
                 if u.same_view(p, e, e.args[3], w.b, True)]
            ck(t + "sizes of the inner vectors set once", len(l) == 1, p)
            for e in l:
                g = [x for x in p.calls("get_sizes") if x.n < e.n and
                     x.args[0] == e.args[2]]
                ck(t + "sizes of the inner vectors are those of the source",
                   g and u.same_view(p, g[-1], g[-1].args[2], v.b, True), p,
                   str(e.args), e)


def same_layout(ck, t, f, p, v, w, e):
    ck(t + "only for the same number of inner vectors",
       eq_known(p, v.size, w.size), p, "", e)
    bad = [c for c in p.conds if mismatch(v, w, *c) == "cap"]
    ck(t + "only for equal capacities of the inner vectors", not bad, p,
       "also happens after %s" % (bad[:1],), e)
    looked_for(ck, t + "capacities of the inner vectors compared", f, p, v, w,
               "cap", e)


# --------------------------------------------------------------- host copies
def base(ctx):
    """C08"""
    R = ctx.R
    P = ctx.core()
    for name, kind in (("do_copy", "memcpy"), ("do_memset", "memset")):
        l = [f for f in P.fns if f.qn == "vecmem::copy::" + name]
        R.need(l, "vecmem::copy::%s not found" % name)
        f = l[0]
        R.fn(f)
        ck = Check(R, name, f)
        for p in paths(f):
            if p.end != "ret":
                continue
            if kind == "memcpy":
                es = [e for e in p.events if e.kind == "memcpy"]
                ck("copies the bytes asked for", len(es) == 1 and
                   es[0].args == [A(3), A(2), A(1)] or
                   not es and is_zero(p, A(1)), p,
                   str([e.args for e in es]))
            else:
                es = [e for e in p.events if e.kind == "memset_local"]
                ck("sets the bytes asked for", len(es) == 1 and
                   es[0].args[0] == A(2) and es[0].args[2] == A(1) and
                   byte_of(es[0].args[1], A(3)) or
                   not es and is_zero(p, A(1)), p,
                   str([e.args for e in es]))
        ck.done(["copies the bytes asked for" if kind == "memcpy" else
                 "sets the bytes asked for"])
    l = [f for f in P.fns if f.qn == "vecmem::copy::create_event"]
    R.need(l, "vecmem::copy::create_event not found")
    for p in paths(l[0]):
        if p.end == "ret":
            v = p.load(A(0))
            a = v.single_atom()
            R.ob("create_event", "the event returned exists",
                 bool(a and a[0] == "call" and a[2] == "operator new"),
                 l[0].name, str(v))


def byte_of(t, x):
    for k in range(20):
        e = ev.Env(k, {x.single_atom(): 37 * k + 300})
        if e.ev(t) & 255 != (37 * k + 300) & 255:
            return False
    return True
