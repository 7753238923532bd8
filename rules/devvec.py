"""Rules for device_vector (properties D..)."""
from vp.q import A, C
from vp.ir import Poly
from vp.paths import paths
from vp import ev, ineq, loops
from .elements import (ld, vals, spans, LifeHooks, life_names, MAKE,
                       source_of, feasible)
from .copying import Check, index_of, is_first, known

S = 12


class DV:
    def __init__(self, ctx, extra=()):
        self.ctx = ctx
        R = ctx.R
        self.u = ctx.unit("device", extra=list(extra)) if extra else \
            ctx.unit("device")
        self.hooks = LifeHooks(life_names(ctx, self.u))
        f = self.one("vp_make")
        # fields of the view and of the vector
        v = {}
        for n in ("cap", "size", "ptr"):
            g = self.one("vp_v_" + n)
            a = g.val(g.rets()[0].args[0]).single_atom()
            R.need(a and a[0] == "load", "vp_v_%s: unexpected accessor" % n)
            v[n] = (a[1] - A(0)).cval()
        self.view = v
        self.off = {}
        ps = [p for p in paths(f) if p.end == "ret"]
        R.need(ps, "constructor of device_vector: no path")
        for n in v:
            for o in range(0, 40, 4):
                if all(p.st.read(A(0) + C(o), 4 if n == "cap" else 8) ==
                       ld(A(1), v[n]) for p in ps):
                    self.off[n] = o
                    break
        self.made = set(self.off) == set(v)
        if not self.made:
            self.off = {"cap": 0, "size": 8, "ptr": 16}
        self.cap, self.szp, self.ptr = (ld(A(0), self.off[n]) for n in
                                        ("cap", "size", "ptr"))
        self.cur = Poly.atom(("load", self.szp))

    def one(self, n):
        l = [f for f in self.u.fns if f.name == n]
        self.ctx.R.need(l, "entry %s not found" % n)
        return l[0]

    def run(self, n):
        f = self.one(n)
        self.ctx.R.fn(f)
        ps = paths(f, self.hooks, limit=4000)
        self.ctx.R.count("paths", len(ps))
        return f, ps

    def rmw(self, p):
        return [e for e in p.events if e.kind == "atomicrmw" and
                e.args[0] == self.szp]

    def size_ops(self, p):
        """Everything that changes the size."""
        return [e for e in p.events if e.kind in
                ("atomicrmw", "store", "cmpxchg") and e.args[0] == self.szp]

    def elems(self, p, kinds):
        """Life time events on anything but local variables."""
        out = []
        for e in p.events:
            if e.kind in kinds and is_first(e):
                r = p.st.root(e.args[0])
                if r is None or r[0][0] != "alloca":
                    out.append(e)
        return out


APPEND = [("vp_push_back", "push_back", C(1), "copyc", A(1)),
          ("vp_emplace_back", "emplace_back", C(1), "argc", None),
          ("vp_append", "bulk_append", A(1), None, "default"),
          ("vp_append_value", "bulk_append of a value", A(1), "copyc", A(2)),
          ("vp_append_implicit", "bulk_append_implicit", A(1), "none", None),
          ("vp_append_unsafe", "bulk_append_implicit_unsafe", A(1), "none",
           None)]
NS_ = (0, 1, 2, 3)


def claims(ctx):
    """D01"""
    R = ctx.R
    d = DV(ctx)
    for n, what, cnt, kind, src in APPEND:
        f, ps = d.run(n)
        ck = Check(R, what, f)
        for p in ps:
            ops = d.size_ops(p)
            if p.end == "loop":
                continue
            ck("the size is raised by one atomic addition of the number of "
               "new elements", len(ops) == 1 and
               ops[0].kind == "atomicrmw" and ops[0].ins["rmw"] == "add" and
               ops[0].args[1] == cnt and not ops[0].loops, p,
               str([(e.kind, e.args) for e in ops]),
               ops[-1] if ops else None)
            if len(ops) != 1 or ops[0].kind != "atomicrmw":
                continue
            idx = f.val({"k": "ins", "i": ops[0].ins.id}) \
                if ops[0].ret is None else ops[0].ret
            if p.end == "ret":
                want = d.ptr + C(S) * idx if n == "vp_emplace_back" else idx
                ck("what is returned is the place claimed by the addition",
                   p.ret == want, p, str(p.ret), p.events[-1])
            mk = d.elems(p, MAKE)
            ck("elements are made after their place was claimed",
               all(e.n > ops[0].n for e in mk), p)
            smp = [vals([(idx, i)] + ([(cnt, c)] if cnt.cval() is None
                                      else []))
                   for i in (0, 5) for c in NS_]

            def want(s, idx=idx, cnt=cnt):
                c = cnt.cval()
                if c is None:
                    c = s[cnt.single_atom()]
                i = s[idx.single_atom()]
                return range(i, i + c)
            if kind != "none":
                spans(ck, "exactly the claimed elements are made", f, p, mk,
                      lambda e: e.args[0], d.ptr, S, smp, want)
            other = [e for e in p.events if e.kind in
                     ("store", "memcpy", "memset_local") and
                     e not in ops and is_first(e)]
            ck("nothing else is written", not other, p, "", other[-1]
               if other else None)
        ck.done(["what is returned is the place claimed by the addition"])
    f, ps = d.run("vp_pop_back")
    ck = Check(R, "pop_back", f)
    for p in ps:
        if p.end != "ret":
            continue
        ops = d.size_ops(p)
        good = len(ops) == 1 and ops[0].kind == "atomicrmw" and (
            ops[0].ins["rmw"] == "add" and ops[0].args[1].cval() in
            (-1, 2 ** 32 - 1) or ops[0].ins["rmw"] == "sub" and
            ops[0].args[1].cval() == 1)
        if not ck("the size is lowered by one atomic subtraction", good, p,
                  str([(e.kind, e.args) for e in ops])):
            continue
        idx = f.val({"k": "ins", "i": ops[0].ins.id})
        ds = d.elems(p, ("destroy",))
        ck("the element that was the last one is destroyed",
           len(ds) == 1 and ds[0].args[0] == d.ptr + C(S) * (idx - C(1)), p,
           str([e.args for e in ds]))
        ck("the new size is returned", p.ret == idx - C(1), p, str(p.ret))
    ck.done(["the new size is returned"])


def lifetime(ctx):
    """D02"""
    R = ctx.R
    d = DV(ctx)
    CURS = (0, 1, 3)
    # resize, clear, assign
    for n, what, src in (("vp_resize", "resize", "default"),
                         ("vp_resize_value", "resize with a value", A(2)),
                         ("vp_resize_implicit", "resize_implicit", None),
                         ("vp_resize_unsafe", "resize_implicit_unsafe", None),
                         ("vp_clear", "clear", None),
                         ("vp_assign", "assign", A(2))):
        f, ps = d.run(n)
        ck = Check(R, what, f)
        new = C(0) if n == "vp_clear" else A(1)
        smp = [vals([(d.cur, c)] + ([(A(1), k)] if n != "vp_clear" else []))
               for c in CURS for k in (NS_ if n != "vp_clear" else (0,))]

        def nv(s):
            return 0 if n == "vp_clear" else s[A(1).single_atom()]

        def cv(s):
            return s[d.cur.single_atom()]
        for p in ps:
            if p.end != "ret":
                continue
            mk, ds = d.elems(p, MAKE), d.elems(p, ("destroy",))
            if n in ("vp_resize_implicit", "vp_resize_unsafe"):
                ck("no element is made or destroyed", not mk and not ds, p)
            else:
                keep = n.startswith("vp_resize")
                spans(ck, "exactly the superfluous elements are destroyed",
                      f, p, ds, lambda e: e.args[0], d.ptr, S, smp,
                      lambda s: range(nv(s), cv(s)) if keep else
                      range(cv(s)))
                spans(ck, "exactly the missing elements are made", f, p, mk,
                      lambda e: e.args[0], d.ptr, S, smp,
                      lambda s: range(cv(s), nv(s)) if keep else
                      range(nv(s)))
                for e in mk:
                    ck("new elements have the given value",
                       value_ok(p, e, src), p, str(e.args), e)
                if n == "vp_assign" and mk and ds:
                    ck("old elements are destroyed before new ones are made",
                       max(e.n for e in ds) < min(e.n for e in mk), p)
            ops = d.size_ops(p)
            same = ineq.implies(p.conds, "eq", d.cur, new)
            ck("the new size is set", bool(ops) and ops[-1].kind == "store"
               and ops[-1].args[1] == new or not ops and same, p,
               str([(e.kind, e.args) for e in ops]))
        ck.done(["the new size is set"])
    # values of appended elements
    for n, what, cnt, kind, src in APPEND:
        if kind == "none":
            continue
        f, ps = d.run(n)
        ck = Check(R, what, f)
        for p in ps:
            for e in d.elems(p, MAKE):
                if n == "vp_emplace_back":
                    ck("the new element is made from the arguments",
                       e.kind == "argc" and e.args[1:] == [A(1), A(2)], p,
                       str(e.args), e)
                else:
                    ck("new elements have the given value",
                       value_ok(p, e, src), p, str(e.args), e)
            ck("no element is destroyed", not d.elems(p, ("destroy",)), p)
        ck.done(["no element is destroyed"])
    # all temporaries are destroyed once
    for f in d.u.fns:
        if f.name in ("vp_make_default", "vp_make_copy", "vp_make_args",
                      "vp_destroy"):
            continue
        ck = Check(R, f.name, f)
        for p in paths(f, d.hooks, limit=4000):
            if p.end != "ret":
                continue
            live = {}
            for e in p.events:
                if e.kind in MAKE or e.kind == "destroy":
                    r = p.st.root(e.args[0])
                    if r is None or r[0][0] != "alloca" or not is_first(e):
                        continue
                    live[r[0]] = live.get(r[0], 0) + \
                        (1 if e.kind in MAKE else -1)
            if live:
                ck("temporary elements are destroyed",
                   not any(live.values()), p)
        if ck.asp:
            ck.done()


def value_ok(p, e, src):
    if src == "default":
        return e.kind == "default" or e.kind == "copyc" and \
            source_of(p, e) == "default"
    return e.kind == "copyc" and source_of(p, e) == src


def accessors(ctx):
    """D03"""
    R = ctx.R
    d = DV(ctx)
    ck = Check(R, "construction from a view", d.one("vp_make"))
    ck("capacity, size and elements are those of the view", d.made)
    ck.done()
    for n, what in (("vp_copy", "copy constructor"),
                    ("vp_assign_op", "assignment")):
        f, ps = d.run(n)
        ck = Check(R, what, f)
        for p in ps:
            if p.end != "ret":
                continue
            same = ineq.implies(p.conds, "eq", A(0), A(1))
            ok = all(p.st.read(A(0) + C(o), 4 if k == "cap" else 8) in
                     (ld(A(1), o), same and ld(A(0), o))
                     for k, o in d.off.items())
            ck("refers to the same elements, size and capacity", ok, p)
        ck.done(["refers to the same elements, size and capacity"])
    size = {True: d.cur, False: d.cap}

    def n_of(p):
        return size.get(known(p, d.szp))
    fixed = {
        "at": A(1), "cat": A(1), "index": A(1), "cindex": A(1),
        "front": C(0), "cfront": C(0), "data": C(0), "cdata": C(0),
        "begin": C(0), "begin_c": C(0), "cbegin": C(0),
        "rend": C(-1), "rend_c": C(-1), "crend": C(-1)}
    last = {"back": -1, "cback": -1, "end": 0, "end_c": 0, "cend": 0,
            "rbegin": -1, "rbegin_c": -1, "crbegin": -1}
    for n in list(fixed) + list(last):
        f, ps = d.run("vp_" + n)
        ck = Check(R, n, f)
        for p in ps:
            if p.end != "ret":
                continue
            if n in fixed:
                i = fixed[n]
            else:
                k = n_of(p)
                if not ck("looks at the size", k is not None, p):
                    continue
                i = k + C(last[n])
            ck("refers to the right element", p.ret == d.ptr + C(S) * i, p,
               str(p.ret), p.events[-1])
            ck("changes nothing", not writes(p), p)
        ck.done(["refers to the right element"])
    for n in ("size", "empty", "max_size", "capacity"):
        f, ps = d.run("vp_" + n)
        ck = Check(R, n, f)
        for p in ps:
            if p.end != "ret":
                continue
            if n in ("max_size", "capacity"):
                ok = p.ret == d.cap
            else:
                k = n_of(p)
                ok = k is not None and (
                    p.ret == k if n == "size" else is_test(p, k))
            ck("gives the right number", ok, p, str(p.ret), p.events[-1])
            ck("changes nothing", not writes(p), p)
        ck.done(["gives the right number"])


def is_test(p, k):
    """Does the path return whether k is zero?"""
    for v in (0, 1, 7, 2 ** 31):
        fx = {k.single_atom(): v}
        if not feasible(p, fx):
            continue
        if not loops.only_known(p.ret, set(fx)):
            return False
        if (ev.Env(1, fx).ev(p.ret) & 1) != (v == 0):
            return False
    return True


def writes(p):
    return [e for e in p.events if e.kind in
            ("store", "atomicrmw", "cmpxchg", "memcpy", "memset_local") or
            e.kind in MAKE or e.kind == "destroy"]


def choices(f, t, seen=()):
    """The terms among which t is selected."""
    a = t.single_atom()
    if a and a[0] == "select":
        return choices(f, a[2], seen) + choices(f, a[3], seen)
    if a and a[0] == "phi" and len(a) == 2 and a not in seen:
        for i in f.all():
            if i.op == "phi" and i.id == a[1]:
                return [y for x in i.args
                        for y in choices(f, f.val(x), seen + (a,))]
    return [t]


def atomic_size(ctx):
    """D04"""
    R = ctx.R
    d = DV(ctx)
    n = 0
    for f in d.u.fns:
        if f.name.startswith("vp_v_"):
            continue
        R.fn(f)
        bad = None
        k = 0
        for i in f.all():
            if i.op == "load":
                a = f.val(i.args[0])
            elif i.op == "store":
                a = f.val(i.args[1])
            elif i.op in ("atomicrmw", "cmpxchg"):
                a = f.val(i.args[0])
            else:
                continue
            if not any(x in (d.szp, ld(A(1), d.off["size"]))
                       for x in choices(f, a)):
                continue
            k += 1
            if i.op in ("load", "store") and not i.get("ord"):
                bad = bad or i
        if k:
            n += k
            R.ob(f.name, "the size is accessed by atomic operations only",
                 bad is None, bad.where() if bad else f.name)
    R.count("accesses of size variables", n)
    R.need(n > 10, "accesses of the size variable not found")


def within(p, d, e):
    i = index_of(e.args[0], d.ptr.single_atom(), S)
    return i is not None and ineq.implies(p.conds, "ult", i, d.cap)


def debug_checks(ctx):
    """D05"""
    R = ctx.R
    d = DV(ctx, extra=["-UNDEBUG"])
    for n, what, cnt, kind, src in APPEND:
        f, ps = d.run(n)
        ck = Check(R, what, f)
        for p in ps:
            ops = [e for e in d.rmw(p)]
            if p.end != "ret" or not ops:
                continue
            idx = f.val({"k": "ins", "i": ops[0].ins.id})
            # or else, each element is checked before it is made
            mk = d.elems(p, MAKE)
            ck("goes on only if the elements fit into the capacity",
               ineq.implies(p.conds, "ule", idx + cnt, d.cap) or
               cnt == C(1) and ineq.implies(p.conds, "ult", idx, d.cap) or
               kind != "none" and (mk or known(p, cnt) is False) and
               all(within(p, d, e) for e in mk), p)
            ck("goes on only if the vector is resizable",
               known(p, d.szp) is True, p)
        ck.done(["goes on only if the elements fit into the capacity",
                 "goes on only if the vector is resizable"])
    for n in ("at", "cat"):
        f, ps = d.run("vp_" + n)
        ck = Check(R, n, f)
        for p in ps:
            if p.end != "ret":
                continue
            k = known(p, d.szp)
            ck("the index is below the size", k is not None and ineq.implies(
                p.conds, "ult", A(1), d.cur if k else d.cap), p)
        ck.done(["the index is below the size"])
    for n in ("front", "cfront", "back", "cback"):
        f, ps = d.run("vp_" + n)
        ck = Check(R, n, f)
        for p in ps:
            if p.end != "ret":
                continue
            k = known(p, d.szp)
            ck("the vector is not empty", k is not None and known(
                p, d.cur if k else d.cap) is True, p)
        ck.done(["the vector is not empty"])
    for n in ("resize_implicit", "resize_unsafe", "assign", "resize_value",
              "pop_back", "clear"):
        f, ps = d.run("vp_" + n)
        ck = Check(R, n, f)
        for p in ps:
            if p.end != "ret":
                continue
            ck("goes on only if the vector is resizable",
               known(p, d.szp) is True, p)
            if n in ("resize_implicit", "resize_unsafe", "assign"):
                ck("the new size is within the capacity", ineq.implies(
                    p.conds, "ule", A(1), d.cap), p)
        ck.done(["goes on only if the vector is resizable"])
