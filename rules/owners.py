"""Smart pointers and the allocator (S01, S02)."""
from vp.q import A, C
from vp.ir import Poly
from vp.paths import paths
from vp import ev, ineq, loops
from .elements import LifeHooks, MAKE, spans, vals, feasible
from .copying import Check, is_first
from .blocks import is_up, atom

NAMES = [(p + "_make_default", "default") for p in ("vp", "vw")] + \
        [(p + "_make_copy", "copyc") for p in ("vp", "vw")] + \
        [(p + "_make_args", "argc") for p in ("vp", "vw")] + \
        [(p + "_destroy", "destroy") for p in ("vp", "vw")]


def life(ctx, u):
    out = {}
    for n, k in NAMES:
        l = [f for f in u.fns if f.name == n]
        ctx.R.need(l, "entry %s not found" % n)
        cs = [i.d["callee"] for i in l[0].calls() if "callee" in i.d]
        ctx.R.need(len(cs) == 1, "%s: one call expected" % n)
        out[cs[0]] = k
    return out


class OwnHooks(LifeHooks):
    exc = True

    def throws(self, I, kind):
        k = kind if kind != "call" else None
        return self.exc and (k in MAKE or I.qn == "vp_fill")

    def pure(self, I):
        return False


def owned(R, f, what, hooks, specs, n_args, moved=None):
    """Everything obtained on a path is set up, used, taken down and given
    back. specs: per resource term: (element size, alignment, count term or
    None, kind of life time, source)."""
    R.fn(f)
    ck = Check(R, what, f)
    ps = paths(f, hooks, exc=True, merge=False, limit=8000)
    R.count("paths", len(ps))
    for p in ps:
        if p.end not in ("ret", "throw"):
            continue
        ups = [e for e in p.events if is_up(e)]
        downs = [e for e in p.events if is_up(e, "deallocate")]
        if not ups and not downs and any(zero(p, s.get("bytes", s.get("n")))
                                         for s in specs):
            continue    # nothing to obtain
        if not ck("one block per object", len(ups) <= len(specs) and
                  (p.end == "throw" or len(ups) == len(specs)), p,
                  str([e.args for e in ups])):
            continue
        uses = [e for e in p.events if e.kind == "call" and
                e.ins.qn == "vp_use"]
        for e in ups:
            sp = [s for s in specs if s["mr"] == e.args[0]]
            if not ck("the block comes from the given resource",
                      len(sp) == 1, p, str(e.args), e):
                continue
            one_block(ck, f, p, e, sp[0], uses, downs, n_args)
        ck("nothing else is given back", len(downs) <= len(ups), p,
           str([d.args for d in downs]))
        if p.end == "ret":
            last = ups[0].ret
            ck("the pointer is the one of the object", len(uses) == 1 and
               uses[0].args[0] == last, p, str([u.args for u in uses]))
    ck.done(["the block is as large and aligned as the object",
             "the block is given back once, as it was obtained"])


def zero(p, t):
    return not isinstance(t, int) and null(p, t)


def null(p, t):
    return any(pr == "eq" and t in (u, v) and 0 in (u.cval(), v.cval())
               for pr, u, v in ineq.flat(p.conds))


def within(p, t, P):
    """Is the address in the block P, maybe by way of a moving pointer?"""
    seen, work = set(), [t]
    while work:
        for a in work.pop().atoms():
            if a == P.single_atom():
                return True
            if a not in seen and a[0] == "phi":
                seen.add(a)
                i = p.st.terms.get(("init", a[1]))
                if i is not None:
                    work.append(i)
    return False


def one_block(ck, f, p, e, s, uses, downs, n_args):
    P, B, L = e.ret, e.args[1], e.args[2]
    ok = True
    if s.get("bytes"):
        ok = B == s["bytes"] and (L == s["align"])
    else:
        for n in (0, 1, 2, 3, 17, 1000, 1 << 33):
            env = ev.Env(1, {atom(a): n for a in n_args})
            cnt = s["n"]
            want = s["size"] * (cnt if isinstance(cnt, int) else
                                env.ev(cnt))
            ok = ok and env.ev(B) >= want
        l = L.cval()
        ok = ok and l is not None and l >= s["al"] and l & (l - 1) == 0
    ck("the block is as large and aligned as the object", ok, p,
       "allocate(%s, %s) for objects of %s bytes, alignment %s" %
       (B, L, s.get("size"), s.get("al")), e)
    mine = [d for d in downs if d.args[1] == P]
    if null(p, P):
        if p.end == "ret":
            return
    else:
        ck("the block is given back once, as it was obtained",
           len(mine) == 1 and mine[0].args[0] == e.args[0] and
           mine[0].args[2] == B and mine[0].args[3] == L, p,
           "allocate(%s, %s); %s" % (B, L, [d.args for d in mine]),
           mine[0] if mine else e)
    at = mine[0].n if mine else 1 << 30
    made = [x for x in p.events if x.kind in MAKE and is_first(x) and
            within(p, x.args[0], P)]
    dead = [x for x in p.events if x.kind == "destroy" and is_first(x) and
            within(p, x.args[0], P)]
    ck("nothing touches the block after it was given back",
       all(x.n < at for x in made + dead), p)
    if s["kind"] == "fill":
        fl = [x for x in p.events if x.kind == "call" and
              x.ins.qn == "vp_fill" and x.args[0] == P]
        ck("the whole block is filled from the given source",
           len(fl) == 1 and fl[0].args[1] == s["src"] and
           all(ev.Env(k, {}).ev(fl[0].args[2]) == ev.Env(k, {}).ev(
               s["n"].scale(s["size"]) if not isinstance(s["n"], int) else
               C(s["n"] * s["size"])) for k in range(8)), p,
           str([x.args for x in fl]))
    if s["kind"] not in ("args", "array"):
        ck("no object is made or destroyed", not made and not dead, p)
        return
    bad = [x for x in p.events if x.kind == "unwind"]
    failed = bad and bad[0].ins.id in [x.ins.id for x in made] and \
        p.end == "throw"
    if s["kind"] == "args":
        if not ck("the object is made once, from the arguments",
                  len(made) == 1 and made[0].kind == "argc" and
                  made[0].args[0] == P and
                  made[0].args[1:3] == [s["src"], s["src2"]], p,
                  str([x.args for x in made])):
            return
        ck("the object is destroyed once, before its memory goes",
           len(dead) == (0 if failed else 1) and
           all(x.args[0] == P and x.n > made[0].n for x in dead), p,
           str([x.args for x in dead]))
        return
    # arrays
    ck("elements are made by default", all(x.kind == "default"
                                           for x in made), p)
    cnt = atom(s["n"])
    if not failed:
        smp = [{cnt: k} for k in range(4)]
        if p.end == "ret" or not bad or bad[0].ins.qn == "vp_use":
            spans(ck, "every element is made once", f, p, made,
                  lambda x: x.args[0], P, s["size"], smp,
                  lambda z: range(z[cnt]))
            spans(ck, "every element is destroyed once", f, p, dead,
                  lambda x: x.args[0], P, s["size"], smp,
                  lambda z: range(z[cnt]))
        return
    # the element whose construction failed
    w = [x for x in made if x.ins.id == bad[0].ins.id][-1]
    d = w.args[0] - P
    phis = [a for a in d.atoms() if a[0] == "phi"]
    if not ck("the failing element is known", len(phis) <= 1, p, str(d), w):
        return
    smp = [dict([(cnt, 3)] + ([(phis[0], k)] if phis else []))
           for k in range(3)]
    spans(ck, "when an element cannot be made, those before are destroyed",
          f, p, dead, lambda x: x.args[0], P, s["size"], smp,
          lambda z: range(ev.Env(1, z).ev(d) // s["size"]))


def smart(ctx):
    """S01"""
    R = ctx.R
    u = ctx.unit("owner", with_core=True, entries=["^v[pw]_"])
    h = OwnHooks(life(ctx, u))

    def run(n, what, specs, args=()):
        l = [f for f in u.fns if f.name == n]
        R.need(l, "entry %s not found" % n)
        owned(R, l[0], what, h, specs, args)
    for suf, sz, al, t in (("", 12, 4, ""), ("_w", 128, 128,
                                             ", over-aligned")):
        base = dict(mr=A(0), size=sz, al=al)
        run("vp_obj" + suf, "make_unique_obj" + t, [dict(
            base, kind="args", n=1, src=A(1), src2=A(2))])
        run("vp_objs" + suf, "make_unique_obj of an array" + t, [dict(
            base, kind="array", n=A(1))], [A(1)])
        run("vp_mem" + suf, "make_unique_alloc" + t, [dict(
            base, kind="raw", n=1)])
        run("vp_mems" + suf, "make_unique_alloc of an array" + t, [dict(
            base, kind="raw", n=A(1))], [A(1)])
        run("vp_copy" + suf, "make_unique_alloc with a copy" + t, [dict(
            base, kind="fill", n=1, src=A(1))])
        run("vp_copies" + suf, "make_unique_alloc with an array copy" + t,
            [dict(base, kind="fill", n=A(1), src=A(2))], [A(1)])
    e = dict(mr=A(0), size=12, al=4)
    k = dict(mr=A(1), size=12, al=4)
    run("vp_move", "moving a unique_obj_ptr", [dict(
        e, kind="args", n=1, src=A(1), src2=A(2))])
    run("vp_moves", "moving a unique_obj_ptr of an array", [dict(
        e, kind="array", n=A(1))], [A(1)])
    run("vp_move_mem", "moving a unique_alloc_ptr", [dict(
        e, kind="raw", n=A(1))], [A(1)])
    # (the units have no clean up of their own)
    h.exc = False
    run("vp_swap", "assigning unique_obj_ptr of arrays", [
        dict(e, kind="array", n=A(2)), dict(k, kind="array", n=A(3))],
        [A(2), A(3)])
    run("vp_swap_mem", "assigning unique_alloc_ptr", [
        dict(e, kind="raw", n=A(2)), dict(k, kind="raw", n=A(3))],
        [A(2), A(3)])
    run("vp_swap_obj", "assigning unique_obj_ptr", [
        dict(e, kind="args", n=1, src=A(2), src2=A(3)),
        dict(k, kind="args", n=1, src=A(2), src2=A(3))])


def allocator(ctx):
    """S02"""
    R = ctx.R
    u = ctx.unit("owner", with_core=True, entries=["^v[pw]_"])
    h = OwnHooks(life(ctx, u))
    mr = Poly.atom(("load", A(0)))

    def run(n, what, spec, args=()):
        l = [f for f in u.fns if f.name == n]
        R.need(l, "entry %s not found" % n)
        owned(R, l[0], what, h, [spec], args)
    for suf, sz, al, t in (("", 12, 4, ""), ("_w", 128, 128,
                                             ", over-aligned")):
        base = dict(mr=mr, size=sz, al=al)
        run("vp_a_obj" + suf, "new_object and delete_object" + t,
            dict(base, kind="args", n=1, src=A(1), src2=A(2)))
        run("vp_a_mem" + suf, "allocate_object and deallocate_object" + t,
            dict(base, kind="raw", n=A(1)), [A(1)])
    run("vp_a_one", "allocate_object, one", dict(
        mr=mr, size=128, al=128, kind="raw", n=1))
    run("vp_a_bytes", "allocate_bytes", dict(
        mr=mr, kind="raw", bytes=A(1), align=A(2)))
    run("vp_a_bytes_d", "allocate_bytes, default alignment", dict(
        mr=mr, kind="raw", n=A(1), size=1, al=16), [A(1)])
    run("vp_a_make", "an allocator made for a resource", dict(
        mr=A(1), kind="raw", bytes=A(2), align=A(3)))
