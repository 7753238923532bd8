"""What accessors give access to, compared with what is meant: entries vp_X
against specifications sp_X written in C++ next to them."""
from vp.q import A, C
from vp.ir import Poly
from vp.paths import paths, Hooks
from vp import sample
from . import buffers
from .copying import Check
from .blocks import atom


def outcome(r, drop=()):
    """What a path does and returns under a sample, as values."""
    out = []
    root = r.p.st.root
    for e in r.p.events:
        if e.second or e.kind in ("ret", "assume") or e.kind in drop:
            continue
        if e.kind == "store" and root(e.args[0]) and \
           root(e.args[0])[0][0] == "alloca":
            continue
        l = r.when(e)
        if l is None:
            return None
        for env in l:
            n = e.ins.qn if e.ins.is_call() else e.ins.get("rmw", "")
            if not n and isinstance(e.extra, Poly):
                n = "indirect %s" % env.get(e.extra)
            args = tuple(env.get(a) for a in e.args)
            if e.kind == "store":
                args += (e.ins.get("sz", 8),)
            out.append((e.kind, n, args))
    ret = r.p.ret
    return out, (r.env.get(ret) if ret is not None and r.p.end == "ret"
                 else None), r.p.end


def overlaps(o):
    """Do stores to different objects touch the same bytes?"""
    at = sorted({(a[0], a[2]) for k, n, a in o[0]
                 if k == "store" and None not in a})
    return any(x + z > y for (x, z), (y, _) in zip(at, at[1:]))


def final(o):
    """Outcome with the stores in memory order."""
    evs, ret, end = o
    mem = {}
    calls = []
    for k, n, a in evs:
        if k == "store" and None not in a:
            for i in range(a[2]):
                mem[a[0] + i] = a[1] >> 8 * i & 255
        elif k == "store":
            mem[a[0]] = a[1]
        elif k == "memset_local" and None not in a and a[2] < 1 << 16:
            for i in range(a[2]):
                mem[a[0] + i] = a[1] & 255
        else:
            calls.append((k, n, a))
    if ret == (1 << 64) - 1:
        ret = 1         # true
    return calls, sorted(mem.items(), key=str), ret, end


SIZES = {"int": 4, "double": 8}


class Nth(Hooks):
    """The n-th result of a function, wherever it is called."""
    atomics = True

    def value(self, st, I, kind, args):
        n = I.qn if I.is_call() else I.op
        n = n or "indirect"
        if not I.is_call():
            return Poly.atom(("nth", n, args[0], sum(
                e.kind == n for e in st.events if not e.second)))
        k = sum(e.ins.is_call() and (e.ins.qn or "indirect") == n
                for e in st.events if not e.second)
        return Poly.atom(("nth", n, k))

    def effect(self, st, I, kind, args):
        if I.qn == "std::vector::_M_default_initialize":
            o = C(8) if "polymorphic_allocator" in I["callee"] else C(0)
            z = next((z for t, z in SIZES.items()
                      if "vector<%s," % t in I["callee"]), None)
            b = st.read(args[0] + o)
            st.write(args[0] + o + C(8), 8, b + args[1].scale(z) if z else
                     Poly.atom(("end", b, args[1])))
            return True


class Given(sample.Hashed):
    """Some memory is known."""

    def atom_value(self, a, key):
        if key[0] == "load" and len(key) == 2 and \
           key[1] in self.fixed["mem"]:
            return self.fixed["mem"][key[1]]
        return super().atom_value(a, key)


def same(ctx, u, name, what, hooks=None, fixed=None, seeds=40, mask=None,
         need="as meant"):
    """vp_name does what sp_name says."""
    R = ctx.R
    f, g = [[z for z in u.fns if z.name == pre + name]
            for pre in ("vp_", "sp_")]
    R.need(f and g, "entries for %s not found" % name)
    f, g = f[0], g[0]
    R.fn(f)
    ck = Check(R, what, f)
    h = hooks or Nth()
    pf = paths(f, h, merge=False, limit=20000)
    pg = paths(g, h, merge=False, limit=20000)
    R.count("paths", len(pf))
    hit = 0
    eq = name[-2:] in ("eq", "ne")
    for k in range(seeds * (8 if eq else 1)):
        fx = dict(fixed(k) if fixed else {})
        kind = Given if "mem" in fx else sample.Coarse if eq and k & 3 \
            else sample.Hashed
        a, b = [sample.runs(z, ps, fx, k, ("ret", "throw"), kind)
                for z, ps in ((f, pf), (g, pg))]
        oa, ob = [[outcome(r) for r in x] for x in (a, b)]
        if None in ob or not ob:
            continue        # beyond the bounds of the evaluation
        if any(overlaps(o) for o in ob):
            continue        # arguments that lie in each other
        if None in oa or not oa:
            ck(need, False, a[0].p if a else None,
               "what happens is not determined")
            break
        oa, ob = [[final(o) for o in x] for x in (oa, ob)]
        if mask:
            oa, ob = [[mask(o) for o in x] for x in (oa, ob)]
        hit += 1
        for r, o in zip(a, oa):
            w = ob[0]
            d = next(((x, y) for x, y in zip(o[0] + [None], w[0] + [None])
                      if x != y), None)
            if d is None and o != w:
                d = (o[1:], w[1:])
            if not ck(need, o in ob, r.p, "got %s, meant %s" %
                      (d or (o, w))):
                break
    R.count("samples", hit)
    if not ck.failed():
        ck("enough cases are determined", hit >= 5, None, str(hit))
    ck.done([need])


def probes(o):
    """Only calls of the probes, and how it ends."""
    calls, mem, ret, end = o
    if end == "throw":
        return [], [], None, end
    return [c for c in calls if c[1].startswith("vp_")], mem, ret, end


def group(ctx, pre, what):
    u = ctx.unit("access", entries=["^(vp|sp)_" + pre])
    names = sorted(f.name[3:] for f in u.fns if f.name.startswith(
        "vp_" + pre))
    ctx.R.need(names, "no entries")
    for n in names:
        if "_throw_" in n:
            same(ctx, u, n, "%s: %s" % (what, n), mask=probes)
        else:
            same(ctx, u, n, "%s: %s" % (what, n))


def views(ctx):
    """V01"""
    group(ctx, "v_", "views")
    buffers.datas(ctx)


def jagged(ctx):
    """J01"""
    group(ctx, "j_", "jagged device vectors")
    group(ctx, "r_", "reverse iterators")


def arrays(ctx):
    """A01"""
    group(ctx, "a_", "arrays")


def soas(ctx):
    """E02"""
    u = ctx.unit("edm", entries=["^(vp|sp)_e_"])
    names = sorted(f.name[3:] for f in u.fns if f.name[:3] == "vp_")
    ctx.R.need(names, "no entries")
    for n in names:
        same(ctx, u, n, "SoA containers: %s" % n, mask=mine,
             seeds=400 if "make" in n else 40,
             fixed=(lambda k, j="_j" in n: equal(k, j)) if "_host_" in n or
             n in ("e_data", "e_datac") else None)


def equal(k, jag):
    """A host container, mostly with vectors of equal size."""
    H, n = 1 << 50, (0, 1, 2, 3, 5, 7, 100)[k % 7]
    i = (0, 1, 2, 4, 6, n - 1, n, n + 1)[k % 8]
    if k % 5 == 4:
        return {}
    a, z = (40, 32) if jag else (72, 12)
    mem = {H + 8: 1 << 40, H + 16: (1 << 40) + 8 * n,
           H + a: 1 << 42, H + a + 8: (1 << 42) + z * n}
    return {"mem": mem, atom(A(0)): H, atom(A(1)): max(i, 0)}


def mine(o):
    """Like probes, where something else can happen on the way."""
    return ([], [], None, "throw") if o[2:] and o[3] == "throw" else o
