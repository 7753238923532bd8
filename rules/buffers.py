"""Buffers own their memory and lay it out without overlap (B01, B02)."""
import itertools

from vp.q import A, C
from vp.paths import paths
from vp import sample
from vp.ir import Poly
from .copying import Check, is_first, narrow
from .blocks import is_up, atom

TYPES = {"": (12, 4), "_w": (128, 128), "_c": (1, 1)}
PLACES = ["the memory is inside what was obtained",
          "no two parts of the memory overlap",
          "every part is aligned for its type"]


def entry(R, u, n):
    l = [f for f in u.fns if f.name == n]
    R.need(l, "entry %s not found" % n)
    R.fn(l[0])
    return l[0]


CAPS = ([], [0], [1], [5], [0, 0], [2, 3], [1, 0, 4], [7, 1, 0, 2],
        [1000, 1, 3, 2, 9])


class Env(sample.Env):
    """The n-th block obtained is as aligned as was asked for, and no more."""

    def atom_value(self, a, key):
        if a[0] == "block":
            return ((a[1] + 1) << 36) + a[2] * (2 * self.fixed["k"] + 1)
        if a[0] == "call" and a[2] == "operator new":
            return (1 << 45) + (a[1] << 30)
        return super().atom_value(a, key)


class Hooks(sample.Only):
    def value(self, st, I, kind, args):
        if I.qn == "std::pmr::memory_resource::allocate":
            return Poly.atom(("block", sum(map(is_up, st.events)),
                              args[2].cval() or 1))


    def effect(self, st, I, kind, args):
        if I.qn == "std::vector::_M_default_initialize":
            # n elements of 8 bytes
            st.write(args[0] + C(8), 8, st.read(args[0]) +
                     args[1] * C(8))
            return True


def takes(R, f, ss):
    """The samples (values, memory), with the paths which they take."""
    es = [Env(fx, mem) for fx, mem in ss]
    ps = paths(f, Hooks(es), merge=False, limit=20000)
    R.count("paths", len(ps))
    ups = {e.ins.id: e for p in ps for e in p.events if is_up(e)}
    bad = [(e, x) for e in ups.values() for x in [narrow(f, e.ins.args[1])]
           if x]
    R.ob("width", "%s: sizes of blocks are not computed in 32 bits" % f.qn,
         not bad, bad[0][0].where() if bad else "",
         "%s at %s" % (bad[0][1].op, bad[0][1].where()) if bad else "")
    for fx, mem in ss:
        R.count("samples")
        yield sample.runs(f, ps, fx, mem, kind=Env)


class Blocks:
    """What a path holds under a sample."""

    def __init__(self, ck, run, see):
        self.ck, self.run = ck, run
        self.b = []
        p = run.p
        downs = [e for e in p.events if is_up(e, "deallocate")]
        for e in p.events:
            if not is_up(e):
                continue
            P, B, L = e.ret, e.args[1], e.args[2]
            mine = [d for d in downs if d.args[1] == P]
            ck("every block is given back once, as it was obtained",
               len(mine) == 1 and mine[0].args[0] == e.args[0] and
               mine[0].args[2] == B and mine[0].args[3] == L, p,
               "allocate(%s, %s); %s" % (B, L, [d.args for d in mine]), e)
            if mine and mine[0].n < see.n:
                continue
            self.b.append((run.env.get(P), run.env.get(B), e.args[0]))
        ck("nothing else is given back", all(
            any(is_up(e) and e.ret == d.args[1] and e.n < d.n
                for e in p.events) for d in downs), p,
           str([d.args for d in downs]))

    def place(self, parts, text):
        """parts: (name, address, bytes, alignment, resource)"""
        ck, p = self.ck, self.run.p
        live = [x for x in parts if x[2]]
        for n, a, s, al, mr in live:
            ck(PLACES[0], a is not None and any(
                b is not None and z is not None and b <= a and
                a + s <= b + z and mr == m for b, z, m in self.b), p,
                "%s: %s at %s" % (text, n, a))
            ck(PLACES[2], a is not None and a % al == 0, p,
               "%s: %s at %s, needs %d" % (text, n, a, al))
        for x, y in itertools.combinations(live, 2):
            ck(PLACES[1], x[1] is not None and y[1] is not None and
               (x[1] + x[2] <= y[1] or y[1] + y[2] <= x[1]), p,
               "%s: %s and %s" % (text, x, y))


def sees(p, n):
    return [e for e in p.events if e.kind == "call" and e.ins.qn == n]


def one_vector(ctx, u, name, what, res, suf=""):
    R = ctx.R
    f = entry(R, u, name)
    sz, al = TYPES[suf]
    ck = Check(R, what, f)
    cases, ss = [], []
    for n in (0, 1, 2, 3, 4, 5, 17, 1000):
        for k in range(5):
            cases.append(n)
            ss.append(({"k": k, atom(A(0)): 1 << 50, atom(A(1)): n,
                        atom(A(2)): 1 << 51, atom(A(3)): n * 3 % 7}, {}))
    for n, rs in zip(cases, takes(R, f, ss)):
        if not ck("every size is handled", rs, None, "size %d" % n):
            continue
        for r in rs:
            p = r.p
            s = sees(p, "vp_see")
            b = Blocks(ck, r, s[0])
            cap, sp, dp = [r.env.get(x) for x in s[0].args]
            text = "capacity %d" % n
            ck("the capacity is the one asked for", cap == n, p, text)
            ck("only resizable buffers have a size variable",
               sp is not None and (sp == 0 or res) and
               (sp != 0 or not res or n == 0), p,
               "%s: size at %s" % (text, sp))
            b.place([("elements", dp, n * sz, al, A(0))] +
                    ([("size", sp, 4, 4, A(0))] if sp else []), text)
    ck.done(PLACES if res else PLACES[::2])


def empty(ctx, u, name, what):
    R = ctx.R
    f = entry(R, u, name)
    ck = Check(R, what, f)
    for p in paths(f, merge=False):
        for e in p.events:
            if e.kind == "call":
                ck("a default buffer is empty", all(
                    a.cval() == 0 for a in e.args), p, str(e.args), e)
    ck.done(["a default buffer is empty"])


def vectors(ctx):
    """B01"""
    u = ctx.unit("buffers", with_core=True, entries=["^vp_"])
    for suf in TYPES:
        for res in (False, True):
            one_vector(ctx, u, "vp_vb_" + ("res" if res else "fix") + suf,
                       "vector_buffer, %s, elements of %d bytes" % (
                           "resizable" if res else "fixed size",
                           TYPES[suf][0]), res, suf)
    one_vector(ctx, u, "vp_vb_move", "a moved vector_buffer", True)
    one_vector(ctx, u, "vp_vb_assign", "an assigned vector_buffer", True)
    one_vector(ctx, u, "vp_vb_fill", "a vector_buffer assigned to a default "
               "one", True)
    empty(ctx, u, "vp_vb_none", "vector_buffer")
    empty(ctx, u, "vp_jb_none", "jagged_vector_buffer")


def jagged(ctx):
    """B02"""
    u = ctx.unit("buffers", with_core=True, entries=["^vp_"])
    for suf in ("", "_w"):
        for res in (False, True):
            one_jagged(ctx, u, "vp_jb_" + ("res" if res else "fix") + suf,
                       "jagged_vector_buffer, %s, elements of %d bytes" % (
                           "resizable" if res else "fixed size",
                           TYPES[suf][0]), res, suf)
    one_jagged(ctx, u, "vp_jb_move", "a moved jagged_vector_buffer", True)
    one_jagged(ctx, u, "vp_jb_fill", "a jagged_vector_buffer assigned to a "
               "default one", True)


def one_jagged(ctx, u, name, what, res, suf=""):
    R = ctx.R
    f = entry(R, u, name)
    sz, al = TYPES[suf]
    cs = 4 if suf else 8
    ck = Check(R, what, f)
    cases, ss = [], []
    for caps in CAPS:
        for host in (False, True):
            for k in range(2):
                fx, mem = capacities(caps, cs, k)
                fx[atom(A(1))] = (1 << 49) if host else 0
                cases.append((caps, host))
                ss.append((fx, mem))
    for (caps, host), rs in zip(cases, takes(R, f, ss)):
        text = "capacities %s, %s host resource" % (
            caps, "a" if host else "no")
        if ck("every size is handled", rs, None, text):
            views(ck, rs, caps, host, res, sz, al, text)
    ck.done(PLACES)


def capacities(caps, cs, k):
    """A sample for f(resource, host resource, vector of capacities)."""
    V, D = 1 << 51, 1 << 52
    fx = {"k": k, atom(A(0)): 1 << 50, atom(A(1)): 1 << 49, atom(A(2)): V}
    mem = {V: D if caps else 0, V + 8: D + cs * len(caps) if caps else 0}
    for i, c in enumerate(caps):
        mem[D + cs * i] = c
    return fx, mem


def stored(ck, rs, text):
    """What has been written, by address."""
    W = {}
    for r in rs:
        for e in r.p.events:
            if e.kind != "store" or not is_first(e):
                continue
            l = r.when(e)
            if l is None:
                ck("the inner vectors are determined", False, r.p,
                   text, e)
                return
            for env in l:
                a, v = env.get(e.args[0]), env.get(e.args[1])
                if a is None:
                    ck("the inner vectors are determined", False, r.p,
                       text, e)
                    return
                W[a] = v
    ck("the inner vectors are determined", True)
    return W


def views(ck, rs, caps, host, res, sz, al, text):
    W = stored(ck, rs, text)
    if W is None:
        return
    for r in rs:
        p = r.p
        s = sees(p, "vp_seej")
        b = Blocks(ck, r, s[0])
        n, ptr, hp = [r.env.get(x) for x in s[0].args]
        ck("there are as many inner vectors as capacities", n == len(caps),
           p, "%s: %s" % (text, n))
        parts = []
        N = 24 * len(caps)
        if host:
            parts.append(("views", ptr, N, 8, A(0)))
            parts.append(("host views", hp, N, 8, A(1)))
        else:
            ck("the views are shared without a host resource", ptr == hp, p,
               text)
            parts.append(("views", ptr, N, 8, A(0)))
        for i, c in enumerate(caps):
            o = hp + 24 * i
            if not ck("every inner vector is set up", all(
                    W.get(o + z) is not None for z in (0, 8, 16)), p,
                    "%s: inner vector %d" % (text, i)):
                return
            ck("every inner vector has its capacity",
               W[o] & 0xffffffff == c, p, "%s: %d of %d" % (text, W[o], i))
            ck("only resizable buffers have size variables",
               (W[o + 8] != 0) == res, p, text)
            parts.append(("elements of %d" % i, W[o + 16], c * sz, al, A(0)))
            if res:
                parts.append(("size of %d" % i, W[o + 8], 4, 4, A(0)))
        b.place(parts, text)


CH, WIDE, TT, DBL = ("v", 1, 1), ("s", 128, 128), ("v", 12, 4), ("j", 8, 8)
SOA = {"1": [CH, WIDE, TT], "2": [TT],
       "3": [("s", 1, 1), TT, DBL], "4": [("j", 1, 1), ("j", 12, 4)]}
SOA_TEXT = {"1": "vector of 1, scalar of 128 and vector of 12 bytes",
            "2": "a vector of 12 bytes",
            "3": "scalar of 1, vector of 12 and jagged vector of 8 bytes",
            "4": "jagged vectors of 1 and of 12 bytes"}
INSIDE = "the memory of the container covers its variables, and only them"


def soas(ctx):
    """E01"""
    u = ctx.unit("buffers", with_core=True, entries=["^vp_"])
    for z in SOA:
        for res in (False, True):
            one_soa(ctx, u, "vp_eb_%s_%s" % ("res" if res else "fix", z),
                    "edm::buffer, %s, %s" % (
                        "resizable" if res else "fixed size", SOA_TEXT[z]),
                    z, res)
    one_soa(ctx, u, "vp_eb_move", "a moved edm::buffer", "2", True)
    one_soa(ctx, u, "vp_eb_fill", "an edm::buffer assigned to a default one",
            "1", True)


def one_soa(ctx, u, name, what, z, res):
    R = ctx.R
    f = entry(R, u, name)
    ck = Check(R, what, f)
    cases, ss = [], []
    jag = any(x[0] == "j" for x in SOA[z])
    if jag:
        cs = 8 if z == "3" else 4
        for caps in CAPS:
            for host in (False, True):
                if z == "4" and host != res:
                    continue
                for k in range(2):
                    fx, mem = capacities(caps, cs, k)
                    fx[atom(A(1))] = (1 << 49) if host else 0
                    cases.append((caps, host))
                    ss.append((fx, mem))
    else:
        for n in (0, 1, 2, 3, 4, 5, 17, 1000):
            for k in range(5):
                cases.append((n, False))
                ss.append(({"k": k, atom(A(0)): 1 << 50, atom(A(1)): n}, {}))
    for (caps, host), rs in zip(cases, takes(R, f, ss)):
        text = "capacities %s%s" % (caps, ", with a host resource"
                                    if host else "")
        if ck("every size is handled", rs, None, text):
            soa_views(ck, rs, caps, host, res, SOA[z], jag, text)
    ck.done((PLACES if jag or res or len(SOA[z]) > 1 else PLACES[::2]) +
            [INSIDE])


def soa_views(ck, rs, caps, host, res, schema, jag, text):
    W = stored(ck, rs, text)
    if W is None:
        return
    nv = len(caps) if jag else caps
    for r in rs:
        p = r.p
        get = r.env.get
        see = {get(e.args[0]): e for e in sees(p, "vp_mem")}
        b = Blocks(ck, r, see[0])
        var = {get(e.args[0]): e for e in p.events if e.kind == "call" and
               e.ins.qn in ("vp_var0", "vp_var1", "vp_var2")}
        if not ck("all variables are there", len(see) == 5 and
                  len(var) == len(schema), p, text):
            return
        ck("the capacity is the one asked for",
           get(see[0].args[1]) == nv, p, text)
        area = {k: (get(see[k].args[2]), get(see[k].args[1]))
                for k in (1, 2, 3, 4)}
        need = {k: [] for k in area}
        for i, (kind, sz, al) in enumerate(schema):
            v = [get(a) for a in var[i].args[1:]]
            if kind == "s":
                need[2].append(("scalar %d" % i, v[0], sz, al, A(0)))
            elif kind == "v":
                ck("every variable has the capacity asked for", v[0] == nv,
                   p, "%s: %s" % (text, v))
                ck("only resizable variables have a size, and vectors share "
                   "it", v[1] == (area[1][0] if res and not jag else 0), p,
                   "%s: size of variable %d at %s" % (text, i, v[1]))
                need[2].append(("vector %d" % i, v[2], nv * sz, al, A(0)))
            else:
                ck("every variable has the capacity asked for", v[0] == nv,
                   p, "%s: %s" % (text, v))
                if not host:
                    ck("the views are shared without a host resource",
                       v[1] == v[2], p, text)
                need[3].append(("views of %d" % i, v[1], 24 * nv, 8, A(0)))
                if host:
                    need[4].append(("host views of %d" % i, v[2], 24 * nv, 8,
                                    A(1)))
                for j, c in enumerate(caps):
                    o = v[2] + 24 * j
                    if not ck("every inner vector is set up", all(
                            W.get(o + q) is not None for q in (0, 8, 16)),
                            p, "%s: %d of variable %d" % (text, j, i)):
                        return
                    ck("every inner vector has its capacity",
                       W[o] & 0xffffffff == c, p, text)
                    ck("only resizable variables have a size",
                       (W[o + 8] != 0) == res, p, text)
                    need[2].append(("%d of vector %d" % (j, i), W[o + 16],
                                    c * sz, al, A(0)))
                    if res:
                        need[1].append(("size %d of %d" % (j, i), W[o + 8],
                                        4, 4, A(0)))
        if res and not jag:
            need[1].append(("size", area[1][0], 4, 4, A(0)))
        if not host:
            ck("the views are shared without a host resource",
               area[3] == area[4], p, text)
        b.place([x for k in need for x in need[k]], text)
        for k in area:
            if not ck("all variables are determined", None not in area[k], p,
                      "%s: %s" % (text, see[k].args)):
                return
        names = {1: "sizes", 2: "payload", 3: "layout", 4: "host layout"}
        for k, (a, s) in area.items():
            if k == 4 and not host:
                continue
            for m in need:
                for n, x, q, al, mr in need[m]:
                    if not q:
                        continue
                    if m == k:
                        ck(INSIDE, a <= x and x + q <= a + s, p,
                           "%s: %s is outside the %s" % (text, n, names[k]))
                    else:
                        ck(INSIDE, x + q <= a or a + s <= x, p,
                           "%s: %s is in the %s" % (text, n, names[k]))
            if s:
                mr = A(1) if k == 4 else A(0)
                ck(INSIDE, any(y <= a and a + s <= y + q and m == mr
                               for y, q, m in b.b), p,
                   "%s: %d bytes of %s at %d" % (text, s, names[k], a))


INNERS = ([], [0], [1], [5], [0, 0], [2, 3], [1, 0, 4], [7, 1, 0, 2],
          [300, 1, 3, 2, 9])


def datas(ctx):
    """get_data() of jagged vectors (V01)"""
    u = ctx.unit("buffers", with_core=True, entries=["^vp_jd_"])
    for name, what, pmr in (
            ("vec", "a jagged vector", True),
            ("vecc", "a constant jagged vector", True),
            ("std", "a standard vector of vectors", False),
            ("stdc", "a constant standard vector of vectors", False)):
        one_data(ctx, u, "vp_jd_" + name, "get_data() of " + what, pmr)


def one_data(ctx, u, name, what, pmr):
    R = ctx.R
    f = entry(R, u, name)
    ck = Check(R, what, f)
    V, D, M, OWN = 1 << 51, 1 << 52, 1 << 49, 1 << 48
    o, st = (8, 32) if pmr else (0, 24)
    cases, ss = [], []
    for ns in INNERS:
        for own in ((False, True) if pmr else (False,)):
            mem = {V + o: D if ns else 0,
                   V + o + 8: D + st * len(ns) if ns else 0}
            ins = []
            if pmr:
                mem[V] = OWN
            for i, n in enumerate(ns):
                b = (1 << 40) + (i << 32) if n else 0
                ins.append((n, b))
                mem[D + st * i + o] = b
                mem[D + st * i + o + 8] = b + 12 * n
                if pmr:
                    mem[D + st * i] = OWN
            cases.append((ns, own, ins))
            ss.append(({"k": len(ns), atom(A(0)): V,
                        atom(A(1)): 0 if own else M}, mem))
    for (ns, own, ins), rs in zip(cases, takes(R, f, ss)):
        text = "inner sizes %s, %s resource" % (ns, "its own" if own else
                                                "another")
        if not ck("every size is handled", rs, None, text):
            continue
        W = stored(ck, rs, text)
        if W is None:
            continue
        for r in rs:
            p, get = r.p, r.env.get
            s = sees(p, "vp_seej")
            b = Blocks(ck, r, s[0])
            b.b = [(x, y, get(m)) for x, y, m in b.b]
            n, ptr, hp = [get(x) for x in s[0].args]
            ck("there are as many views as inner vectors", n == len(ns), p,
               "%s: %s" % (text, n))
            ck("host and device use the same views", ptr == hp, p, text)
            if not ck("the views are somewhere", ptr is not None, p, text):
                continue
            b.place([("views", ptr, 24 * len(ns), 8, OWN if own else M)],
                    text)
            for i, (c, a) in enumerate(ins):
                v = [W.get(ptr + 24 * i + z) for z in (0, 8, 16)]
                ck("every view is of its inner vector", None not in v and
                   v[0] & 0xffffffff == c and v[1] == 0 and v[2] == a, p,
                   "%s: view %d is %s, meant %s" % (text, i, v, (c, 0, a)))
    ck.done(PLACES[::2] + ["every view is of its inner vector"])
