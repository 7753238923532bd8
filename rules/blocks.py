"""What the memory-keeping resources hand out: disjoint, big enough blocks
(M05, M13, M15) with the requested alignment (M11)."""
from vp.q import A, C
from vp.ir import Poly
from vp.paths import Hooks, paths, steps
from vp import ev, ineq, loops
from .copying import Check, contradicted, is_first, known
from .memory import method, ctors, cname, is_container_op

IMPL = Poly.atom(("load", A(0) + C(8)))


SIZES = (("std::set::", 48), ("std::map::", 48), ("std::vector::", 24),
         ("std::list::", 24), ("std::unordered_map::", 56),
         ("std::unordered_set::", 56))


class VecHooks(Hooks):
    """A container's operations change the container, not what surrounds
    it."""

    def readonly(self, st, I, kind, k):
        return any(I.qn.startswith(n) for n, z in SIZES)

    def effect(self, st, I, kind, args):
        for n, z in SIZES:
            if I.qn.startswith(n) and args:
                k = 1 if st.f._sret(I) else 0
                for o in range(0, z, 8):
                    st.write(args[k] + C(o), 8,
                             Poly.atom(("out", I.id, I.qn, k, o)))
                return True


class SetHooks(VecHooks):
    """Ordered sets: iterators are nodes; end() stays the same."""

    def kind(self, st, I, args):
        q = I.qn
        if q.startswith("std::set::"):
            return "set:" + q[10:].lstrip("c") \
                if q[10:] in ("cbegin", "cend") else "set:" + q[10:]
        return None

    def value(self, st, I, kind, args):
        if kind == "set:end":
            return Poly.atom(("setend", args[0]))
        if kind == "set:begin":
            n = sum(1 for e in st.events if e.kind in
                    ("set:erase", "set:insert", "set:emplace"))
            return Poly.atom(("setbegin", args[0], n))
        if kind == "set:find" and st.root(args[1]):
            n = sum(1 for e in st.events if e.kind in
                    ("set:erase", "set:insert", "set:emplace"))
            return Poly.atom(("find", args[0], st.read(args[1], 8), n))
        if I.qn == "std::_Rb_tree_increment":
            return Poly.atom(("next", args[0]))
        if I.qn == "std::_Rb_tree_decrement":
            return Poly.atom(("prev", args[0]))
        return None


def chain_equal(p, plus, minus):
    """Do two lists of (start, size) cover the same addresses equally often?
    The sum of the indicator functions of intervals is determined by their
    end points; end points that the path found equal are identified."""
    eqs = [x - y for pr, x, y in ineq.flat(p.conds) if pr == "eq"]
    nf = eliminate(eqs)
    s = {}
    for l, n in ((plus, 1), (minus, -1)):
        for x, z in l:
            for t, k in ((nf(x), n), (nf(x + z), -n)):
                s[t] = s.get(t, 0) + k
    return not any(s.values())


def eliminate(eqs):
    """Normal form of terms modulo equations (Gaussian elimination)."""
    sub = []

    def nf(t):
        for m, r in sub:
            c = t.t.get(m)
            if c:
                t = t + r.scale(c) - Poly({m: c})
        return t
    for e in eqs:
        e = nf(e)
        ms = sorted((m for m, c in e.t.items() if m and abs(c) == 1),
                    key=repr)
        if not ms:
            continue
        m = ms[0]
        r = Poly({m: 1}) - e.scale(e.t[m])
        one = [(m, r)]
        old, sub[:] = list(sub), one
        sub[:] = [(k, nf(v)) for k, v in old] + one
    return nf


NODE = 32


def ld(t):
    return Poly.atom(("load", t))


def is_up(e, what="allocate"):
    return e.kind == "call" and \
        e.ins.qn == "std::pmr::memory_resource::" + what


def impossible(p):
    """Paths on which upstream returns null, or a set holds null or empty
    blocks."""
    for pr, x, y in ineq.flat(p.conds):
        if pr == "eq" and y.cval() == 0:
            b = x.single_atom()
            if b and (b[0] == "load" and nodes(b[1]) or
                      b[0] == "call" and b[2].endswith(
                          "memory_resource::allocate")):
                return True
    return any(ineq.implies(p.conds, "ule", ld(e.args[1] + C(NODE + 8)), C(0))
               for e in p.events if e.kind == "set:erase")


def nodes(t):
    return [x for x in t.atoms() if x[0] in ("setbegin", "next", "prev",
                                             "find", "phi") or x[0] == "call" and
            x[2].startswith("std::set::")]


def valid_node(p, it, s):
    """Is the iterator known to refer to an element?"""
    end = Poly.atom(("setend", s))
    a = it.single_atom()
    if differs(p, it, end):
        return True
    if a and a[0] == "phi" and len(a) > 2:
        # what the last iteration of the search went on with
        b = p.st.terms.get(("back", a[1]))
        return b is not None and differs(p, b, end)
    if a and a[0] == "prev":
        n = sum(1 for e in p.events if e.kind == "x")
        return any(differs(p, a[1], Poly.atom(("setbegin", s, k)))
                   for k in range(6)) and n == 0
    return False


def differs(p, x, y):
    return any(pr == "ne" and {a, b} == {x, y}
               for pr, a, b in ineq.flat(p.conds))


def contents(p, e, k):
    """The block passed to insert or emplace (by reference or in parts)."""
    if len(e.args) > k + 1:
        return e.args[k], e.args[k + 1]
    a = e.args[k]
    return (p.st.read(a, 8, e.path_mem),
            p.st.read(a + C(8), 8, e.path_mem))


def arena(ctx):
    """M13"""
    R = ctx.R
    fs = {n: method(ctx, "arena", n) for n in ("do_allocate",
                                               "do_deallocate")}
    given = None
    for n, f in fs.items():
        R.fn(f)
        ck = Check(R, "arena: " + n, f)
        ps = [p for p in paths(f, SetHooks(), limit=20000, merge=False)
              if p.end == "ret"]
        R.count("paths", len(ps))
        for p in ps:
            if impossible(p):
                continue
            er = [e for e in p.events if e.kind == "set:erase"]
            ins = [e for e in p.events if e.kind in ("set:insert",
                                                     "set:emplace")]
            up = [e for e in p.events if is_up(e)]
            for e in er:
                a = p.st.root(e.args[1]) and p.st.read(e.args[1], 8,
                                                       e.path_mem)
                a = a and a.single_atom()
                if a and a[0] == "load":
                    # taken out by key: the element with that address
                    e.args = (e.args[0], a[1] - C(NODE)) + tuple(e.args[2:])
                ck("a block taken out of a list is an element of it",
                   valid_node(p, e.args[1], e.args[0]), p,
                   str(e.args), e)
                ck("a block is taken out once",
                   sum(1 for x in er if x.args[1] == e.args[1]) == 1, p,
                   str(e.args), e)
                late = [I for k, t, I in p.st.reads if k > e.n and
                        (t - e.args[1]).cval() is not None]
                ck("a block taken out is not looked at again", not late, p,
                   "", e)
            out = [(ld(e.args[1] + C(NODE)), ld(e.args[1] + C(NODE + 8)))
                   for e in er]
            new = [(e.ret, e.args[1]) for e in up]
            put = [contents(p, e, len(e.args) - 1 if e.kind == "set:insert"
                            or len(e.args) < 3 else 1) for e in ins]
            ck("no byte is lost, duplicated or invented: what is put into "
               "the lists is what was taken out of them or obtained",
               chain_equal(p, out + new, put), p, "out %s, in %s" %
               (out + new, put), ins[-1] if ins else None)
            if n == "do_allocate":
                if p.ret.cval() == 0:
                    ck("nothing happens for an empty request", not er and
                       not ins, p)
                    continue
                got = [(e, b) for e, b in zip(ins, put) if b[0] == p.ret]
                got = [x for x in got if given is None or
                       x[0].args[0] == given]
                if not ck("the block handed out is noted", len(got) == 1, p,
                          str(p.ret)):
                    continue
                given = got[0][0].args[0]
                ck("the block handed out is as large as requested",
                   ineq.implies(p.conds, "ule", A(1), got[0][1][1]), p,
                   str(got[0][1][1]))
                ck("only free blocks are handed out",
                   all(e.args[0] != given for e in er) and
                   sum(1 for e in ins if e.args[0] == given) == 1, p)
            else:
                if not er:
                    ck("nothing happens for an unknown block", not ins, p)
                    continue
                back = [b for e, b in zip(er, out) if e.args[0] == given]
                ck("the block given back is the one with that address",
                   len(back) == 1 and (back[0][0] == A(1) or same_by(
                       p, back[0][0], A(1))), p, str(back))
                ck("a block given back becomes free",
                   ins and all(e.args[0] != given for e in ins), p)
        ck.done(["no byte is lost, duplicated or invented: what is put into "
                 "the lists is what was taken out of them or obtained"])
    keyed(ctx)
    limits(ctx, fs["do_allocate"])


def keyed(ctx):
    """The blocks are told apart by their address."""
    import random
    p = ctx.core(opaque=OPQ, entries=[r"operator<$"])
    fs = [f for f in p.fns if f.name.rsplit("(", 1)[0].endswith("operator<")
          and "arena" in f.name]
    for f in fs:
        ctx.R.fn(f)
        ok = True
        for q in paths(f, merge=False):
            for k in range(50):
                r = random.Random(k)
                v = [r.randrange(3) for _ in range(4)]
                fx = {atom(ld(A(i) + C(8 * j))): v[2 * i + j]
                      for i in (0, 1) for j in (0, 1)}
                env = ev.Env(k, fx)
                if all(ev.when_ok(env, c) for c in q.conds):
                    ok = ok and bool(env.ev(q.ret) & 1) == (v[0] < v[2])
        ctx.R.ob("arena: order", "blocks are ordered by their addresses", ok,
                 f.name, "the order of two blocks is not that of their "
                 "addresses")


def limits(ctx, f):
    """The arena's total never exceeds the maximum given at construction."""
    R = ctx.R
    import random
    maxs, counts = set(), set()
    for g in ctors(ctx, "arena"):
        R.fn(g)
        ck = Check(R, "arena: construction", g)
        for p in paths(g, SetHooks(), limit=20000, merge=False):
            im = p.load(A(0) + C(8))
            if p.end != "ret" or im.is_const():
                continue
            up = [e for e in p.events if is_up(e)]
            if not up:
                continue
            put = [contents(p, e, len(e.args) - 1 if e.kind == "set:insert"
                            or len(e.args) < 3 else 1) for e in p.events
                   if e.kind in ("set:insert", "set:emplace")]
            ck("the first block consists of the memory obtained",
               put == [(e.ret, e.args[1]) for e in up], p, str(put))
            ck("the first block is within the maximum size",
               any(pr == "ule" and x == up[0].args[1] or
                   pr == "uge" and y == up[0].args[1]
                   for pr, x, y in ineq.flat(p.conds)) or
               ineq.implies(p.conds, "ule", up[0].args[1],
                            A(3)), p, str(up[0].args[1]))
            for o in range(0, 256, 8):
                t = p.st.read(im + C(o), 8)
                if t == A(3):
                    maxs.add(o)
                if t == up[0].args[1] and any(
                        e.kind == "store" and e.args[0] == im + C(o) and
                        e.n > up[0].n for e in p.events):
                    counts.add(o)
        ck.done()
    R.need(maxs, "arena: the field of the maximum size was not found")
    ck = Check(R, "arena: limit", f)
    for p in paths(f, SetHooks(), limit=20000, merge=False):
        up = [e for e in p.events if is_up(e)]
        if not up or p.end != "ret" or impossible(p):
            continue
        S = up[0].args[1]
        cnt = [o for o, e in writes(p) if e.kind == "store" and
               e.args[1] == fld(o) + S]
        if not ck("memory obtained is added to the total", len(cnt) == 1, p,
                  str(S)):
            continue
        for k in range(150):
            r = random.Random(k)
            m = r.randrange(1 << 22)
            cur = r.choice([0, m, r.randrange(m + 1), r.randrange(m + 1)])
            left = m - cur
            fx = {}
            for at in deep_atoms(S) | {a for c in p.conds
                                       for a in deep_atoms(c[0])}:
                if at[0] == "load" and (at[1] - IMPL).cval() is not None:
                    fx[at] = r.choice([1 << 10, left, left + 256, left // 2])
            fx[atom(A(1))] = r.choice([1, left, left + 1, left & ~255,
                                       (left & ~255) + 1, 2 * left + 1,
                                       r.choice(HUGE)])
            for o in maxs:
                fx[atom(fld(o))] = m
            fx[atom(fld(cnt[0]))] = cur
            env = ev.Env(k, fx)
            if consistent(env, p.conds, set(fx)):
                ck("the total stays within the maximum size",
                   cur + env.ev(S) <= m, p, "has %d of at most %d, request "
                   "of %d: obtains %d" % (cur, m, fx[atom(A(1))],
                                          env.ev(S)))
    ck.done(["the total stays within the maximum size"])


def same_by(p, x, y):
    a = x.single_atom()
    b = a and a[0] == "load" and (a[1] - C(NODE)).single_atom()
    if b and b[0] == "find" and b[2] == y:
        return True
    return any(pr == "eq" and {a, b} == {x, y}
               for pr, a, b in ineq.flat(p.conds))


def impl_fields(ctx, cls):
    """What construction leaves in the fields of the implementation object:
    offset -> term over the constructor's arguments."""
    R = ctx.R
    for f in ctors(ctx, cls):
        R.fn(f)
        for p in paths(f):
            if p.end != "ret":
                continue
            im = p.load(A(0) + C(8))
            if im.is_const():
                continue
            d = {}
            for e in p.events:
                if e.kind == "store":
                    o = (e.args[0] - im).cval()
                    if o is not None and o >= 0:
                        d[o] = p.load(im + C(o))
            if d:
                return f, p, im, d
    R.need(False, "%s: construction of the implementation not found" % cls)


def fld(o):
    return Poly.atom(("load", IMPL + C(o)))


def atom(t):
    return t.single_atom()


def writes(p, off=None):
    """Stores to fields of the implementation object."""
    out = []
    for e in p.events:
        if e.kind in ("store", "memcpy", "memset", "memmove"):
            o = (e.args[0] - IMPL).cval()
            if o is not None:
                out.append((o, e))
    return out


HUGE = [(1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 15, (1 << 64) - 4096,
        (1 << 63) + 1, (1 << 63), (1 << 63) - 1]


def contiguous(ctx):
    """M15"""
    R = ctx.R
    f, p, im, d = impl_fields(ctx, "contiguous")
    ups = [e for e in p.events if is_up(e)]
    R.need(len(ups) == 1, "contiguous: construction does not obtain one block")
    blk = ups[0].ret
    sizes = [o for o, t in d.items() if t == ups[0].args[1]]
    begins = [o for o, t in d.items() if t == blk]
    al = method(ctx, "contiguous", "do_allocate")
    de = method(ctx, "contiguous", "do_deallocate")
    R.fn(al)
    R.fn(de)
    ps = paths(al, merge=False)
    R.count("paths", len(ps))
    moved = {o for q in ps for o, e in writes(q)}
    nxt = [o for o in begins if o in moved]
    R.need(len(nxt) == 1 and moved == set(nxt) and sizes,
           "contiguous: cannot tell which field marks the free space")
    nxt = nxt[0]
    ck = Check(R, "contiguous: do_allocate", al)
    end = None
    for q in ps:
        for s in samples_contiguous(d, ups[0], blk, nxt):
            env, start, size, end, n0, al_, req = s
            if not all(ev.when_ok(env, c) for c in q.conds):
                continue
            n1 = env.ev(q.load(IMPL + C(nxt)))
            fit = (n0 + al_ - 1) // al_ * al_ + req <= end
            if q.end == "ret":
                r = env.ev(q.ret)
                why = "next=%#x request=%#x alignment=%#x free until %#x: " \
                    "gives %#x, next=%#x" % (n0, req, al_, end, r, n1)
                if req == 0:
                    ck("an empty request takes nothing", n1 == n0, q, why)
                    continue
                ck("a block lies in the unused part of the memory",
                   r >= n0 and r + req <= end, q, why)
                ck("a block has the requested alignment", r % al_ == 0, q,
                   why)
                ck("later blocks come after it", r + req <= n1 <= end, q,
                   why)
            elif q.end == "throw":
                why = "next=%#x request=%#x alignment=%#x free until %#x" % (
                    n0, req, al_, end)
                ck("a request that fits is served", not fit, q, why)
                ck("a refused request changes nothing", n1 == n0, q, why)
    ck.done(["a block lies in the unused part of the memory",
             "a block has the requested alignment",
             "later blocks come after it", "a request that fits is served"])
    ck = Check(R, "contiguous: do_deallocate", de)
    for q in paths(de, merge=False):
        ck("giving a block back moves nothing", not writes(q), q)
    ck.done()


def samples_contiguous(d, up, blk, nxt):
    size_a = up.args[1]
    for k in range(600):
        import random
        r = random.Random(k)
        start = (1 + r.randrange(1 << 30)) * 16
        size = r.choice([1, 16, 100, 4096, 1 << 20, r.randrange(1, 1 << 16)])
        used = r.choice([0, size, r.randrange(size + 1)])
        al_ = 1 << r.randrange(0, 13)
        left = size - used
        n0 = start + used
        gap = -n0 % al_
        req = r.choice([0, 1, 8, left, left + 1, max(left - 1, 0),
                        max(left - gap, 0), max(left - gap, 0) + 1,
                        r.randrange(size + 1), r.choice(HUGE),
                        r.choice(HUGE) - r.randrange(1 << 12)])
        fx = {}
        cenv = ev.Env(k, {a: v for a, v in
                          ((atom(size_a), size), (atom(blk), start)) if a})
        for o, t in d.items():
            fx[atom(fld(o))] = cenv.ev(t)
        fx[atom(fld(nxt))] = n0
        fx[atom(A(1))] = req
        fx[atom(A(2))] = al_
        yield ev.Env(k, fx), start, size, start + size, n0, al_, req


OPTS = ("min_blocks", "min_bytes", "max_blocks", "max_bytes", "smallest",
        "largest", "alignment", "cache", "size_cut", "align_cut")
OPQ = ["^std::(lower_bound|upper_bound)$"]


def option_offsets(ctx):
    p = ctx.unit("mem")
    out = {}
    for n in OPTS:
        l = [f for f in p.fns if f.name == "vp_opt_" + n]
        ctx.R.need(l, "accessor of option %s not found" % n)
        f = l[0]
        ls = [a for a in f.val(f.rets()[0].args[0]).atoms()
              if a[0] == "load"]
        ctx.R.need(ls, "option %s: unexpected accessor" % n)
        out[n] = (ls[0][1] - A(0)).cval()
    return out


def sample_options(r):
    """Options a user may choose; construction decides whether it likes
    them."""
    sm = 1 << r.randrange(3, 8)
    la = sm << r.randrange(0, 8)
    mb = r.choice([0, 1, 2, 3, 16])
    return dict(min_blocks=mb, min_bytes=r.choice([0, 1, la, 1024, 5000]),
                max_blocks=r.choice([mb, 2 * mb, mb + 5, 1 << 20]),
                max_bytes=r.choice([la * max(mb, 1), la * mb * 4, 1 << 30,
                                    la * max(mb, 1) + r.randrange(1 << 12)]),
                smallest=sm, largest=la,
                alignment=min(1 << r.randrange(3, 8), sm),
                cache=r.randrange(2), size_cut=16, align_cut=16)


def consistent(env, conds, known):
    """Does the sample satisfy the decisions it determines?"""
    return all(ev.when_ok(env, c) for c in conds
               if loops.only_known(c[0], known))


def is_cont(e, *names):
    return e.kind == "call" and is_container_op(e.ins, names)


def el_content(p, e, k=1):
    """The (8 byte) element handed to push_back and the like."""
    return p.st.read(e.args[k], 8, e.path_mem)


def pool(ctx):
    """M05"""
    R = ctx.R
    import random
    off = option_offsets(ctx)
    cs = []
    for f in ctors(ctx, "pool", opaque=OPQ):
        R.fn(f)
        for p in paths(f, VecHooks(), merge=False, limit=20000):
            if p.end == "ret" and not p.load(A(0) + C(8)).is_const() and \
               any(is_cont(e, "resize") for e in p.events):
                cs.append(p)
    R.need(cs, "pool: no construction path which makes the pools")
    al = method(ctx, "pool", "do_allocate", opaque=OPQ)
    de = method(ctx, "pool", "do_deallocate", opaque=OPQ)
    R.fn(al)
    R.fn(de)
    pa = paths(al, merge=False, limit=60000)
    pd = paths(de, merge=False, limit=60000)
    R.count("paths", len(pa) + len(pd))
    ck = Check(R, "pool: do_allocate", al)
    cd = Check(R, "pool: do_deallocate", de)
    classes = {}
    for k in range(160):
        r = random.Random(k)
        o = sample_options(r)
        if any(not o[x] for x in ("max_blocks", "max_bytes")):
            continue
        begin = (1 + r.randrange(1 << 20)) * 64
        made = construct(cs, off, o, begin, k)
        if made is None:
            continue
        fixed, count, vec = made
        for b in requests(r, o):
            a_ = r.choice([1, 8, o["alignment"], o["alignment"] * 2])
            fx = dict(fixed)
            fx[atom(A(1))] = b
            fx[atom(A(2))] = a_
            kinds = set()
            for q in pa:
                kinds |= one_alloc(ck, q, k, fx, o, b, a_, vec, count, begin,
                                   classes, al)
            fx = dict(fixed)
            ptr = (1 << 40) + 4096 * r.randrange(1 << 10)
            fx[atom(A(1))] = ptr
            fx[atom(A(2))] = b
            fx[atom(A(3))] = a_
            for q in pd:
                one_free(cd, q, k, fx, o, b, a_, vec, kinds, classes)
    # the lists used are among those that were made
    stride = min([abs(v - bg) for _, v, _, bg in classes.values()
                  if v != bg] or [0])
    for (s, b), (o, v, n, bg) in classes.items():
        ck("the list of free blocks is one of those made",
           0 <= v - bg < n * stride and (v - bg) % stride == 0, None,
           "options %r, request of %d bytes: list at offset %d of %d lists "
           "of size %d" % (o, b, v - bg, n, stride))
    oversized_reuse(ctx, ck, cd, pa, pd, vec)
    R.count("samples", len(classes))
    ck.done(["a block comes from one of the lists of free blocks",
             "the block handed out leaves its list",
             "an empty list is filled before a block is taken",
             "the blocks of a chunk lie inside of it and apart",
             "the blocks of a chunk have the alignment of the pools",
             "one list holds blocks big enough for all requests it serves",
             "a request beyond the pools gets memory of its own"])
    cd.done(["a block goes back to the list it came from"])


def requests(r, o):
    s, l = o["smallest"], o["largest"]
    out = {1, s, s + 1, s * 2, l, l - 1, l // 2 + 1, l + 1, 2 * l,
           r.randrange(1, l + 1), r.randrange(1, l + 1), s - 1}
    return sorted(x for x in out if x > 0)


def construct(cs, off, o, begin, seed):
    """Values of the fields after construction with the given options."""
    for p in cs:
        im = p.load(A(0) + C(8))
        fx = {atom(Poly.atom(("load", A(2) + C(off[n])))): v
              for n, v in o.items()}
        fx[atom(A(1))] = 1 << 20
        fx[atom(A(2))] = 1 << 21
        env = ev.Env(seed, fx)
        if not all(ev.when_ok(env, c) for c in p.conds):
            continue
        e = [e for e in p.events if is_cont(e, "resize")][0]
        vec = (e.args[0] - im).cval()
        known = set(fx)
        out = {}
        for x in range(0, 256, 8):
            if vec <= x < vec + 24:
                continue
            t = p.load(im + C(x))
            if loops.only_known(t, known):
                out[atom(fld(x))] = env.ev(t)
        out[atom(A(0))] = 1 << 22
        out[atom(Poly.atom(("load", A(0) + C(8))))] = 1 << 23
        out[atom(fld(vec))] = begin
        return out, env.ev(e.args[1]), vec
    return None


def free_list(q, vec):
    """Events on a list of free blocks: those below the pools' array."""
    b = atom(fld(vec))
    return [e for e in q.events if e.kind == "call" and
            is_container_op(e.ins) and e.args and
            any(x == b for m in e.args[0].t for x in m)]


def one_alloc(ck, q, seed, fx, o, b, a_, vec, count, begin, classes, f):
    known = set(fx)
    env = ev.Env(seed, fx)
    if not consistent(env, q.conds, known):
        return set()
    text = "options %r, request of %d bytes aligned to %d" % (o, b, a_)
    if q.end == "throw":
        return set()
    fl = free_list(q, vec)
    up = [e for e in q.events if is_up(e)]
    if not fl:
        if q.end != "ret":
            return set()
        ck("a request for memory is answered", q.ret.cval() != 0, q, text)
        return {"own"}
    V = fl[0].args[0]
    v = env.ev(V)
    classes[(seed, b)] = (o, v, count, begin)
    ck("one request uses one list", all(env.ev(e.args[0]) == v for e in fl),
       q, text)
    if q.end == "ret":
        pops = [e for e in fl if cname(e.ins) in ("pop_back", "erase",
                                                  "pop_front")]
        last = Poly.atom(("load", V + C(8)))
        okp = len(pops) == 1 and (
            cname(pops[0].ins) == "pop_back" and
            q.ret == Poly.atom(("load", last - C(8))) or
            cname(pops[0].ins) == "erase" and
            q.ret == Poly.atom(("load", pops[0].args[1])))
        ck("the block handed out leaves its list", okp, q, text)
        ck("a block comes from one of the lists of free blocks",
           q.ret.single_atom() is not None and
           q.ret.single_atom()[0] == "load", q, str(q.ret))
    pushes = [e for e in fl if cname(e.ins) in ("push_back",
                                                "emplace_back")]
    empty = any(pr == "eq" and {x, y} == {Poly.atom(("load", V)),
                Poly.atom(("load", V + C(8)))}
                for pr, x, y in ineq.flat(q.conds))
    if empty and q.end == "ret":
        pops = [e for e in fl if cname(e.ins) == "pop_back"]
        # previous chunks of this list: none, or some
        import random
        r = random.Random(seed * 31 + b)
        for prev in (0, 1, 3, r.randrange(1, 40)):
            carve(ck, q, seed, fx, o, b, a_, V, v, prev, up, pushes, text, f,
                  classes)
    return {"pool"}


def carve(ck, q, seed, fx, o, b, a_, V, v, prev, up, pushes, text, f,
          classes):
    fx = dict(fx)
    chunk = (1 << 45) + 4096 * (seed + 1)
    for e in up:
        fx[atom(e.ret)] = chunk
    # what the list remembers beside its blocks
    for t in [c[0] for c in q.conds] + [x for e in up for x in e.args]:
        for at in deep_atoms(t):
            if at[0] == "load":
                d = (at[1] - V).cval()
                if d is not None and d >= 24:
                    fx[at] = prev
    known = set(fx)
    env = ev.Env(seed, fx)
    if not consistent(env, q.conds, known):
        return
    text += ", %d blocks before" % prev
    if not ck("an empty list is filled before a block is taken",
              len(up) == 1 and pushes, q, text):
        return
    u = up[0]
    size, align = env.ev(u.args[1]), env.ev(u.args[2])
    e = pushes[0]
    h = loops.innermost(f, e.ins.blk)
    t = el_content(q, e)
    vals = []
    if h is None:
        vals = [env.ev(el_content(q, x)) for x in pushes]
    else:
        tr = loops.trace(f, q.st, h, fx, e.ins.blk, limit=48)
        if not ck("the filling of the list can be followed",
                  tr.early is None and not tr.skips and
                  loops.only_known(t, known | {a for it in tr.its
                                               for a in it}), q,
                  text + " " + str(t)):
            return
        for it in tr.its:
            vals.append(ev.Env(seed, {**fx, **it}).ev(t))
    ck("an empty list is filled before a block is taken", len(vals) > 0, q,
       text)
    if not vals:
        return
    vals.sort()
    step = min([y - x for x, y in zip(vals, vals[1:])] +
               [chunk + size - vals[-1]])
    ck("the blocks of a chunk lie inside of it and apart",
       vals[0] >= chunk and step >= b and
       (len(vals) >= 48 or vals[-1] + step <= chunk + size) and
       size >= len(vals) * step, q,
       "%s: chunk of %d bytes at %#x, blocks %s" % (
           text, size, chunk, [hex(x) for x in vals[:4]]))
    ck("the blocks of a chunk have the alignment of the pools",
       align % max(a_, o["alignment"]) == 0 and
       all((x - chunk) % max(a_, o["alignment"]) == 0 for x in vals), q,
       "%s: chunk aligned to %d, blocks %s apart" % (text, align, step))
    # every other request served by the same list fits as well
    for (s, bb), (oo, y, _, _) in list(classes.items()):
        if s == seed and y == v:
            ck("one list holds blocks big enough for all requests it serves",
               bb <= step, q, "%s: blocks of %d bytes also serve requests of "
               "%d bytes" % (text, step, bb))


def one_free(cd, q, seed, fx, o, b, a_, vec, kinds, classes):
    known = set(fx)
    env = ev.Env(seed, fx)
    if not consistent(env, q.conds, known) or q.end != "ret":
        return
    text = "options %r, block of %d bytes aligned to %d" % (o, b, a_)
    fl = free_list(q, vec)
    cd("a block goes back to where it came from: a pool or its own memory",
       kinds == {"pool" if fl else "own"}, q, "%s: obtained from %s" %
       (text, kinds))
    if not fl:
        return
    v = classes.get((seed, b), (0, None))[1]
    ok = len(fl) == 1 and cname(fl[0].ins) in ("push_back", "emplace_back") \
        and env.ev(fl[0].args[0]) == v
    cd("a block goes back to the list it came from", ok, q, text)
    cd("the block put into the list is the one given back",
       len(fl) == 1 and len(fl[0].args) > 1 and
       el_content(q, fl[0]) == A(1), q, text)
    cd("nothing else changes", not [e for e in q.events if
       e.kind == "call" and is_container_op(e.ins) and e not in fl] and
       not writes(q), q, text)


def oversized_reuse(ctx, ck, cd, pa, pd, vec):
    R = ctx.R
    # where a record keeps pointer, size and alignment
    off = {}
    for q in pa:
        up = [e for e in q.events if is_up(e)]
        if len(up) == 1 and q.ret == up[0].ret and q.end == "ret":
            u = up[0]
            ck("a request beyond the pools gets memory of its own",
               ineq.implies(q.conds, "ule", A(1), u.args[1]) and
               u.args[2] == A(2), q, str(u.args))
            for e in q.events:
                if is_cont(e, "push_back", "emplace_back"):
                    for o in range(0, 64, 8):
                        v = q.st.read(e.args[1] + C(o), 8, e.path_mem)
                        for n, t in (("ptr", u.ret), ("size", u.args[1]),
                                     ("align", u.args[2])):
                            if v == t:
                                off[n] = o
    if ck.failed():
        return
    R.need(len(off) == 3, "pool: the record of an individually obtained "
           "block was not found")
    sorted_ok = order(ctx, off)
    for q in pa:
        if q.end != "ret":
            continue
        a = q.ret.single_atom()
        er = [e for e in q.events if is_cont(e, "erase", "pop_back") and
              len(e.args) > 1 and
              a and a[0] == "load" and a[1] == e.args[1] + C(off["ptr"])]
        if q.ret.cval() == 0 or any(is_up(e) and e.ret == q.ret
                                    for e in q.events) or \
           any(cname(e.ins) in ("pop_back", "erase") for e in
               free_list(q, vec)):
            continue
        if not ck("a reused block leaves the list of blocks for reuse",
                  len(er) == 1 and not any(is_up(e) for e in q.events), q,
                  str(q.ret)):
            continue
        rec = er[0].args[1]
        sz = Poly.atom(("load", rec + C(off["size"])))
        lbs = [e for e in q.events if e.kind == "call" and
               e.ins.qn == "std::lower_bound"]
        big = ineq.implies(q.conds, "ule", A(1), sz)
        for e in lbs:
            key = q.st.read(e.args[2] + C(off["size"]), 8, e.path_mem)
            if sorted_ok and from_element(q, rec, e.ret) and \
               ineq.implies(q.conds, "ule", A(1), key):
                big = True
        if not big and sorted_ok:
            for at in {x for c in q.conds for x in deep_atoms(c[0])
                       if x[0] == "load"}:
                if from_element(q, rec, at[1] - C(off["size"])) and \
                   ineq.implies(q.conds, "ule", A(1), Poly.atom(at)):
                    big = True
        ck("a reused block is big enough", big, q, str(rec))
        ck("a reused block has the requested alignment",
           ineq.implies(q.conds, "ule", A(2), Poly.atom(
               ("load", rec + C(off["align"])))), q, str(rec))
    for q in pd:
        if q.end != "ret":
            continue
        for e in q.events:
            if is_cont(e, "insert", "emplace", "push_back",
                       "emplace_back") and len(e.args) > 2:
                lbs = [x for x in q.events if x.kind == "call" and
                       x.ins.qn in ("std::lower_bound", "std::upper_bound")]
                ok = len(lbs) == 1 and e.args[1] == lbs[0].ret and all(
                    q.st.read(lbs[0].args[2] + C(o), 8, lbs[0].path_mem) ==
                    q.st.read(e.args[2] + C(o), 8, e.path_mem) or
                    lbs[0].args[2] == e.args[2] for o in off.values())
                cd("the list of blocks for reuse stays sorted", ok, q, "", e)


def deep_atoms(t):
    out = set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, Poly):
            work += [a for m in x.t for a in m]
        elif isinstance(x, tuple) and x not in out:
            out.add(x)
            work += [y for y in x[1:] if isinstance(y, (Poly, tuple))]
    return out


def least(q, t):
    """The term with variables of loops that only add to it left out."""
    f = q.st.f
    for m, c in list(t.t.items()):
        if len(m) == 1 and m[0][0] == "phi":
            h = f.ins[m[0][1]].blk
            d = steps(f, h)[0].get(m[0][1], 0) if h in f.loops else 0
            i = q.st.terms.get(("init", m[0][1]))
            if i is not None and f.ins[m[0][1]]["t"] != "ptr" and c * d > 0:
                t = t - Poly.atom(m[0]).scale(c) + i.scale(c)
    return t


def adds(q, m):
    """Constants, numbers of iterations and of elements add to a place."""
    return not m or m[0][0] == "phi" and \
        q.st.f.ins[m[0][1]]["t"] == "ptr" or \
        m[0][0] == "op" and m[0][1] in ("div", "or")


def from_element(q, t, e, depth=0):
    """Is t the element e or a later one (e plus something, or an iterator
    which started from it)?"""
    if t == e or t != t - e and all(
            c > 0 and len(m) < 2 and adds(q, m) for m, c in least(q, t - e).t.items()) and \
       set(e.t) & set(t.t) - {()}:
        return True
    a = e.single_atom()
    t = least(q, t)
    pos = [m for m, c in t.t.items() if c > 0]
    if any(c < 0 for c in t.t.values()) or depth > 3:
        return False
    for m in pos:
        if m == (a,):
            return True
        if len(m) == 1 and m[0][0] == "phi":
            i = q.st.terms.get(("init", m[0][1]))
            if i is not None and from_element(q, i, e, depth + 1):
                return True
    return False


def order(ctx, off):
    """The order of the list of blocks for reuse: an element that does not
    come before the key is at least as big."""
    p = ctx.core(opaque=OPQ, entries=[r"operator<$"])
    fs = [f for f in p.fns if f.name.rsplit("(", 1)[0].endswith("operator<")
          and "pool" in f.name]
    for f in fs:
        ctx.R.fn(f)
        ok = True
        for q in paths(f, merge=False):
            if q.end != "ret":
                continue
            import random
            for k in range(400):
                r = random.Random(k)
                v = [r.randrange(4) for _ in range(4)]
                fx = {}
                for i in (0, 1):
                    fx[atom(Poly.atom(("load", A(i) + C(off["size"]))))] = \
                        v[2 * i]
                    fx[atom(Poly.atom(("load", A(i) + C(off["align"]))))] = \
                        v[2 * i + 1]
                env = ev.Env(k, fx)
                if not all(ev.when_ok(env, c) for c in q.conds):
                    continue
                less = env.ev(q.ret) & 1
                if not less and v[0] < v[2]:
                    ok = False
                if less and v[0] > v[2]:
                    ok = False
        ctx.R.ob("pool: order", "the blocks for reuse are ordered by size",
                 ok, f.name, "the order of two records disagrees with their "
                 "sizes")
        return True
    return False
