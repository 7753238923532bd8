"""Rules for the resources that keep memory: ledger (M04), blocks (M05) and
exception safety (M12)."""
from vp.q import *          # noqa
from vp.q import A, C
from vp.ir import Poly
from vp import ev
from .memory import (method, ctors, path_text, terms, is_container_op, cname,
                     container, operand, NS, POOLING, FORWARDING, is_raw_alloc,
                     MUTATORS, is_throw, deep)

IMPL = Poly.atom(("impl",))
PIMPL = ("load", A(0) + C(8))
SP = NS + "details::binary_page_memory_resource_impl::superpage::superpage"


def pimpl_map(f):
    """Substitution that names the implementation object."""
    m = {PIMPL: IMPL}
    for s in f.all():
        if s.op == "store" and f.val(s.args[1]) == A(0) + C(8):
            a = f.val(s.args[0]).single_atom()
            if a and a[0] == "call":
                m[a] = IMPL
    return m


def N(f, p, m=None):
    return substitute(p, m if m is not None else pimpl_map(f))


def dtor(ctx, cls):
    q = "%s%s_memory_resource::~%s_memory_resource" % (NS, cls, cls)
    l = ctx.core().fn(q)
    ctx.R.need(l, "no destructor of %s found" % cls)
    f = max(l, key=lambda x: len(x.ins))
    ctx.R.fn(f)
    return f


def field(base, off):
    return Poly.atom(("load", base + C(off)))


def off_from(p, base):
    """Constant c with p == base + c."""
    return (p - base).cval()


class Loop:
    """An induction variable of a loop."""

    def __init__(self, f, header, iv, init, inc):
        self.f, self.header, self.iv, self.init, self.inc = \
            f, header, iv, init, inc

    @property
    def blocks(self):
        return self.f.loops[self.header]["blocks"]


def induction(f):
    """Integer and pointer induction variables with a constant step."""
    out = []
    for h, l in f.loops.items():
        for i in f.blocks[h]:
            if i.op != "phi":
                continue
            me = Poly.atom(("phi", i.id))
            ini, nxt = set(), set()
            for z, b in zip(i.args, i["pb"]):
                (nxt if b in l["blocks"] else ini).add(f.val(z))
            if len(ini) == 1 and len(nxt) == 1:
                st = (next(iter(nxt)) - me).cval()
                if st:
                    out.append(Loop(f, h, me, next(iter(ini)), st))
    return out


def known_only(t, known):
    """Does t depend on the atoms in `known` only?"""
    def ok(x, d=0):
        if isinstance(x, Poly):
            return all(ok(a, d + 1) for k in x.t for a in k)
        if isinstance(x, tuple):
            if x in known:
                return True
            if x and x[0] in ("op", "icmp", "select"):
                return all(ok(y, d + 1) for y in x[1:])
            return False
        return True
    return ok(t)


def under_env(f, env, m, known):
    """Edge filter: branches that depend on `known` only are taken as the
    environment says."""
    memo = {}

    def edge(i, j):
        if i.op != "br" or "tb" not in i.d or i["tb"] == i["fb"]:
            return True
        if i.id not in memo:
            c = N(f, f.val(i.args[0]), m)
            memo[i.id] = bool(env.ev(c) & 1) if known_only(c, known) else None
        v = memo[i.id]
        return True if v is None else j.blk == (i["tb"] if v else i["fb"])
    return edge


BASE = 0x10000


def full_walk(f, lp, m, r):
    """Problems with the claim "the loop visits every element of the vector
    at impl + K exactly once" (evaluated for vectors of 0..4 elements)."""
    B = ("load", IMPL + C(r.K))
    E = ("load", IMPL + C(r.K + 8))
    iv = lp.iv.single_atom()
    known = {B, E, iv, ("impl",)}
    seen_exit = False
    for n in range(0, 5):
        fx = {B: BASE, E: BASE + n * r.step, ("impl",): 1 << 20,
              PIMPL: 1 << 20}
        init = ev.Env(1, fx).ev(N(f, lp.init, m))
        # entering the loop
        fx0 = dict(fx)
        fx0[iv] = init
        e0 = ev.Env(1, fx0)
        hd = f.blocks[lp.header][0]
        ed = under_env(f, e0, m, known | {PIMPL})
        if n:
            p = f.path(None, is_ret, stop=lambda i: i is hd, exc=False,
                       edge=edge_and(ed, under(f, Facts(
                           nz=[Poly.atom(PIMPL)]))))
            if p is not None:
                return "the loop can be skipped\n" + path_text(f, p)
        else:
            p = f.path(None, lambda i: i is r.ins, exc=False, edge=ed)
            if p is not None:
                return "released although nothing is recorded\n" + \
                    path_text(f, p)
            continue
        dirs = {"up", "down"}
        for i in range(n + 1):
            v = init + i * lp.inc
            fxi = dict(fx)
            fxi[iv] = v
            env = ev.Env(1, fxi)
            if i < n:
                at = env.ev(r.base)
                dirs &= {k for k, w in (("up", i), ("down", n - 1 - i))
                         if at == BASE + w * r.step}
                if not dirs:
                    return "element %d of %d is at a wrong address" % (i, n)
            for b in lp.blocks:
                for s in f.succ[b]:
                    if s in lp.blocks:
                        continue
                    t = f.terminator(b)
                    if t.op == "invoke" and s == t.get("unwind"):
                        continue
                    if f.blocks[s] and f.terminator(s).op == "unreachable":
                        continue
                    ec = f.edge_condition(b, s)
                    if ec is None or not known_only(N(f, ec[0], m), known):
                        return "leaves the loop early at " + t.where()
                    seen_exit = True
                    after = f.path(t, lambda j: j is r.ins,
                                   stop=lambda j: j is hd or
                                   j.blk not in lp.blocks,
                                   exc=False) is None
                    if i == n and after:
                        continue
                    out = bool(env.ev(N(f, ec[0], m)) & 1) == ec[1]
                    want = i == (n - 1 if after else n)
                    if out and not want:
                        return "leaves the loop after %d of %d elements at" \
                            " %s" % (i + after, n, t.where())
                    if want and not out:
                        return "does not stop after the last element (%s)" \
                            % t.where()
    if not seen_exit:
        return "the loop does not end at the last element"
    return None


class Release:
    pass


def releases(f):
    """Upstream releases of a destructor-like function, resolved to the
    container element or the field they release."""
    m = pimpl_map(f)
    ivs = induction(f)
    out = []
    for i in f.calls(is_up_dealloc):
        r = Release()
        r.ins = i
        r.recv, r.ptr, r.size, r.align = (N(f, f.val(z), m) for z in
                                          i.args[:4])
        r.loop = r.K = r.off = r.step = r.drain = None
        r.base = IMPL
        a = r.ptr.single_atom()
        ad = a[1] if a and a[0] == "load" else None
        for lp in ivs:
            if ad is None or i.blk not in lp.blocks:
                continue
            iv = lp.iv.single_atom()
            c = ad.t.get((iv,), 0)
            if c == 0 or any(iv in k and k != (iv,) for k in ad.t):
                continue
            first = ad - lp.iv.scale(c) + N(f, lp.init, m).scale(c)
            la = [x for x in first.atoms() if x[0] == "load"]
            for x in la:
                K = off_from(x[1], IMPL)
                off = (first - Poly.atom(x)).cval()
                if K is not None and off is not None:
                    r.loop, r.K, r.step = lp, K, abs(c * lp.inc)
                    r.off = off
                    if c * lp.inc < 0:
                        r.off = off + abs(c * lp.inc)
                        r.K = K - 8
                    r.base = ad - C(r.off)
        if r.loop is None and ad is not None:
            # element at the back, removed in every iteration
            for h, l in f.loops.items():
                if i.blk not in l["blocks"]:
                    continue
                la = [x for x in ad.atoms() if x[0] == "load"]
                if len(la) != 1:
                    continue
                K = off_from(la[0][1], IMPL)
                c = (ad - Poly.atom(la[0])).cval()
                if K is None or c is None or c >= 0:
                    continue
                r.loop = Loop(f, h, None, None, None)
                r.K, r.drain = K - 8, (h, c)
                flds = set()
                for t in (r.ptr, r.size, r.align):
                    for x in deep(t):
                        if x[0] == "load":
                            o = (x[1] - Poly.atom(la[0])).cval()
                            if o is not None:
                                flds.add(o)
                r.off = None
                # the element size is settled by the walk check
                r.base = ad
        if r.loop is None:
            r.off = off_from(ad, r.base) if ad is not None else None
        out.append(r)
    for r in out:
        if r.drain:
            # offset of the pointer within the element: the element starts
            # at the smallest back offset used by this release
            la = ("load", IMPL + C(r.K + 8))
            offs = set()
            for t in (r.ptr, r.size, r.align):
                for x in deep(t):
                    if x[0] == "load":
                        o = (x[1] - Poly.atom(la)).cval()
                        if o is not None:
                            offs.add(o)
            st = min(offs)
            r.step = -st
            r.off = r.drain[1] - st
            r.base = Poly.atom(la) + C(st)
    return m, out


def drain_walk(f, r, m):
    """Problems with the claim "every element is taken off the back until
    the vector is empty"."""
    h, c = r.drain
    body = f.loops[h]["blocks"]
    pops = [i for i in f.calls() if is_container_op(i, ("pop_back",)) and
            off_from(N(f, container(i), m), IMPL) == r.K and i.blk in body]
    hd = f.blocks[h][0]
    if len(pops) != 1:
        return "the element is not removed exactly once"
    q = f.path(r.ins, lambda i: i is hd or i.blk not in body or i is r.ins,
               stop=lambda i: i is pops[0], exc=False)
    if q is not None:
        return "the element is not removed\n" + path_text(f, q)
    B = ("load", IMPL + C(r.K))
    E = ("load", IMPL + C(r.K + 8))
    for n in (0, 1, 2, 3):
        env = ev.Env(1, {B: BASE, E: BASE + n * r.step, PIMPL: 1 << 20,
                         ("impl",): 1 << 20})
        ed = under_env(f, env, m, {B, E, ("impl",), PIMPL})
        if n:
            p = f.path(None, is_ret, stop=lambda i: i is r.ins, exc=False,
                       edge=ed)
            p = p or f.path(pops[0], is_ret, stop=lambda i: i is r.ins,
                            exc=False, edge=ed)
            if p is not None:
                return "elements are left behind\n" + path_text(f, p)
        else:
            p = f.path(None, lambda i: i is r.ins, exc=False, edge=ed) or \
                f.path(pops[0], lambda i: i is r.ins, exc=False, edge=ed)
            if p is not None:
                return "released although nothing is left\n" + \
                    path_text(f, p)
    return None


def fields_of(r):
    """Offsets (from r.base) of the fields a release reads."""
    out = set()
    for t in (r.ptr, r.size, r.align):
        for x in deep(t):
            if x[0] == "load":
                o = off_from(x[1], r.base)
                if o is not None:
                    out.add(o)
    return out


def constant_fields(ctx, cls, r):
    """The fields that a single block is released by are never changed by
    the operations of the resource."""
    R = ctx.R
    flds = fields_of(r)
    for nm in ("do_allocate", "do_deallocate"):
        f = method(ctx, cls, nm)
        m = pimpl_map(f)
        for o, l in store_fields(f, m, IMPL).items():
            if o in flds:
                for s, v in l:
                    R.ob("ledger", "%s: what the destructor gives back is "
                         "what was obtained" % cls, False, s.where(),
                         "the released pointer/size is overwritten")


def records(f, m):
    """Container insertions in f: (ins, container offset in impl, function
    giving the content at an offset)."""
    out = []
    for i in f.calls():
        if not is_container_op(i, ("push_back", "emplace_back", "emplace",
                                   "insert")):
            continue
        K = off_from(N(f, container(i), m), IMPL)
        if K is None:
            continue
        n = len(i.args)
        o = n - 1
        out.append((i, K, lambda off, i=i, o=o: N(
            f, f.content(i, i.args[o], off), m)))
    return out


def store_fields(f, m, base):
    """Field offset -> values stored (relative to base)."""
    out = {}
    for s in f.all():
        if s.op == "store":
            o = off_from(N(f, f.val(s.args[1]), m), base)
            if o is not None:
                out.setdefault(o, []).append((s, N(f, f.val(s.args[0]), m)))
    return out


def acquisitions(ctx, cls):
    """Functions of a pooling resource that obtain memory upstream."""
    fs = [method(ctx, cls, "do_allocate")] + ctors(ctx, cls)
    if cls == "binary_page":
        l = [f for f in ctx.core().fn(SP) if list(f.calls(is_up_alloc))]
        ctx.R.need(l, "superpage constructor not found")
        fs += l
    return [f for f in fs if list(f.calls(is_up_alloc))]


# ------------------------------------------------------------------ M04
def ledger(ctx):
    R = ctx.R
    for cls in POOLING:
        fs = acquisitions(ctx, cls)
        R.need(fs, "%s: no upstream request found" % cls)
        d = dtor(ctx, cls)
        dm, rel = releases(d)
        R.ob("returns", "%s: the destructor gives memory back upstream" % cls,
             bool(rel), d.where(), "no upstream deallocate() call")
        for r in rel:
            if r.loop is None:
                p = d.path(r.ins, lambda i: i is r.ins, exc=False)
                R.ob("returns", "%s: the block is given back once" % cls,
                     p is None, r.ins.where(), path_text(d, p))
                q = d.path(None, is_ret, stop=lambda i: i is r.ins, exc=False,
                           edge=under(d, Facts(nz=[Poly.atom(PIMPL)])))
                R.ob("returns", "%s: the block is always given back" % cls,
                     q is None, r.ins.where(), path_text(d, q))
                if d.qn.startswith(NS + "details::") is False and \
                   cls != "binary_page":
                    constant_fields(ctx, cls, r)
                continue
            R.need(r.K is not None, "%s: unknown container walked by the "
                   "destructor" % cls)
            pr = drain_walk(d, r, dm) if r.drain else \
                full_walk(d, r.loop, dm, r)
            R.ob("returns", "%s: the destructor visits every recorded "
                 "block" % cls, pr is None, r.ins.where(), pr or "")
            # each iteration releases the element
            raw = [d.val(r.ins.args[0]), d.val(r.ins.args[1])]
            h = d.blocks[r.loop.header][0]
            body = d.loops[r.loop.header]["blocks"]
            if not r.drain:
                q = None
                for b in body:
                    for s in d.succ[b]:
                        if s == h.blk:
                            # a full round without the release
                            t = d.terminator(b)
                            q = q or d.path(
                                h, lambda i, t=t: i is t,
                                stop=lambda i: i is r.ins or
                                i.blk not in body, exc=False,
                                edge=under(d, Facts(nz=raw + [r.ptr,
                                                              r.recv])))
                R.ob("returns", "%s: every recorded block is given back" %
                     cls, q is None, r.ins.where(), path_text(d, q))
            q = d.path(r.ins, lambda i: i is r.ins,
                       stop=lambda i: i is h, exc=False)
            R.ob("returns", "%s: a recorded block is given back once" %
                 cls, q is None, r.ins.where(), path_text(d, q))
            others = [x for x in rel if x is not r and x.loop and
                      x.K == r.K]
            R.ob("returns", "%s: the recorded blocks are given back by "
                 "one walk" % cls, not others, r.ins.where(),
                 "the destructor releases the same records twice")
        for f in fs:
            R.fn(f)
            for u in f.calls(is_up_alloc):
                R.count("upstream_call_sites")
                acquisition(R, ctx, cls, f, u, rel, d)
        removals(ctx, cls, rel)
        unmodified(ctx, cls, rel)
    oversized(ctx)


def acquisition(R, ctx, cls, f, u, rel, d):
    m = pimpl_map(f)
    res = N(f, f.term(u), m)
    size, al = (N(f, f.val(z), m) for z in u.args[1:3])
    recv = N(f, f.val(u.args[0]), m)
    elem = f.qn == SP
    base = A(0) if elem else IMPL
    flds = store_fields(f, m, base)
    recs = records(f, m)
    why = []
    for r in rel:
        if r.off is None:
            continue
        if r.loop is not None and not elem:
            cand = [(i, get) for i, K, get in recs if K == r.K and
                    res == get(r.off)]
            for i, get in cand:
                pr = same_block(f, u, i, get, r, size, al, recv, R, cls)
                if pr is None:
                    return must_record(R, cls, f, u, [i])
                why.append(pr)
        else:
            st = flds.get(r.off, [])
            hit = [s for s, v in st if v == res]
            if not hit:
                continue

            def get(o):
                # field content at the end of the function
                vs = {v for s, v in flds.get(o, [])}
                return next(iter(vs)) if len(vs) == 1 else None
            pr = same_block(f, u, hit[0], get, r, size, al, recv, R, cls)
            if pr is None:
                return must_record(R, cls, f, u, hit)
            why.append(pr)
    # recorded for a hand-over (checked separately for the pool)
    if cls == "pool":
        hand = [(i, K) for i, K, get in recs
                if any(get(o) == res for o in range(0, 64, 8))]
        if hand and not why and not any(r.loop and r.K == hand[0][1]
                                        for r in rel):
            ctx.hand = (f, u, hand[0][0], hand[0][1], size, al, res)
            return must_record(R, cls, f, u, [hand[0][0]])
    R.ob("ledger", "%s: a block obtained upstream is recorded for its return "
         "with the same size and alignment" % cls, False, u.where(),
         "obtained (size %r, alignment %r)\n%s" %
         (size, al, "\n".join(why) or "no matching record"))


def same_block(f, u, i, get, r, size, al, recv, R, cls):
    def sub(t):
        mp = {}
        for a in deep(t):
            if a[0] == "load":
                o = off_from(a[1], r.base)
                if o is not None:
                    v = get(o)
                    if v is None:
                        continue
                    mp[a] = v
        return substitute(t, mp)
    sz, an, rc = sub(r.size), sub(r.align), sub(r.recv)
    if not ev.equal(sz, size):
        return "released with size %r, obtained with %r" % (sz, size)
    if not ev.equal(an, al):
        return "released with alignment %r, obtained with %r" % (an, al)
    ok = rc == recv
    if not ok:
        a = rc.single_atom()
        if a and a[0] == "load":
            m = pimpl_map(f)
            vs = {N(f, f.val(s.args[0]), m) for s in f.all()
                  if s.op == "store" and N(f, f.val(s.args[1]), m) == a[1]}
            ok = vs == {recv} or not vs and recv == rc
    if not ok:
        return "released through %r, obtained through %r" % (rc, recv)
    return None


def must_record(R, cls, f, u, rec):
    ids = {i.id for i in rec}
    p = f.path(u, is_ret, stop=lambda i: i.id in ids, exc=False,
               start_exc=False)
    R.ob("ledger", "%s: a block obtained upstream is recorded for its return "
         "with the same size and alignment" % cls, p is None, u.where(),
         path_text(f, p))
    n = 0
    for i in rec:
        q = f.path(i, lambda j: j.id in ids,
                   stop=lambda j: j is u, exc=False)
        n += q is not None and i.is_call()
    R.ob("ledger", "%s: a block is recorded once" % cls, not n, u.where(), "")


def removals(ctx, cls, rel):
    """No operation drops a record while the resource is alive."""
    R = ctx.R
    Ks = {r.K for r in rel if r.loop is not None}
    for nm in ("do_allocate", "do_deallocate"):
        f = method(ctx, cls, nm)
        m = pimpl_map(f)
        for i in f.calls():
            if not is_container_op(i, ("erase", "clear", "pop_back", "resize",
                                       "assign", "swap", "operator=",
                                       "extract", "pop_front")):
                continue
            K = off_from(N(f, container(i), m), IMPL)
            if K not in Ks:
                continue
            ok = cls == "pool" and cname(i) == "erase" and \
                nm == "do_allocate" and hands_out(f, i, rel, K)
            R.ob("ledger", "%s: no record is dropped while the block is "
                 "held" % cls, ok, i.where(),
                 "%s() on the records of blocks to be returned" % cname(i))


def sources(f, p, m):
    """Atoms a pointer may be derived from, through phis and selects."""
    out, todo, seen = set(), [p], set()
    while todo:
        x = N(f, todo.pop(), m)
        for a in x.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a[0] == "phi":
                todo += [f.val(z) for z in f.ins[a[1]].args]
            elif a[0] in ("select", "op", "anyof"):
                todo += [y for y in a[1:] if isinstance(y, Poly)]
            else:
                out.add(a)
    return out


def in_records(f, p, m, Ks):
    """Does the address lie in the elements of a vector of records?"""
    for a in sources(f, p, m):
        if a[0] == "load":
            o = off_from(a[1], IMPL)
            if o is not None and (o in Ks or o - 8 in Ks):
                return True
        elif a[0] == "call":
            I = f.ins.get(a[1]) if isinstance(a[1], int) else None
            if I is not None and any(
                    off_from(N(f, f.val(z), m), IMPL) in Ks for z in I.args):
                return True
    return False


def unmodified(ctx, cls, rel):
    """What has been noted about a block stays as it is."""
    Ks = {r.K for r in rel if r.loop is not None}
    for nm in ("do_allocate", "do_deallocate"):
        f = method(ctx, cls, nm)
        Ks |= {K for i, K, g in records(f, pimpl_map(f))}
    for nm in ("do_allocate", "do_deallocate"):
        f = method(ctx, cls, nm)
        m = pimpl_map(f)
        bad = None
        for i in f.all():
            if i.op == "store":
                d, v = i.args[1], i.args[0]
            elif i.is_call() and i.qn.startswith(("llvm.memcpy",
                                                  "llvm.memmove",
                                                  "llvm.memset")):
                d, v = i.args[0], i.args[1]
            else:
                continue
            if not in_records(f, f.val(d), m, Ks):
                continue
            # an element moved within the records
            x = f.val(v)
            a = x.single_atom()
            if in_records(f, a[1] if a and a[0] == "load" else x, m, Ks):
                continue
            bad = bad or i
        ctx.R.ob("ledger", "%s: what %s() finds recorded about a block is "
                 "not changed" % (cls, nm), bad is None,
                 bad.where() if bad else f.where(),
                 "a record is overwritten" if bad else "")


def hands_out(f, i, rel, K):
    """The erased record's block is the one returned to the caller."""
    it = f.val(operand(i, 0))
    off = [r.off for r in rel if r.loop is not None and r.K == K][0]
    v = Poly.atom(("load", it + C(off)))
    for r in f.rets():
        if not r.args:
            continue
        fs = path_returns(f, i, r)
        return fs == {v}
    return False


def path_returns(f, i, r):
    """Values returned on the paths that pass instruction i."""
    out = set()
    reach = f.reach(i, exc=False)

    def rec(p, blk, d):
        a = p.single_atom()
        if a and a[0] == "phi" and d < 10:
            I = f.ins[a[1]]
            for z, b in zip(I.args, I["pb"]):
                if b == i.blk or f.terminator(b).id in reach:
                    if f.path(i, lambda j, b=b: j is f.terminator(b),
                              exc=False) or b == i.blk:
                        rec(f.val(z), b, d + 1)
            return
        out.add(p)
    rec(f.val(r.args[0]), r.blk, 0)
    return out


def oversized(ctx):
    """The pool's blocks that are obtained individually: found again by their
    pointer, then either returned with the recorded size and alignment or
    moved to the list that the destructor returns."""
    R = ctx.R
    h = getattr(ctx, "hand", None)
    if h is None:
        return
    f, u, rec, K1, size, al, res = h
    m = pimpl_map(f)
    get = [g for i, K, g in records(f, m) if i is rec][0]
    off = {}
    for o in range(0, 64, 8):
        v = get(o)
        if v == res:
            off["ptr"] = o
        elif v == size:
            off["size"] = o
        elif v == al:
            off["align"] = o
    R.ob("ledger", "pool: individually obtained blocks are recorded with "
         "pointer, size and alignment", len(off) == 3, rec.where(),
         "recorded fields %r" % off)
    if len(off) != 3:
        return
    d = dtor(ctx, "pool")
    dm, rel = releases(d)
    g = method(ctx, "pool", "do_deallocate")
    gm = pimpl_map(g)
    # the releases of cached records
    K2 = None
    for r in rel:
        if r.loop is None:
            continue
        if r.off == off["ptr"] and \
           r.size == Poly.atom(("load", r.base + C(off["size"]))) and \
           r.align == Poly.atom(("load", r.base + C(off["align"]))):
            K2 = r.K
    R.ob("ledger", "pool: the destructor returns the blocks kept for reuse "
         "with their recorded size and alignment", K2 is not None,
         d.where(), "no such release")
    outs = []
    for i in g.calls(is_up_dealloc):
        p, s, a = (N(g, g.val(z), gm) for z in i.args[1:4])
        base = rec_base(s, off["size"])
        ok = base is not None and rec_base(a, off["align"]) == base and \
            (p == A(1) or rec_base(p, off["ptr"]) == base)
        R.ob("ledger", "pool: an individually obtained block is returned "
             "with its recorded size and alignment", ok, i.where(),
             "returns (%r, %r, %r)" % (p, s, a))
        if ok:
            outs.append((i, base))
            er = [j for j in g.calls() if is_container_op(j, ("erase",)) and
                  off_from(N(g, container(j), gm), IMPL) == K1 and
                  N(g, g.val(operand(j, 0)), gm) == base]
            q = g.path(None, lambda j: j is i,
                       stop=lambda j: j in er, exc=False)
            q2 = g.path(i, is_ret, stop=lambda j: j in er, exc=False)
            R.ob("ledger", "pool: the record of a returned block is dropped",
                 bool(er) and (q is None or q2 is None), i.where(),
                 "the record stays behind")
    for i, K, get2 in records(g, gm):
        if K == K2:
            base = rec_base(get2(0), 0)
            ok = base is not None and all(
                get2(o) == Poly.atom(("load", base + C(o)))
                for o in off.values())
            R.ob("ledger", "pool: a block kept for reuse keeps its recorded "
                 "pointer, size and alignment", ok, i.where(),
                 "stores %r" % [get2(o) for o in sorted(off.values())])
            if ok:
                outs.append((i, base))
    # the record was found by the pointer
    for i, base in outs:
        bad = not_matching(g, base, off["ptr"], K1, gm)
        R.ob("ledger", "pool: the record used for a deallocation is the one "
             "of that pointer", not bad, i.where(), "may use %s" % terms(bad))
    # either returned, kept or put on a free list
    ids = {i.id for i, b in outs}

    def done(i):
        if i.id in ids:
            return True
        return is_container_op(i, ("push_back", "emplace_back")) and \
            g.content(i, operand(i, 0)) == A(1)
    q = g.path(None, is_ret, stop=done, exc=False,
               edge=under(g, Facts(nz=[A(1)])))
    R.ob("ledger", "pool: every deallocated block is kept or returned",
         q is None, g.where(), path_text(g, q))
    for i in g.calls():
        if done(i):
            q = g.path(i, done, exc=False)
            R.ob("ledger", "pool: a deallocated block ends up in one place",
                 q is None, i.where(), path_text(g, q))
    # reuse
    a = method(ctx, "pool", "do_allocate")
    am = pimpl_map(a)
    for r in a.rets():
        for t in a.sources(a.val(r.args[0])):
            b = rec_base(t, off["ptr"])
            if b is None:
                continue
            if not any(x[0] == "phi" or x[0] == "load" and
                       off_from(N(a, x[1], am), IMPL) in (K2, K2 + 8)
                       for x in b.atoms()):
                continue
            er = [j for j in a.calls() if is_container_op(j, ("erase",)) and
                  off_from(N(a, container(j), am), IMPL) == K2 and
                  N(a, a.val(operand(j, 0)), am) == b]
            R.ob("ledger", "pool: a reused block is taken off the list of "
                 "blocks kept for reuse", bool(er), a.where(),
                 "the block stays available for another request")


def rec_base(t, off):
    a = t.single_atom()
    return a[1] - C(off) if a and a[0] == "load" else None


def not_matching(g, base, off, K, m):
    """Sources of the record pointer that were neither compared equal to the
    argument nor are the end of the container."""
    out = set()
    a = base.single_atom()
    if not a or a[0] != "phi":
        return {base}
    I = g.ins[a[1]]
    end = Poly.atom(("load", IMPL + C(K + 8)))
    for z, b in zip(I.args, I["pb"]):
        v = N(g, g.val(z), m)
        if v == end:
            continue
        c = Poly.atom(("icmp", "eq", Poly.atom(("load", v + C(off))), A(1)))
        conds = [(N(g, x, m), p) for x, p in guards_of(g, b)]
        ec = g.edge_condition(b, I.blk)
        if ec:
            conds.append((N(g, ec[0], m), ec[1]))
        fa = Facts(true=[x for x, p in conds if p],
                   false=[x for x, p in conds if not p])
        if fa.ev(c) is not True:
            out.add(v)
    return out
