"""The binary page resource (M14): pages of a superpage form a binary tree;
the state of every page is kept in an array."""
import random
import re
from vp.q import A, C
from vp.ir import Poly
from vp.paths import paths, recurrence
from vp import ev, ineq, loops
from .copying import Check
from .memory import method
from .blocks import (VecHooks, is_up, ld, atom, deep_atoms,
                     IMPL)

NS = "vecmem::details::binary_page_memory_resource_impl::superpage::superpage"


class Shape:
    """Where a superpage keeps what, and how it starts."""


def shape(ctx):
    R = ctx.R
    fs = [f for f in ctx.core().fns if f.name.startswith(NS + "(") and
          "&&" not in f.name and "const&" not in f.name]
    R.need(len(fs) == 1, "construction of superpages not found")
    f = fs[0]
    R.fn(f)
    ck = Check(R, "binary_page: superpage", f)
    s = Shape()
    first, rest, alone = set(), set(), set()
    for p in paths(f, VecHooks(), merge=False):
        if p.end != "ret":
            continue
        st = {}
        for e in p.events:
            if e.kind == "store":
                o = (e.args[0] - A(0)).cval()
                if o is not None and o >= 0:
                    st[o] = e.args[1]
        up = [e for e in p.events if is_up(e)]
        if not ck("one block is obtained", len(up) == 1, p):
            continue
        news = [e for e in p.events if e.kind == "call" and
                e.ins.qn == "operator new[]"]
        R.need(len(news) == 1, "superpage: array of states not found")
        s.size = min(o for o, t in st.items() if t == A(1))
        mn = [o for o, t in st.items() if o != s.size and
              (t - A(1)).cval() is not None]
        R.need(mn, "superpage: smallest page size not found")
        s.min = mn[0]
        s.delta = -(st[s.min] - A(1)).cval()
        s.states = [o for o, t in st.items() if t == news[0].ret][0]
        s.mem = [o for o, t in st.items() if t == up[0].ret][0]
        ok = True
        for v in range(s.delta + 8, 40):
            env = ev.Env(1, {atom(A(1)): v})
            ok = ok and env.ev(up[0].args[1]) >= 1 << v
        ck("the memory is as large as the superpage", ok, p,
           str(up[0].args[1]))
        n = news[0].args[0]
        ok = True
        for v in range(s.delta + 8, 40):
            env = ev.Env(1, {atom(A(1)): v})
            ok = ok and env.ev(n) >= 4 * ((2 << s.delta) - 1)
        ck("every page has a state", ok, p, str(n))
        # initial states
        for e in p.events:
            if e.kind != "store" or not e.loops:
                continue
            d = e.args[0] - news[0].ret
            v = e.args[1]
            if v.cval() is None:
                for z in range(3):
                    x = ev.Env(1, {a: z for a in deep_atoms(v)
                                   if a[0] == "phi"})
                    (first if z == 0 else rest).add(x.ev(v))
                ck("the states are set one by one",
                   all(ev.Env(1, {a: z for a in deep_atoms(d)}).ev(d) ==
                       4 * z for z in range(9)), p, str(d))
                continue
            z = [pr for pr, x, y in ineq.flat(p.conds)
                 if y.cval() == 0 and x.single_atom() and
                 x.single_atom()[0] == "phi"]
            if d.cval() == 0 or "eq" in z:
                first.add(v.cval())
            elif d.cval() is None:
                rest.add(v.cval())
        # set outside of the loop
        for e in p.events:
            if e.kind == "store" and not e.loops and \
               e.args[0] == news[0].ret and e.args[1].cval() is not None:
                alone.add(e.args[1].cval())
    # states of the loop's general iteration
    for p in paths(f, VecHooks(), merge=False):
        for e in p.events:
            if e.kind == "store" and e.loops and not e.second and \
               e.args[1].cval() is not None:
                if ("ne", 0) in {(pr, y.cval()) for pr, x, y in
                                 ineq.flat(p.conds)}:
                    rest.add(e.args[1].cval())
    first = alone or first
    ck("a new superpage is one vacant page",
       len(first) == 1 and len(rest) == 1 and first != rest, None,
       "first page %s, others %s" % (first, rest))
    ck.done()
    if ck.failed():
        return None
    s.V, s.N = first.pop(), rest.pop()
    return s


def sp_of(p, s):
    """The superpage whose page states the path writes."""
    out = []
    for e in p.events:
        if e.kind != "store":
            continue
        for a in e.args[0].atoms():
            if a[0] == "load" and e.args[0].t.get((a,)) == 1:
                sp = a[1] - C(s.states)
                if sp not in out and IMPL != sp:
                    out.append(sp)
    return out


P0 = 1 << 33
M0 = 1 << 45


class Sample:
    """Values for a superpage, a page in it and a request."""

    def __init__(self, s, sp, r):
        self.delta = s.delta
        self.min = 8 + r.choice([0, 1, r.randrange(0, 13)])
        self.size = self.min + s.delta
        self.fx = {atom(ld(sp + C(s.size))): self.size,
                   atom(ld(sp + C(s.min))): self.min,
                   atom(ld(sp + C(s.states))): P0,
                   atom(ld(sp + C(s.mem))): M0}
        self.n = (2 << s.delta) - 1

    def level(self, page):
        return (page + 1).bit_length() - 1

    def psize(self, page):
        return self.size - self.level(page)

    def addr(self, page):
        d = self.level(page)
        return M0 + ((page + 1 - (1 << d)) << (self.size - d))


class Calc:
    """The variables of a loop, as one path left it: the values they can have
    when an iteration starts, given the values of everything else."""

    def __init__(self, f, p, h):
        st = p.st
        self.f, self.h = f, h
        self.body = f.loops[h]["blocks"]

        def term(r):
            if r["k"] == "ins":
                t = st.terms.get(r["i"])
                return loops.first(t) if t is not None else None
            return st.val(r)
        init, nxt = recurrence(f, st, h, term)
        self.init = {a: t for a, t in init.items() if a in nxt}
        self.nxt = {a: t for a, t in nxt.items() if a in init}
        self.dead = {z for b in self.body for z in f.succ[b]
                     if z not in self.body and loops.throws_only(f, z)}
        self.cond = {}
        for b in self.body:
            I = f.blocks[b][-1]
            if I.op == "br" and "tb" in I.d and I["tb"] != I["fb"]:
                t = term(I.args[0])
                self.cond[b] = (t, leaves(t) if t is not None else None)

    def step(self, env, known):
        """Can the iteration be followed by another one; be the last?"""
        again = out = False
        seen, work = set(), [self.h]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            I = self.f.blocks[b][-1]
            ss = self.f.succ[b]
            if b in self.cond:
                t, ls = self.cond[b]
                if t is not None and ls <= known:
                    ss = [I["tb"] if env.ev(t) & 1 else I["fb"]]
            elif I.op == "invoke":
                ss = [I["normal"]]
            for z in ss:
                if z == self.h:
                    again = True
                elif z in self.body:
                    work.append(z)
                elif z not in self.dead:
                    out = True
        return again, out

    def states(self, fx, limit=70, sure=False):
        """(values at the start of every possible iteration, may an iteration
        other than the last one of these leave the loop?)"""
        vals = {}
        env = ev.Env(1, fx)
        for a, t in self.init.items():
            if leaves(t) <= set(fx):
                vals[a] = env.ev(t)
        res, early = [], False
        for _ in range(limit):
            if not vals:
                break
            res.append(vals)
            g = dict(fx)
            g.update(vals)
            known = set(g)
            env = ev.Env(1, g)
            again, out = self.step(env, known)
            if not again:
                return res, early
            early = early or out
            if early and sure:
                break
            vals = {a: env.ev(self.nxt[a]) for a in vals
                    if leaves(self.nxt[a]) <= known}
        return res, True


LEAVES = {}


def leaves(t):
    """Atoms whose values decide that of t (loads count as atoms when their
    value is given, so they are leaves)."""
    k = id(t)
    if k not in LEAVES:
        out = set()

        def go(q):
            for a in q.atoms():
                if a[0] in ("op", "icmp", "select"):
                    for z in a[1:]:
                        if isinstance(z, Poly):
                            go(z)
                else:
                    out.add(a)
        go(t)
        LEAVES[k] = (t, out)
    return LEAVES[k][1]


def fits(p, env, known):
    """Does the sample satisfy the decisions it determines?"""
    cs = getattr(p, "leafed", None)
    if cs is None:
        cs = p.leafed = [(c, leaves(c[0])) for c in p.conds]
    return all(ev.when_ok(env, c) for c, l in cs if l <= known)


def settle(f, p, fx, r=None):
    """Gives the variables of loops values: those they have when the loop is
    left if that is determined, one of the possible ones otherwise."""
    cs = getattr(p, "calcs", None)
    if cs is None:
        hs = sorted((h for h in f.loops if h in p.blocks),
                    key=lambda h: p.blocks.index(h)
                    if isinstance(p.blocks, (list, tuple)) else h)
        cs = p.calcs = [c for h in hs for c in [Calc(f, p, h)] if c.init]
    known = dict(fx)
    if not fits(p, ev.Env(1, known), set(known)):
        return None
    for c in cs:
        if any(a in known for a in c.init):
            continue
        vs, early = c.states(known, 70, r is None)
        if not vs:
            continue
        if p.end == "loop" and p.events and c.h in p.events[-1].loops:
            early = True
        if not early:
            known.update(vs[-1])
        elif r is not None:
            pool = vs[:3] + vs[-2:] + vs
            for z in r.sample(pool, min(12, len(pool))):
                cand = dict(known)
                cand.update(z)
                if fits(p, ev.Env(1, cand), set(cand)):
                    break
            known = cand
        if not fits(p, ev.Env(1, known), set(known)):
            return None
    return known


def page_events(p, env):
    """(page index or None, state, event) of the stores to page states."""
    out = []
    for e in p.events:
        if e.kind != "store":
            continue
        o = (e.args[0] - IMPL).cval()
        if o is not None:
            continue
        a = env.ev(e.args[0]) - P0
        v = e.args[1].cval()
        out.append((a // 4 if a % 4 == 0 else None, v, e))
    return out


def cond_pages(p, env, known, val):
    """Pages which the decisions of the path found in state val."""
    out = set()
    for pr, x, y in ineq.flat(p.conds):
        for u, v in ((x, y), (y, x)):
            a = u.single_atom()
            if pr == "eq" and v.cval() == val and a and a[0] == "load" and \
               loops.only_known(a[1], known):
                d = env.ev(a[1]) - P0
                if d % 4 == 0 and 0 <= d < 1 << 20:
                    out.add(d // 4)
    return out


def phis_in(*ts):
    return {a for t in ts for a in deep_atoms(t) if a[0] == "phi"}


def binary_page(ctx):
    """M14"""
    R = ctx.R
    s = shape(ctx)
    if s is None:
        return
    al = method(ctx, "binary_page", "do_allocate")
    de = method(ctx, "binary_page", "do_deallocate")
    R.fn(al)
    R.fn(de)
    O = allocation(ctx, s, al)
    release(ctx, s, de, O)


def allocation(ctx, s, f):
    R = ctx.R
    ck = Check(R, "binary_page: do_allocate", f)
    ps = paths(f, VecHooks(), merge=False, limit=60000)
    R.count("paths", len(ps))
    occ, hits, memo = set(), 0, set()
    for p in ps:
        new_pages(ck, p, f, s, memo)
        if p.end not in ("ret", "loop"):
            continue
        if p.end == "ret" and p.ret.cval() == 0:
            ck("nothing happens for an empty request",
               not [e for e in p.events if e.kind == "store"], p)
            continue
        sps = sp_of(p, s)
        if p.end == "loop" and not sps:
            continue
        if not ck("one page of one superpage is handed out", len(sps) == 1,
                  p, str(sps)):
            continue
        sp = sps[0]
        if not [e for e in p.events if e.kind == "store"]:
            continue
        for k in range(60):
            r = random.Random(k)
            x = Sample(s, sp, r)
            goal = r.randrange(x.min, x.size + 1)
            req = r.choice([1 << goal, (1 << goal) - 1,
                            (1 << (goal - 1)) + 1, r.randrange(1, 300)])
            fx = dict(x.fx)
            fx[atom(A(1))] = req
            fx = settle(f, p, fx, r)
            if fx is None:
                continue
            env = ev.Env(k, fx)
            hits += 1
            one(ck, s, x, p, env, set(fx), req, occ, f)
    ck("the page handed out is marked as occupied", len(occ) == 1 and
       not occ & {s.V, s.N}, None, str(occ))
    ck.done(["the page handed out was vacant",
             "the address is the one of the page",
             "the page is as large as requested"])
    R.count("samples", hits)
    return occ.pop() if len(occ) == 1 else None


def one(ck, s, x, p, env, known, req, occ, f):
    evs = [z for z in page_events(p, env) if not z[2].second]
    vac = cond_pages(p, env, known, s.V)
    vac |= inductive(f, p, env, s, x, known)
    text = "superpage of 2^%d, pages from 2^%d, request of %d bytes: %s" % (
        x.size, x.min, req, [(i, v) for i, v, e in evs])
    pend = []       # children which must become vacant
    last = None
    for i, v, e in evs:
        if not ck("only states of existing pages are changed",
                  i is not None and 0 <= i < x.n, p, text, e):
            return
        if i in pend and v == s.V:
            pend.remove(i)
            vac.add(i)
            continue
        if not ck("the page handed out was vacant" if v != s.V else
                  "only the halves of a split page become vacant",
                  i in vac and v != s.V, p, text + " page %d" % i, e):
            return
        vac.discard(i)
        last = (i, v)
        kids = (2 * i + 1, 2 * i + 2)
        nxt = [j for j, w, g in evs if g.n > e.n and w == s.V]
        if any(k in nxt for k in kids):
            pend += kids
            last = None
    if p.end != "ret":
        return
    ck("both halves of a split page become vacant", not pend, p,
       text + " " + str(pend))
    if not ck("one page is marked as occupied", last is not None, p, text):
        return
    i, v = last
    occ.add(v)
    ck("the address is the one of the page", env.ev(p.ret) == x.addr(i), p,
       "%s: page %d is at %#x, returns %#x" % (text, i, x.addr(i),
                                               env.ev(p.ret)))
    ck("the page is as large as requested", 1 << x.psize(i) >= req and
       x.psize(i) >= x.min, p,
       "%s: page %d has 2^%d bytes" % (text, i, x.psize(i)))


def inductive(f, p, env, s, x, known):
    """Loop variables that stand for vacant pages: the first one is, and
    every iteration leaves a page that it just made vacant."""
    out = set()
    for a in phis_in(*[e.args[0] for e in p.events if e.kind == "store"]):
        i = p.st.terms.get(("init", a[1]))
        I = f.ins.get(a[1])
        if i is None or I is None or a not in known:
            continue
        h = [h for h, l in f.loops.items() if h == I.blk]
        if not h:
            continue
        body = f.loops[h[0]]["blocks"]
        # initial value vacant?
        ok = any(pr == "eq" and s.V in (u.cval(), v.cval()) and
                 any(t.single_atom() and t.single_atom()[0] == "load" and
                     page_term(t.single_atom()[1], i) for t in (u, v))
                 for pr, u, v in ineq.flat(p.conds))
        stores = [(e.args[0], e.args[1]) for e in p.events
                  if e.kind == "store" and h[0] in e.loops and
                  not e.second]
        for z, pb in zip(I.args, I["pb"]):
            if pb in body:
                t = p.st.terms.get(z.get("i"))
                if t is None:
                    ok = False
                    continue
                t = loops.first(t)
                if not loops.only_known(t, known):
                    ok = False
                    continue
                ok = ok and any(v.cval() == s.V and
                                loops.only_known(ad, known) and
                                env.ev(ad) - P0 == 4 * env.ev(t)
                                for ad, v in stores)
        if ok:
            out.add(env.ev(Poly.atom(a)))
    return out


def page_term(addr, idx):
    d = addr - idx.scale(4)
    return bool(d.single_atom()) and d.single_atom()[0] == "load"


def new_pages(ck, p, f, s, memo):
    """A superpage made for a request is big enough and not too coarse."""
    for e in p.events:
        if e.kind == "call" and e.ins.qn.startswith("std::vector::emplace") \
           and len(e.args) > 1:
            t = p.st.read(e.args[1], 8, e.path_mem)
            key = str(t), frozenset(
                (c, pol) for c, pol in p.conds if leaves(c) <= leaves(t) |
                {a for a in leaves(c) if a[0] == "phi" or a == atom(A(1))})
            if key in memo:
                continue
            memo.add(key)
            for goal in range(8, 64):
                for req in ((1 << goal), (1 << goal) - 1):
                    fx = settle(f, p, {atom(A(1)): req})
                    if fx is None or not leaves(t) <= set(fx):
                        continue
                    env = ev.Env(1, fx)
                    v = env.ev(t)
                    g = max(8, (req - 1).bit_length())
                    ck("a superpage made for a request can hold it",
                       v >= g and v - s.delta <= g and v < 64, p,
                       "request of %d bytes makes a superpage of 2^%d with "
                       "pages from 2^%d" % (req, v, v - s.delta), e)


def release(ctx, s, f, O):
    R = ctx.R
    ck = Check(R, "binary_page: do_deallocate", f)
    ps = paths(f, VecHooks(), merge=False, limit=60000)
    R.count("paths", len(ps))
    hits, uns, steps, merges = 0, set(), [], []
    for p in ps:
        sps = sp_of(p, s)
        if p.end not in ("ret", "loop") or p.end == "loop" and not sps:
            continue
        if not sps:
            ck("only null is ignored", has_null(p), p)
            continue
        if len(sps) > 1:
            ck("one superpage is concerned", False, p, str(sps))
            continue
        sp = sps[0]
        end = ld(IMPL + C(16))
        if sp == end or any(pr == "eq" and {u, v} == {sp, end}
                            for pr, u, v in ineq.flat(p.conds)):
            continue    # nothing was found: not a block of this resource
        for k in range(16):
            r = random.Random(k)
            x = Sample(s, sp, r)
            page = r.choice([0, 1, 2, x.n - 1, r.randrange(x.n // 2, x.n), r.randrange(x.n), r.randrange(x.n),
                             r.randrange(x.n)])
            g = x.psize(page)
            req = r.choice([1 << g, (1 << (g - 1)) + 1,
                            r.randrange((1 << (g - 1)) + 1, (1 << g) + 1)] +
                           ([1, 100, 100, 100] if g == 8 else []))
            for ptr, inside in ((x.addr(page), True),
                                (M0 - 1, False),
                                (M0 - (1 << g), False),
                                (M0 + (1 << x.size), False)):
                fx = dict(x.fx)
                fx[atom(A(1))] = ptr
                fx[atom(A(2))] = req
                fx = settle(f, p, fx, r)
                if fx is None:
                    continue
                env = ev.Env(k, fx)
                text = "superpage of 2^%d, pages from 2^%d, block of %d " \
                    "bytes at offset %d" % (x.size, x.min, req, ptr - M0)
                if not ck("a block is looked up in the superpage that holds "
                          "it", inside, p, text):
                    continue
                hits += 1
                evs = page_events(p, env)
                ck("the page of the block becomes vacant",
                   len(evs) == 1 and evs[0][0] == page and
                   evs[0][1] == s.V, p, "%s is page %d, changed: %s" %
                   (text, page, [(i, v) for i, v, e in evs]))
                climb(ck, s, p, f, fx, page, text, steps)
                merged(ck, s, x, p, f, fx, page, text, uns, merges)
    R.count("samples", hits)
    judge(ck, steps, merges)
    ck.done(["the page of the block becomes vacant"])
    for q in sorted(uns):
        unsplit(ctx, s, q, O)


def has_null(p):
    return any(pr == "eq" and A(1) in (x, y) and 0 in (x.cval(), y.cval())
               for pr, x, y in ineq.flat(p.conds))


def merged(ck, s, x, p, f, fx, page, text, uns, merges):
    """A page is merged only if everything below it is vacant."""
    for e in p.events:
        if e.kind != "call" or not e.args or e.ins.qn.startswith("std::"):
            continue
        base = p.st.root(e.args[0])
        if base is None:
            continue
        uns.add(e.ins.qn)
        t = p.st.read(e.args[0] + C(8), 8, e.path_mem)
        env = ev.Env(1, fx)
        if not leaves(t) <= set(fx):
            ck("the page to merge is known", False, p, str(t), e)
            continue
        u = env.ev(t)
        vac = cond_pages(p, env, set(fx), s.V)
        curs = [(None, page)] + [
            (a, fx[a]) for a in phis_in(t) | {b for c, l in p.leafed
                                              for b in l if b[0] == "phi"}
            if start(p, a, set(fx), env) == page and
            fx.get(a) is not None and rising(f, a)]
        merges.append((p, e, u, curs, vac, text))


def sibling(c):
    return ((c - 1) ^ 1) + 1


def judge(ck, steps, merges):
    """Was every page that is merged found to have vacant halves only?"""
    inv = set()
    for a in {x[0] for x in steps}:
        mine = [x for x in steps if x[0] == a]
        # looked at before the step, or carried from one step to the next
        if all(n == cur or sibling(cur) in vac
               for _, _, cur, n, _, vac, _ in mine) or \
           all(sibling(page) in vac and (n == cur or sibling(n) in vac)
               for _, _, cur, n, page, vac, _ in mine):
            inv.add(a)
        for _, p, cur, n, page, vac, text in mine:
            ck("the search for the largest vacant page passes vacant "
               "siblings only", n == cur or
               (cur > 0 and n == (cur - 1) // 2 and a in inv), p,
               "%s: from page %d to %d; vacant: %s" %
               (text, cur, n, sorted(vac)))
    for p, e, u, curs, vac, text in merges:
        ok = any(u == cur or (cur > 0 and u == (cur - 1) // 2 and
                              (sibling(cur) in vac or a in inv))
                 for a, cur in curs)
        ck("only pages whose halves are both vacant are merged", ok, p,
           "%s: merges page %d, knows %s to be vacant" %
           (text, u, sorted(vac)), e)


def start(p, a, known, env):
    t = p.st.terms.get(("init", a[1]))
    return env.ev(t) if t is not None and leaves(t) <= known else None


def rising(f, a):
    I = f.ins.get(a[1])
    return I is not None and I.blk in f.loops


def climb(ck, s, p, f, fx, page, text, steps):
    """Each step of the search for the largest vacant page goes to the
    parent, and only if the sibling is vacant."""
    env = ev.Env(1, fx)
    for h, l in f.loops.items():
        at = [k for k, b in enumerate(p.blocks) if b == h]
        if len(at) > 1:
            pb = p.blocks[at[1] - 1]
        elif at and p.end == "loop" and p.blocks[-1] in l["blocks"]:
            pb = p.blocks[-1]
        else:
            continue
        for I in f.blocks[h]:
            a = ("phi", I.id)
            if I.op != "phi" or fx.get(a) is None or \
               start(p, a, set(fx), env) != page:
                continue
            zs = [z for z, b in zip(I.args, I["pb"]) if b == pb]
            t = p.st.val(zs[0]) if len(zs) == 1 else None
            if t is None or not leaves(loops.first(t)) <= set(fx):
                ck("the search for the largest vacant page can be followed",
                   False, p, str(t))
                continue
            cur, n = fx[a], env.ev(loops.first(t))
            vac = cond_pages(p, env, set(fx), s.V)
            steps.append((a, p, cur, n, page, vac, text))


def unsplit(ctx, s, qn, O):
    R = ctx.R
    fs = [f for f in ctx.core(entries=["^" + re.escape(qn) + "$"]).fns
          if f.name.split("(")[0].endswith(qn.split("::")[-1]) and
          f.qn == qn]
    R.need(fs, "no definition of %s found" % qn)
    f = fs[0]
    R.fn(f)
    ck = Check(R, "binary_page: merging", f)
    split = set()
    for p in paths(f, VecHooks(), merge=False):
        if p.end != "ret":
            continue
        for page in (0, 1, 2, 6, 20):
            fx = {atom(ld(ld(A(0)) + C(s.states))): P0,
                  atom(ld(A(0) + C(8))): page}
            env = ev.Env(1, fx)
            kids = [2 * page + 1, 2 * page + 2]
            fin = {}
            for i, v, e in page_events(p, env):
                fin[i] = v
            rec = []
            for e in p.events:
                if e.kind == "call" and e.ins.qn == qn:
                    t = p.st.read(e.args[0] + C(8), 8, e.path_mem)
                    rec.append(env.ev(t))
            ck("a merged page is vacant, its halves no longer exist",
               fin == {page: s.V, kids[0]: s.N, kids[1]: s.N}, p,
               "page %d: %s" % (page, fin))
            for pr, u, v in ineq.flat(p.conds):
                for w, y in ((u, v), (v, u)):
                    a = w.single_atom()
                    if a and a[0] == "load" and y.cval() is not None and \
                       loops.only_known(a[1], set(fx)):
                        i = (env.ev(a[1]) - P0) // 4
                        if pr == "eq":
                            split.add(y.cval()) if i in rec else None
                            ck("a half that is split is merged first",
                               (i in rec) == (y.cval() not in
                                              (s.V, s.N, O)), p,
                               "page %d in state %d" % (i, y.cval()))
                        elif pr == "ne" and y.cval() not in (s.V, s.N, O):
                            ck("only halves that are split are merged",
                               i not in rec, p, "page %d" % i)
            ck("only halves are merged first", all(i in kids for i in rec),
               p, str(rec))
            ck("every split half is merged first", all(
                i in rec or known_unsplit(p, env, fx, i, s) for i in kids),
               p, str(rec))
    ck.done(["a merged page is vacant, its halves no longer exist"])


def known_unsplit(p, env, fx, i, s):
    for pr, u, v in ineq.flat(p.conds):
        for w, y in ((u, v), (v, u)):
            a = w.single_atom()
            if a and a[0] == "load" and y.cval() is not None and \
               loops.only_known(a[1], set(fx)) and \
               (env.ev(a[1]) - P0) // 4 == i:
                return pr == "ne" or y.cval() == s.V
    return False
