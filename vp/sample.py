"""Evaluation of the terms of a path for given small values of its inputs:
which decisions it takes, which states its loops go through, and what its
events refer to. Nothing is executed; the terms and the recurrences of the
loops are evaluated."""
import hashlib
import random

from . import ev, loops
from .ir import Poly
from .paths import quiet, Hooks, recurrence


class Unknown(Exception):
    pass


class Env(ev.Env):
    """Values of terms; loads come from `mem` (address -> value)."""

    def __init__(self, fixed, mem):
        ev.Env.__init__(self, 1, fixed)
        self.mem = mem

    def atom_value(self, a, key):
        if key[0] == "load" and len(key) == 2 and key[1] in self.mem:
            return self.mem[key[1]]
        raise Unknown(str(Poly.atom(a)))

    def sub(self, more):
        d = dict(self.fixed)
        d.update(more)
        return type(self)(d, self.mem)

    def get(self, t):
        try:
            return self.ev(t)
        except Unknown:
            return None


class Hashed(Env):
    """Everything that is not known has some value, the same for equal
    addresses; `mem` is the number of the sample."""

    def atom_value(self, a, key):
        h = hashlib.blake2b(repr((self.mem, key)).encode(),
                            digest_size=16).digest()
        r = random.Random(h)
        k = r.randrange(8)
        if k == 0:
            return 0
        if k < 3:
            return r.randrange(4)
        if k < 5:
            return r.randrange(1 << 12)
        return r.getrandbits(30)


class Coarse(Hashed):
    """Values which are often equal."""

    def atom_value(self, a, key):
        h = hashlib.blake2b(repr((self.mem, key)).encode(), digest_size=8)
        return int(h.digest()[0] % (2 << (self.mem >> 1) % 4) == 0)


def always(f, h, b):
    """Every iteration of the loop which goes on passes block b."""
    body = f.loops[h]["blocks"]
    seen, work = set(), [h]
    if b == h:
        return True
    while work:
        x = work.pop()
        if x in seen or x == b:
            continue
        seen.add(x)
        for z in f.succ[x]:
            if z == h:
                return False
            if z in body:
                work.append(z)
    return True


class Loop:
    def __init__(self, f, p, h):
        self.f, self.h = f, h
        self.body = f.loops[h]["blocks"]
        self.quiet = quiet(f, h)
        st = p.st

        def term(r):
            if r["k"] == "ins":
                t = st.terms.get(r["i"])
                return loops.first(t) if t is not None else None
            return st.val(r)
        init, nxt = recurrence(f, st, h, term)
        self.init = {a: t for a, t in init.items() if a in nxt}
        self.nxt = {a: t for a, t in nxt.items() if a in init}
        self.phis = [("phi", i.id) for i in f.blocks[h] if i.op == "phi"]
        self.ends = {a: a + ("end",) for a in self.phis}
        self.memory(p)
        self.cond = {}
        for b in self.body:
            I = f.blocks[b][-1]
            if I.op == "br" and "tb" in I.d and I["tb"] != I["fb"]:
                self.cond[b] = term(I.args[0])
        self.cleanup = loops.throws_only(f, h)

    def memory(self, p):
        """Fixed places in memory which every iteration writes."""
        f, h, st = self.f, self.h, p.st
        marks = {}
        for n, w in enumerate(st.writes):
            if w[0] == "loop" and w[1] is None and w[4][0][0] == h:
                marks.setdefault(w[4][0][1], []).append((n, w[4][1]))
        if any(len(l) != 1 for l in marks.values()) or 1 not in marks:
            return
        first, ext = marks[1][0]
        last = marks[2][0][0] if 2 in marks else len(st.writes)
        for q in ext:
            es = [e for e in p.events if e.kind == "store" and not e.second and
                  h in e.loops and e.args[0] == q]
            if not any(always(f, h, e.ins.blk) for e in es) or \
               not all(always(f, h, e.ins.blk) for e in es):
                continue
            a = ("havoc", (h, 1), q)
            self.init[a] = st.read(q, 8, first)
            self.nxt[a] = loops.first(st.read(q, 8, last))
            self.phis.append(a)
            self.ends[a] = ("havoc", (h, 2), q)

    def step(self, env):
        again = out = False
        seen, work = set(), [self.h]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            I = self.f.blocks[b][-1]
            ss = self.f.succ[b]
            if b in self.cond:
                v = env.get(self.cond[b]) if self.cond[b] is not None \
                    else None
                if v is not None:
                    ss = [I["tb"] if v & 1 else I["fb"]]
            elif I.op == "invoke":
                ss = [I["normal"]]
            for z in ss:
                if z == self.h:
                    again = True
                elif z in self.body:
                    work.append(z)
                elif self.cleanup or not loops.throws_only(self.f, z):
                    out = True
        return again, out

    def states(self, env, limit=64):
        """Values of the variables at the start of each iteration; the last
        one is that in which the loop is left. None if not determined."""
        vals = {}
        for a, t in self.init.items():
            v = env.get(t)
            if v is not None:
                vals[a] = v
        out = []
        for _ in range(limit):
            out.append(vals)
            e = env.sub(vals)
            again, leave = self.step(e)
            if not again:
                return out
            if leave:
                return None
            nv = {a: e.get(t) for a, t in self.nxt.items()}
            vals = {a: v for a, v in nv.items() if v is not None}
        return None


class Run:
    """A path under a sample: `ok` if it may be taken."""

    def __init__(self, f, p, fixed, mem, kind=Env):
        self.f, self.p = f, p
        self.ok = True
        self.loops = {}
        order = []
        bl = p.blocks
        for h in sorted((h for h in f.loops if h in bl),
                        key=lambda h: bl.index(h)
                        if isinstance(bl, (list, tuple)) else h):
            order.append(h)
        env = kind(dict(fixed), mem)
        self.gen = {}       # atom of a generic iteration -> loop header
        for h in order:
            l = Loop(f, p, h)
            s = l.states(env)
            self.loops[h] = (l, s)
            if s is None:
                if not l.quiet:
                    for a in l.phis:
                        self.gen[a] = h
                continue
            more = {}
            for a, v in s[-1].items():
                more[l.ends[a]] = v
                if l.quiet:
                    more[a] = v
            if not l.quiet:
                for a in l.phis:
                    self.gen[a] = h
            env = env.sub(more)
        self.env = env
        for c, pol in p.conds:
            if not self.may(c, pol):
                self.ok = False
                return

    def heads(self, t):
        """Loops whose generic iteration the term refers to."""
        return {self.gen[a] for a in deep(t) if a in self.gen}

    def iterations(self, h):
        l, s = self.loops[h]
        return s

    def may(self, c, pol):
        hs = self.heads(c)
        if not hs:
            v = self.env.get(c)
            return v is None or bool(v & 1) == pol
        if len(hs) > 1:
            return True
        s = self.iterations(next(iter(hs)))
        if s is None:
            return True
        for x in s:
            v = self.env.sub(x).get(c)
            if v is None or bool(v & 1) == pol:
                return True
        return False

    def when(self, e):
        """Environments of the executions of event e; None if they are not
        determined."""
        hs = [h for h in e.loops if h in self.loops]
        if not e.loops:
            return [self.env]
        if len(e.loops) != 1 or not hs:
            return None
        h = hs[0]
        s = self.iterations(h)
        if s is None:
            return None
        out = []
        for x in s:
            env = self.env.sub(x)
            good = True
            for c, pol in self.p.conds:
                if h in self.heads(c):
                    v = env.get(c)
                    if v is None:
                        return None
                    if bool(v & 1) != pol:
                        good = False
                        break
            if good:
                out.append(env)
        return out


DEEP = {}


def deep(t):
    k = id(t)
    if k not in DEEP:
        out = set()

        def go(q):
            for a in q.atoms():
                if a not in out:
                    out.add(a)
                    for z in a[1:]:
                        if isinstance(z, Poly):
                            go(z)
        go(t)
        DEEP[k] = (t, out)
    return DEEP[k][1]


def runs(f, ps, fixed, mem, ends=("ret",), kind=Env):
    out = []
    for p in ps:
        if p.end in ends:
            r = Run(f, p, fixed, mem, kind)
            if r.ok:
                out.append(r)
    return out


class Only(Hooks):
    """Leaves out paths that none of the samples (Env) takes."""

    def __init__(self, samples):
        self.samples = list(samples)
        self.known = {}

    def truth(self, e, c):
        k = id(e), c
        if k not in self.known:
            v = e.get(c)
            self.known[k] = None if v is None else bool(v & 1)
        return self.known[k]

    def taken(self, st, c, pol):
        st.alive = [e for e in self.alive(st)
                    if self.truth(e, c) in (pol, None)]

    def alive(self, st):
        return self.samples if st.alive is None else st.alive

    def outcomes(self, st, c):
        out = set()
        for e in self.alive(st):
            v = self.truth(e, c)
            if v is None:
                return {True, False}
            out.add(v)
            if len(out) == 2:
                break
        return out
