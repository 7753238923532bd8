"""Iteration space of a loop, for given small values of its bounds.

The branch conditions of the loop are evaluated over the induction variables;
conditions which involve anything else are treated as taken either way."""
from .ir import Poly
from .paths import recurrence
from . import ev


def first(t):
    """The term as it is in the body (second visits of a header renamed)."""
    def a(x):
        if isinstance(x, Poly):
            return first(x)
        if isinstance(x, tuple):
            if x and x[0] == "phi" and len(x) == 3:
                return ("phi", x[1])
            return tuple(a(y) for y in x)
        return x
    out = Poly({})
    for k, v in t.t.items():
        m = Poly.const(v)
        for x in k:
            m = m * Poly.atom(a(x))
        out = out + m
    return out


def only_known(t, known):
    if isinstance(t, Poly):
        return all(only_known(a, known) for k in t.t for a in k)
    if isinstance(t, tuple):
        if t in known:
            return True
        if t and t[0] in ("op", "icmp", "select"):
            return all(only_known(y, known) for y in t[1:]
                       if isinstance(y, (Poly, tuple)))
        return False
    return True


def apart(t):
    """A comparison without what both sides have in common."""
    a = t.single_atom()
    if not a or a[0] != "icmp" or not isinstance(a[2], Poly) or \
       not isinstance(a[3], Poly) or a[1][0] == "s":
        return t
    if not set(a[2].t) & set(a[3].t) - {()}:
        return t
    x, y = Poly({}), Poly({})
    for m, c in (a[2] - a[3]).t.items():
        q = Poly.const(abs(c))
        for z in m:
            q = q * Poly.atom(z)
        if c > 0:
            x = x + q
        else:
            y = y + q
    return Poly.atom((a[0], a[1], x, y))


class Trace:
    def __init__(self):
        self.its = []        # environments of the iterations that reach blk
        self.skipped = []    # environments of iterations that may not
        self.skips = set()   # (condition, outcome) avoiding blk
        self.early = None    # branch leaving the loop for unknown reasons
        self.ended = False
        self.last = None


def innermost(f, blk):
    hs = [h for h, l in f.loops.items() if blk in l["blocks"]]
    return min(hs, key=lambda h: len(f.loops[h]["blocks"])) if hs else None


def throws_only(f, b, memo=None):
    """Does every path from b end with an exception?"""
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if f.blocks[x][-1].op == "ret":
            return False
        work += f.succ[x]
    return True


def trace(f, terms, h, fixed, blk=None, limit=10):
    """Walks the loop with header h. `terms` are the values propagated along
    a path which went through the loop; `fixed` gives values to atoms."""
    tr = Trace()
    body = f.loops[h]["blocks"]
    st = terms
    cleanup = throws_only(f, h)

    def term(r):
        if r["k"] == "ins":
            t = st.terms.get(r["i"])
            return first(t) if t is not None else \
                Poly.atom(("untaken", r["i"]))
        return st.val(r)
    vals = {}
    init, nxt = recurrence(f, st, h, term)
    for a, t in init.items():
        if only_known(t, set(fixed)):
            vals[a] = ev.Env(1, dict(fixed)).ev(t)
    bterms = {}
    for b in body:
        I = f.blocks[b][-1]
        if I.op == "br" and "tb" in I.d and I["tb"] != I["fb"]:
            bterms[b] = apart(term(I.args[0]))
    for _ in range(limit):
        fx = dict(fixed)
        fx.update(vals)
        known = set(fx)
        env = ev.Env(1, fx)
        # explore one iteration
        outs, hit = set(), False
        skips = set()
        work, seen = [h], set()
        reach = set()
        edges = []
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            ss = f.succ[b]
            I = f.blocks[b][-1]
            sure = True
            if b in bterms:
                c = bterms[b]
                if only_known(c, known):
                    v = env.ev(c) & 1
                    ss = [I["tb"] if v else I["fb"]]
                else:
                    sure = False
            elif I.op == "invoke":
                ss = [I["normal"]]
            for s in ss:
                if s == h:
                    outs.add("latch")
                    edges.append((b, h))
                elif s not in body:
                    if not cleanup and throws_only(f, s):
                        continue
                    outs.add("exit")
                    if not sure:
                        tr.early = f.blocks[b][-1]
                else:
                    edges.append((b, s))
                    work.append(s)
        if blk is not None and blk in seen:
            hit = True
            # which decisions avoid blk?
            reach = {blk}
            ch = True
            while ch:
                ch = False
                for x, y in edges:
                    if y in reach and x not in reach and y != h:
                        reach.add(x)
                        ch = True
            # blocks that can be reached without blk
            wo, work = set(), [h]
            while work:
                b = work.pop()
                if b in wo or b == blk:
                    continue
                wo.add(b)
                work += [y for x, y in edges if x == b and y != h]
            if blk != h and any(x in wo and y == h for x, y in edges):
                for b in wo:
                    if b in bterms and b in reach and \
                       not only_known(bterms[b], known):
                        I = f.blocks[b][-1]
                        for pol, s in ((True, I["tb"]), (False, I["fb"])):
                            if s not in reach:
                                skips.add((bterms[b], pol))
                tr.skips |= skips
        if hit or blk is None:
            tr.its.append(dict(fx))
        else:
            tr.skipped.append(dict(fx))
        tr.last = fx
        if outs == {"exit"}:
            tr.ended = True
            return tr
        if "exit" in outs and "latch" in outs and tr.early is None:
            tr.early = f.blocks[h][-1]
        if not outs or outs == {"exit", "latch"} and tr.early is None:
            return tr
        vals = {k: env.ev(t) for k, t in nxt.items()
                if only_known(t, known)}
    return tr


def trace1(f, st, h, fixed):
    """Outcome of one iteration when every decision in it is known."""
    body = f.loops[h]["blocks"]
    env, known = ev.Env(1, fixed), set(fixed)
    b = h
    for _ in range(100):
        I = f.blocks[b][-1]
        if I.op == "br" and "tb" in I.d and I["tb"] != I["fb"]:
            t = st.terms.get(I.args[0].get("i"))
            if t is None:
                return None
            t = first(t)
            if not only_known(t, known):
                return None
            b = I["tb"] if env.ev(t) & 1 else I["fb"]
        else:
            b = f.succ[b][0]
        if b == h:
            return "latch"
        if b not in body:
            return "exit"
    return None
