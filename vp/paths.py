"""Path-sensitive propagation of terms.

Enumerates the control flow paths of a flattened function.  Along each path
the analysis propagates value terms, the contents of memory written on the
path and the branch outcomes taken so far; branches whose outcome follows from
these or from the given assumptions are not forked.  Loops are summarised: the
induction variables of a loop are symbolic in its body, a path passes a loop
body at most once."""
import heapq

from .ir import Poly, Fn, IGNORED_INTR, loaded
from .q import Facts, learn
from . import ineq


class TooManyPaths(Exception):
    pass


class Event:
    __slots__ = ("ins", "kind", "args", "ret", "loops", "n", "path_mem",
                 "extra", "second")

    def __repr__(self):
        return "<%s %s %r>" % (self.ins.id, self.kind, self.args)

    def where(self):
        return self.ins.where()


class Path:
    def __init__(self, st, end, ret=None):
        self.events = st.events
        self.conds = st.conds
        self.may = st.may       # outcomes on some of the merged histories
        self.alts = st.alts     # per merge: what the merged histories assume
        self.facts = st.fa
        self.end = end
        self.ret = ret
        self.st = st
        self.blocks = st.trail
        self.tracked = st.tracked

    def calls(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def load(self, addr, sz=8):
        return self.st.read(addr, sz)

    def text(self):
        out = ["path:"]
        last = None
        for e in self.events:
            w = "  %s %s" % (e.where(), e.kind if not e.ins.is_call() or
                             e.kind != "call" else e.ins.qn or "call")
            if w != last:
                out.append(w)
            last = w
        out.append("  -> " + self.end)
        return "\n".join(out[:40])


class Hooks:
    """What the calls of a function mean; to be specialised by the rules."""
    nonnull = ()
    keep = None     # (condition, outcome) that merging must not forget
    track = ()      # blocks whose passing must not be forgotten by merging
    atomics = False     # value() says what atomic operations give
    cleanup = False     # what is thrown is followed to its landing pad
    samples = ()    # only what is possible for one of them is of interest

    def kind(self, st, I, args):
        return None

    def readonly(self, st, I, kind, k):
        return False

    def effect(self, st, I, kind, args):
        pass

    def value(self, st, I, kind, args):
        """The result of a call, when it is more than "the result of it"."""
        return None

    def pure(self, I):
        return False

    def throws(self, I, kind):
        return False


class State:
    def __init__(self, f, hooks, facts):
        self.f = f
        self.hooks = hooks
        self.terms = {}
        self.writes = []
        self.conds = []
        self.events = []
        self.fa = Facts(facts.nz, facts.z, facts.true, facts.false)
        self.visited = {}
        self.since = {}
        self.may = set()
        self.alts = ()
        self.zero = None
        self.tracked = frozenset()
        self.alive = None       # samples which may take this path
        self.trail = []
        self.reads = []
        self.loops = f.loops
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.f, s.hooks, s.loops = self.f, self.hooks, self.loops
        s.dead = self.dead
        s.terms = dict(self.terms)
        s.writes = list(self.writes)
        s.conds = list(self.conds)
        s.events = list(self.events)
        s.fa = Facts(self.fa.nz, self.fa.z, self.fa.true, self.fa.false)
        s.visited = dict(self.visited)
        s.since = dict(self.since)
        s.may = set(self.may)
        s.alts = self.alts
        s.zero = self.zero
        s.tracked = self.tracked
        s.alive = self.alive
        s.trail = list(self.trail)
        s.reads = list(self.reads)
        return s

    # duck-typed interface of Fn used by Fn._compute -----------------------
    @property
    def ins(self):
        return self.f.ins

    def val(self, r):
        return Fn.val(self, r)

    def term(self, I):
        t = self.terms.get(I.id)
        if t is None:
            # not executed on this path (unreachable operand)
            return Poly.atom((I.op, I.id))
        return t

    def base_alloca(self, p):
        return Fn.base_alloca(self, p)

    # memory -----------------------------------------------------------------
    def root(self, p):
        """(root atom, constant offset or None) of a local address."""
        rs = [x for x in p.atoms() if x[0] == "alloca" or
              x[0] == "call" and x[2] in ("operator new", "operator new[]")]
        rs = [x for x in rs if p.t.get((x,)) == 1]
        if len(rs) != 1:
            return None
        return rs[0], (p - Poly.atom(rs[0])).cval()

    def write(self, p, sz, val):
        self.writes.append(("val", self.root(p), p, sz, val))

    def clobber(self, p, tag):
        self.writes.append(("clob", self.root(p), p, None, tag))

    def read(self, p, sz=8, upto=None):
        r = self.root(p)
        n = len(self.writes) if upto is None else upto
        while n > 0:
            n -= 1
            k, wr, wp, wsz, v = self.writes[n]
            if r is None or wr is None:
                if r is not None or wr is not None:
                    continue
                if k == "val" and wp == p:
                    return v
                if k == "loop":
                    if p in v[1]:
                        return Poly.atom(("havoc", v[0], p))
                    continue
                if k in ("copy", "set"):
                    d = (p - wp).cval()
                    if d is not None and wsz is not None and 0 <= d < wsz:
                        if k == "copy":
                            return self.read(v + Poly.const(d), sz, n)
                        return v
                continue
            if wr[0] != r[0]:
                continue
            if k == "loop":
                return Poly.atom(("havoc", v[0], p))
            if k == "clob":
                d = None if r[1] is None or wr[1] is None else r[1] - wr[1]
                return Poly.atom(("out",) + v + (d,))
            if r[1] is None or wr[1] is None:
                if wp == p and k == "val":
                    return v
                d = (p - wp).cval()
                if d is not None and wsz is not None and \
                   not 0 <= d < wsz:
                    continue
                if wr[1] is None:
                    # written at a computed index
                    return Poly.atom(("mix", self.events and
                                      self.events[-1].n or 0, p))
                continue
            d = r[1] - wr[1]
            if wsz is None:
                wsz = 1 << 62
            if 0 <= d < wsz:
                if k == "val":
                    if d == 0:
                        return v
                    return Poly.atom(("part", v, d))
                if k == "copy":
                    return self.read(v + Poly.const(d), sz, n)
                if k == "set":
                    return v if v.cval() == 0 else \
                        Poly.atom(("memset", v))
        if r is not None:
            return Poly.atom(("uninit", p))
        return loaded(p)

    def _load(self, I):
        p = self.val(I.args[0])
        self.reads.append((len(self.events), p, I))
        return self.read(self.val(I.args[0]), I.get("sz", 8))

    # events -------------------------------------------------------------
    def emit(self, I, kind, args, ret=None):
        e = Event()
        e.ins, e.kind, e.args, e.ret = I, kind, args, ret
        e.n = len(self.events)
        e.loops = tuple(h for h, l in self.loops.items()
                        if I.blk in l["blocks"])
        e.path_mem = len(self.writes)
        e.extra = None
        self.events.append(e)
        e.second = any(self.visited.get(h) == 2 for h in e.loops)
        if e.second:
            # a second pass only looks for the way out of the loop
            self.dead = True
        return e

    def assume(self, c, pol):
        self.conds.append((c, pol))
        if self.hooks.samples:
            self.hooks.taken(self, c, pol)
        (self.fa.true if pol else self.fa.false).add(c)
        learn(self.fa, c, pol)


def decide(st, c):
    """Outcome of a branch condition on this path, None if open."""
    v = st.fa.ev(c)
    if v is not None:
        return v
    if st.hooks.samples:
        l = st.hooks.outcomes(st, c)
        return l.pop() if len(l) == 1 else None
    a = c.single_atom()
    if a and a[0] == "icmp" and a[1][0] != "s" and \
       any(x[0] == "op" for x in (a[2] - a[3]).atoms()):
        if ineq.implies(st.conds, a[1], a[2], a[3]):
            return True
        if ineq.implies(st.conds, ineq.INV[a[1]], a[2], a[3]):
            return False
    return None


def paths(f, hooks=None, facts=None, exc=False, limit=4000,
          fork_select=True, merge=True):
    hooks = hooks or Hooks()
    st = State(f, hooks, facts or Facts())
    for t in hooks.nonnull:
        st.fa.nz.add(t)
    out = []
    work = Work(f)
    work.append((st, f.entry, None, 0))
    steps = 0
    while work.heap:
        for st, b, prev, pos in work.take(merge, out):
            steps += 1
            if len(out) > limit or steps > 60 * limit:
                raise TooManyPaths(f.name)
            run(f, st, b, prev, pos, hooks, exc, out, work, fork_select)
    return out


class Work:
    """States waiting for a block, in reverse post order, so that all states
    which reach a block can be merged before going on."""

    def __init__(self, f):
        self.f = f
        self.heap = []
        self.n = 0
        self.rpo = {b: k for k, b in enumerate(rpo(f))}
        self.live = None
        self.npred = {}
        for b, ss in f.succ.items():
            for x in set(ss):
                self.npred[x] = self.npred.get(x, 0) + 1

    def append(self, item):
        st, b, prev, pos = item
        heapq.heappush(self.heap, ((self.rpo.get(b, 1 << 30), -pos, self.n),
                                   item))
        self.n += 1

    def take(self, merge, out):
        key, item = heapq.heappop(self.heap)
        if item[3]:
            return [item]
        group = [item]
        while self.heap and self.heap[0][0][:2] == key[:2]:
            group.append(heapq.heappop(self.heap)[1])
        res = {}
        for st, b, prev, pos in group:
            two = skips_loop(self.f, st, b, prev)
            for x in two:
                if not enter(self.f, x, b, prev):
                    out.append(Path(x, "loop"))
                    continue
                if merge and len(group) > 1:
                    k = self.key(x, b)
                else:
                    k = len(res)
                if k in res:
                    join(res[k][0], x)
                else:
                    res[k] = (x, b, prev, -1)
        return list(res.values())

    def key(self, st, b):
        if self.live is None:
            self.live = liveness(self.f)
        lv = self.live[b]
        t = tuple((k, st.terms.get(k)) for k in lv)
        ev = tuple((e.ins.id, e.kind, tuple(e.args)) for e in st.events)
        wr = tuple((w[0], w[2], w[3], wval(w)) for w in st.writes)
        vi = tuple(sorted((h, n) for h, n in st.visited.items()
                          if b in self.f.loops[h]["blocks"]))
        kp = st.hooks.keep and frozenset(c for c in st.conds
                                         if st.hooks.keep(*c))
        return (t, ev, wr, vi, st.tracked, st.zero, kp)


def wval(w):
    if w[0] == "loop" and w[1] is None:
        return (w[4][0], tuple(sorted(w[4][1], key=repr)))
    return w[4]


def join(a, b):
    """Merges b into a: they differ in the branch outcomes only."""
    cs = set(b.conds)
    a.may |= b.may | (cs ^ set(a.conds))
    common = [c for c in a.conds if c in cs]
    ca, both = set(common), set(a.alts) & set(b.alts)
    pair = tuple((tuple(c for c in x.conds if c not in ca),
                  tuple(t for t in x.alts if t not in both)) for x in (a, b))
    a.alts = tuple(t for t in a.alts if t in both)
    if all(x != ((), ()) for x in pair):
        a.alts += (pair,)
    a.conds = common
    a.fa = Facts(a.fa.nz & b.fa.nz, a.fa.z & b.fa.z, a.fa.true & b.fa.true,
                 a.fa.false & b.fa.false)
    for k in [k for k in a.terms if a.terms[k] != b.terms.get(k)]:
        if isinstance(k, tuple):
            del a.terms[k]
    have = {(n, i.id) for n, p, i in a.reads}
    a.reads = a.reads + [r for r in b.reads if (r[0], r[2].id) not in have]


def refuted(conds, alts, test):
    """Is every history which was merged into a path refuted by a condition
    of its own? test(condition, outcome) -> refuted"""
    return any(test(c, pol) for c, pol in conds) or any(
        all(refuted(c, al, test) for c, al in pair) for pair in alts)


def rpo(f):
    seen, out = set(), []
    stack = [(f.entry, iter(f.succ[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(f.succ[x])))
                break
        else:
            out.append(b)
            stack.pop()
    return out[::-1]


def operands(i):
    out = [z["i"] for z in i.args if z["k"] == "ins"]
    if "ind" in i.d and i["ind"]["k"] == "ins":
        out.append(i["ind"]["i"])
    return out


def liveness(f):
    """Values needed on entry of every block (phis resolved)."""
    use, defs = {}, {}
    for b in f.blocks:
        u, d = [], set()
        for i in f.blocks[b]:
            if i.op != "phi":
                for z in operands(i):
                    if z not in d:
                        u.append(z)
                d.add(i.id)
        use[b], defs[b] = set(u), d
    # phis of the block itself are resolved already when the state is keyed
    change = True
    order = rpo(f)[::-1]
    lin = {b: set() for b in f.blocks}
    phid = {b: {i.id for i in f.blocks[b] if i.op == "phi"}
            for b in f.blocks}
    while change:
        change = False
        for b in order:
            o = set()
            for s in f.succ[b]:
                o |= lin[s] - phid[s]
                for i in f.blocks[s]:
                    if i.op == "phi":
                        for z, pb in zip(i.args, i["pb"]):
                            if pb == b and z["k"] == "ins":
                                o.add(z["i"])
            n = use[b] | (o - defs[b])
            if n != lin[b]:
                lin[b] = n
                change = True
    return {b: tuple(sorted(x)) for b, x in lin.items()}


def loop_effects(f, h):
    bl = f.loops[h]["blocks"]
    return [i for b in bl for i in f.blocks[b]]


def quiet(f, h):
    """Nothing but computations happen in the loop."""
    l = f.loops[h]
    if "quiet" not in l:
        l["quiet"] = not any(
            i.op in ("store", "atomicrmw", "cmpxchg", "invoke") or
            i.is_call() and not i.get("intr") and
            not i.callee.startswith(IGNORED_INTR)
            for b in l["blocks"] for i in f.blocks[b])
    return l["quiet"]


def steps(f, h):
    """Variables of a loop that change by a constant: their steps, and the
    one which counts the iterations, if any."""
    l = f.loops[h]
    if "steps" in l:
        return l["steps"]
    out, unit = {}, None
    for i in f.blocks[h]:
        if i.op != "phi":
            continue
        ds = set()
        for z, b in zip(i.args, i["pb"]):
            if b in l["blocks"]:
                ds.add(change(f, z, i.id))
        d = ds.pop() if len(ds) == 1 else None
        if d:
            out[i.id] = d
            if i["t"] != "ptr" and d in (1, -1) and \
               (unit is None or d > out[unit]):
                unit = i.id
    if unit is None:
        # the first pointer stands for a counter
        unit = next((i for i in out if f.ins[i]["t"] == "ptr"), None)
    l["steps"] = out, unit
    return out, unit


def change(f, z, phi):
    """By how much a value differs from a variable, if by a constant."""
    d = 0
    for _ in range(20):
        if z["k"] != "ins":
            return None
        if z["i"] == phi:
            return d
        I = f.ins[z["i"]]
        if I.op == "getelementptr" and "off" in I.d and not I["vars"]:
            d += I["off"]
        elif I.op in ("add", "sub"):
            c = f.val(I.args[1]).cval()
            if c is None:
                return None
            if c >= 1 << 31:
                c -= 1 << (64 if c >= 1 << 32 else 32)
            d += c if I.op == "add" else -c
        else:
            return None
        z = I.args[0]
    return None


def counted(f, st, h, i):
    """The variable as a term over the number of the iteration, if it is a
    pointer that moves in equal steps."""
    ss, unit = steps(f, h)
    t = st.terms.get(("init", i.id))
    if i["t"] != "ptr" or i.id not in ss or t is None:
        return None
    tag = () if st.visited[h] == 1 else ("end",)
    t0 = st.terms.get(("init", unit))
    if t0 is None:
        return None
    k = Poly.atom(("phi", unit) + tag)
    if f.ins[unit]["t"] != "ptr":
        k = (k - t0).scale(ss[unit])
    return t + k.scale(ss[i.id])


def recurrence(f, st, h, term):
    """Initial and next values of the variables of a loop, as far as they are
    known; `term` gives the value of an operand."""
    body = f.loops[h]["blocks"]
    ss, unit = steps(f, h)
    init, nxt = {}, {}
    for i in f.blocks[h]:
        if i.op != "phi":
            continue
        t = st.terms.get(("init", i.id))
        if i["t"] == "ptr" and i.id in ss and t is not None:
            if unit == i.id:
                init[("phi", i.id)] = Poly.const(0)
                nxt[("phi", i.id)] = Poly.atom(("phi", i.id)) + \
                    Poly.const(1)
            continue
        if t is not None:
            init[("phi", i.id)] = t
        ts = {term(z) for z, pb in zip(i.args, i["pb"]) if pb in body}
        if len(ts) == 1:
            t = ts.pop()
            if t is not None:
                nxt[("phi", i.id)] = t
    return init, nxt


def body_order(f, h):
    l = f.loops[h]
    if "order" not in l:
        l["order"] = [b for b in rpo(f) if b in l["blocks"]]
    return l["order"]


def skips_loop(f, st, b, prev):
    """States with which a block is entered: a loop in which something
    happens is either not run at all (and its variables have their initial
    values), or its body is passed once with symbolic variables."""
    if b in f.loops and prev not in f.loops[b]["blocks"] and \
       not quiet(f, b):
        z = st.copy()
        z.zero = b
        return [st, z]
    return [st]


def enter(f, st, b, prev):
    """Phi resolution and loop bookkeeping; False when the path ends."""
    hdr = b in f.loops
    if st.zero is not None:
        if b in f.loops[st.zero]["blocks"] and (
                b != st.zero or prev in f.loops[st.zero]["blocks"]):
            return False
        hdr = hdr and b != st.zero
        if b not in f.loops[st.zero]["blocks"]:
            st.zero = None
    elif prev in f.loops and b not in f.loops[prev]["blocks"] and \
            st.visited.get(prev) == 1 and not quiet(f, prev) and \
            len(f.loops[prev]["blocks"]) > 1:
        return False
    st.trail.append(b)
    if b in st.hooks.track:
        st.tracked = st.tracked | {b}
    phis = [i for i in f.blocks[b] if i.op == "phi"]
    if hdr:
        inside = prev in f.loops[b]["blocks"]
        n = st.visited.get(b, 0)
        if inside:
            if n >= 2:
                return False
            st.visited[b] = 2
            if not any(x.kind != "store" or not st.root(x.args[0])
                       for x in st.events[st.since.get(b, 0):]):
                # nothing happened: this state is among those of the first
                # visit, which stands for any iteration
                return False
        else:
            # forget earlier visits of this loop (outer loop iterates)
            st.visited[b] = 1
            st.since[b] = len(st.events)
            n = 0
        tag = (b, st.visited[b])
        if inside:
            for i, v in [(i, st.val(z)) for i in phis
                         for z, pb in zip(i.args, i["pb"]) if pb == prev]:
                st.terms[("back", i.id)] = v
        for i in phis:
            sym = Poly.atom(("phi", i.id) if st.visited[b] == 1 else
                            ("phi", i.id, "end"))
            if not inside:
                for z, pb in zip(i.args, i["pb"]):
                    if pb == prev:
                        st.terms[("init", i.id)] = st.val(z)
            st.terms[i.id] = sym
        for i in phis:
            t = counted(f, st, b, i)
            if t is not None:
                st.terms[i.id] = t
        # havoc what the loop writes
        roots = set()
        ext = set()
        for i in loop_effects(f, b):
            if i.op == "store":
                p = st.val(i.args[1])
                r = st.root(p)
                if r:
                    roots.add(r[0])
                else:
                    ext.add(p)
            elif i.is_call() and not i.callee.startswith(IGNORED_INTR):
                if i.callee.startswith(("llvm.memcpy", "llvm.memmove",
                                        "llvm.memset")):
                    zs = i.args[:1]
                elif i.get("intr"):
                    zs = []
                else:
                    zs = i.args
                for k, z in enumerate(zs):
                    try:
                        r = st.root(st.val(z))
                    except Exception:
                        r = None
                    if r and not st.hooks.readonly(st, i, None, k):
                        roots.add(r[0])
        for r in sorted(roots):
            st.writes.append(("loop", (r, 0), Poly.atom(r), None, (tag,)))
        if ext:
            st.writes.append(("loop", None, None, None, (tag, ext)))
        if quiet(f, b):
            # its body only computes: no need to walk it
            for x in body_order(f, b):
                for i in f.blocks[x]:
                    if i.op == "phi":
                        if x != b:
                            st.terms[i.id] = Poly.atom(("phi", i.id))
                    elif i.op not in ("br", "switch"):
                        if i.is_call() and \
                           i.callee.startswith(IGNORED_INTR):
                            continue
                        st.terms[i.id] = Fn._compute(st, i)
        return True
    vals = []
    for i in phis:
        v = None
        for z, pb in zip(i.args, i["pb"]):
            if pb == prev:
                v = st.val(z)
        vals.append(v if v is not None else Poly.atom(("phi", i.id)))
    for i, v in zip(phis, vals):
        st.terms[i.id] = v
    return True


def run(f, st, b, prev, pos, hooks, exc, out, work, fork_select):
    while True:
        blk = f.blocks[b]
        k = max(pos, 0)
        while k < len(blk):
            if st.dead:
                out.append(Path(st, "loop"))
                return
            I = blk[k]
            op = I.op
            if op == "phi":
                k += 1
                continue
            if op == "select" and fork_select:
                c = st.val(I.args[0])
                v = decide(st, c)
                if v is None:
                    x, y = st.val(I.args[1]), st.val(I.args[2])
                    if x == y:
                        st.terms[I.id] = x
                        k += 1
                        continue
                    if I["t"] != "i1":
                        o = st.copy()
                        o.assume(c, False)
                        o.terms[I.id] = o.val(I.args[2])
                        work.append((o, b, prev, k + 1))
                        st.assume(c, True)
                        st.terms[I.id] = st.val(I.args[1])
                        k += 1
                        continue
                else:
                    st.terms[I.id] = st.val(I.args[1] if v else I.args[2])
                    k += 1
                    continue
            if op == "store":
                p, v = st.val(I.args[1]), st.val(I.args[0])
                st.write(p, I.get("sz", 8), v)
                if st.root(p) is None or st.root(p)[0][0] != "alloca":
                    st.emit(I, "store", [p, v])
                k += 1
                continue
            if I.is_call():
                if not call(f, st, I, hooks, exc, out, work, b, prev, k):
                    return
                if op == "invoke":
                    break
                k += 1
                continue
            if op in ("br", "switch", "ret", "unreachable", "resume"):
                break
            st.terms[I.id] = Fn._compute(st, I)
            if op in ("atomicrmw", "cmpxchg", "fence"):
                args = [st.val(z) for z in I.args]
                if hooks.atomics:
                    st.terms[I.id] = hooks.value(st, I, op, args)
                st.emit(I, op, args)
            if op == "load" and I.get("ord"):
                st.emit(I, "aload", [st.val(I.args[0])])
            k += 1
        I = blk[k] if k < len(blk) else blk[-1]
        op = I.op
        if st.dead:
            out.append(Path(st, "loop"))
            return
        if op == "ret":
            st.emit(I, "ret", [st.val(z) for z in I.args])
            out.append(Path(st, "ret",
                            st.val(I.args[0]) if I.args else None))
            return
        if op == "resume":
            out.append(Path(st, "throw"))
            return
        if op == "unreachable":
            out.append(Path(st, "throw" if any(
                e.kind == "throw" for e in st.events[-3:]) else
                "unreachable"))
            return
        if op == "invoke":
            nb = I["normal"]
        elif op == "br":
            if "tb" not in I.d or I["tb"] == I["fb"]:
                nb = f.succ[b][0]
            else:
                c = st.val(I.args[0])
                v = decide(st, c)
                if v is None:
                    o = st.copy()
                    o.assume(c, False)
                    work.append((o, I["fb"], b, 0))
                    st.assume(c, True)
                    nb = I["tb"]
                else:
                    nb = I["tb"] if v else I["fb"]
        elif op == "switch":
            c = st.val(I.args[0])
            cv = c.cval()
            if cv is not None:
                nb = I["default"]
                for x, bb in I["cases"]:
                    if x == cv:
                        nb = bb
            else:
                rest = st.copy()
                for x, bb in I["cases"]:
                    q = Poly.atom(("icmp", "eq", c, Poly.const(x)))
                    if st.fa.ev(q) is False:
                        continue
                    o = st.copy()
                    o.assume(q, True)
                    work.append((o, bb, b, 0))
                    rest.assume(q, False)
                work.append((rest, I["default"], b, 0))
                return
        else:
            out.append(Path(st, "unreachable"))
            return
        work.append((st, nb, b, 0))
        return


THROWERS = ("__cxa_throw", "std::__throw_", "__cxa_rethrow")


def call(f, st, I, hooks, exc, out, work, b, prev, k):
    """Handles a call; returns False when the path ended."""
    cal = I.callee
    if cal.startswith(IGNORED_INTR):
        st.terms[I.id] = Poly.atom(("call", I.id, cal))
        return True
    if cal.startswith(("llvm.memcpy", "llvm.memmove")):
        d, s, n = (st.val(z) for z in I.args[:3])
        st.writes.append(("copy", st.root(d), d, n.cval(), s))
        e = st.emit(I, "memcpy", [d, s, n])
        return True
    if cal.startswith("llvm.memset"):
        d, v, n = (st.val(z) for z in I.args[:3])
        st.writes.append(("set", st.root(d), d, n.cval(), v))
        st.emit(I, "memset_local", [d, v, n])
        return True
    args = [st.val(z) for z in I.args]
    if I.get("intr"):
        st.terms[I.id] = Fn._compute(st, I)
        return True
    ind = st.val(I["ind"]) if "ind" in I.d else None
    if I.qn == "std::vector::_M_data_ptr":
        st.terms[I.id] = args[-1]
        return True
    kind = hooks.kind(st, I, args) or "call"
    ret = hooks.value(st, I, kind, args)
    if ret is None:
        ret = Poly.atom(("call", I.id, I.qn or cal or "indirect"))
    st.terms[I.id] = ret
    e = st.emit(I, kind, args, ret)
    e.extra = ind
    if cal.startswith(THROWERS) or I.qn.startswith(THROWERS):
        e.kind = "throw"
        if exc and hooks.cleanup and I.op == "invoke":
            work.append((st, I["unwind"], b, 0))
        else:
            out.append(Path(st, "throw"))
        return False
    # exceptional continuation
    if exc and hooks.throws(I, kind):
        if I.op == "invoke":
            o = st.copy()
            o.emit(I, "unwind", args)
            for j, p in enumerate(args):
                if o.root(p) and not hooks.readonly(o, I, kind, j):
                    o.clobber(p, (I.id, "u", j))
            work.append((o, I["unwind"], b, 0))
        else:
            o = st.copy()
            o.emit(I, "unwind", args)
            out.append(Path(o, "throw"))
    if not hooks.effect(st, I, kind, args):
        for j, p in enumerate(args):
            if st.root(p) and not hooks.readonly(st, I, kind, j) and \
               not readonly_default(st, I, j):
                st.clobber(p, (I.id, I.qn or cal, j))
    if I.qn in ("operator new", "operator new[]") or \
       I.qn.startswith("__cxa_allocate"):
        st.fa.nz.add(ret)
    return True


def readonly_default(st, I, k):
    q = I.qn
    if q.startswith(("std::unordered_map::", "std::map::", "std::set::",
                     "std::unordered_set::", "std::vector::", "std::deque::",
                     "std::list::", "std::multimap::",
                     "std::unordered_multimap::", "std::multiset::")):
        first = 1 if Fn._sret(st, I) else 0
        return k > first
    if q.startswith("std::function::operator()"):
        return True
    if q.startswith("std::_Node_handle"):
        return not q.endswith(("~_Node_handle_common", "~_Node_handle"))
    if q in ("operator delete", "operator delete[]"):
        return True
    return False
