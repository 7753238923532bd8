"""Program facts: control flow graphs, value provenance and path queries over
the canonicalised functions extracted by tool/vpx."""
import functools
import json
from collections import defaultdict

# --------------------------------------------------------------------------
# Polynomials over abstract atoms ("ideal integer" arithmetic: widenings and
# truncations are transparent).
# --------------------------------------------------------------------------


class Poly:
    __slots__ = ("t", "_h", "_r")

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}
        self._h = None
        self._r = None

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        r = defaultdict(int)
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                r[tuple(sorted(k + k2, key=repr))] += v * v2
        return Poly(r)

    def __rmul__(self, c):
        return self.scale(c)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.t.items()})

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_const(self):
        return all(k == () for k in self.t)

    def cval(self):
        return self.t.get((), 0) if self.is_const() else None

    def single_atom(self):
        if len(self.t) == 1:
            (k, v), = self.t.items()
            if v == 1 and len(k) == 1:
                return k[0]
        return None

    def atoms(self):
        s = set()
        for k in self.t:
            for a in k:
                s.add(a)
        return s

    def divexact(self, c):
        if any(v % c for v in self.t.values()):
            return None
        return Poly({k: v // c for k, v in self.t.items()})

    def subst(self, f):
        """Replace atoms: f(atom) -> Poly or None."""
        r = Poly()
        for k, v in self.t.items():
            m = Poly.const(v)
            for a in k:
                x = f(a)
                m = m * (Poly.atom(a) if x is None else x)
            r = r + m
        return r

    def __repr__(self):
        if self._r is None:
            self._r = self.text()
        return self._r

    def text(self):
        if not self.t:
            return "0"
        out = []
        for k, v in sorted(self.t.items(), key=lambda x: repr(x)):
            m = "*".join(fmt(a) for a in k)
            if k == ():
                out.append(str(v))
            elif v == 1:
                out.append(m)
            else:
                out.append("%d*%s" % (v, m))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]


def fmt(a):
    if isinstance(a, Poly):
        return repr(a)
    if isinstance(a, tuple):
        if a and a[0] == "arg":
            return "arg%d" % a[1]
        if a and a[0] == "load":
            return "[%s]" % (a[1],)
        if a and a[0] == "call":
            return "%s#%d" % (a[2].split("::")[-1], a[1])
        return "%s(%s)" % (a[0], ", ".join(fmt(x) for x in a[1:]))
    return str(a)


class Ins:
    __slots__ = ("d", "id", "op", "blk", "fn", "pos")

    def __init__(self, d, blk, fn, pos):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.blk = blk
        self.fn = fn
        self.pos = pos

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    @property
    def args(self):
        return self.d.get("args", [])

    @property
    def qn(self):
        return self.d.get("qn", "")

    @property
    def callee(self):
        return self.d.get("callee", "")

    def is_call(self):
        return self.op in ("call", "invoke")

    def loc(self):
        """Innermost location inside the repository, as (file, line, fn)."""
        l = self.d.get("loc") or []
        for e in l:
            if "/repo/" in e["f"]:
                return (e["f"], e["l"], e.get("n", "?"))
        if l:
            e = l[-1]
            return (e["f"], e["l"], e.get("n", "?"))
        return (self.fn.file, self.fn.line, self.fn.name)

    def where(self):
        f, l, n = self.loc()
        return "%s:%s (%s)" % (short(f), l, n)

    def chain(self):
        return [e.get("n", "?") for e in (self.d.get("loc") or [])]

    def __repr__(self):
        return "<%d:%s %s>" % (self.id, self.op, self.qn)


def short(f):
    import os
    f = os.path.normpath(f)
    if f.startswith("/repo/"):
        return f[6:]
    return f


IGNORED_INTR = ("llvm.dbg.", "llvm.lifetime.", "llvm.assume",
                "llvm.experimental.noalias")


CONSTS = {}     # constants with an address


def loaded(p):
    """The content of memory which is not written here."""
    a = p.single_atom()
    if a in CONSTS:
        return Poly.const(CONSTS[a])
    return Poly.atom(("load", p))


# intrinsics whose result is the address given to them
SAME = ("llvm.launder.invariant.group", "llvm.strip.invariant.group")


class Fn:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.qn = d["qn"]
        self.sym = d["sym"]
        self.file = d.get("file", "?")
        self.line = d.get("line", 0)
        self.args = d["args"]
        self.blocks = {}
        self.succ = {}
        self.pred = defaultdict(list)
        self.ins = {}
        self.loopof = {}
        for b in d["blocks"]:
            bid = b["id"]
            lst = []
            for i, x in enumerate(b["ins"]):
                I = Ins(x, bid, self, i)
                self.ins[I.id] = I
                lst.append(I)
            self.blocks[bid] = lst
            self.succ[bid] = list(dict.fromkeys(b["succ"]))
            for s in self.succ[bid]:
                self.pred[s].append(bid)
            self.loopof[bid] = b.get("loop")
        self.loops = {l["header"]: l for l in d["loops"]}
        self.entry = d["blocks"][0]["id"] if d["blocks"] else None
        self._term = {}
        self._rd = {}
        self._esc = None

    # ---------------------------------------------------------------- basics
    def all(self):
        for b in self.blocks.values():
            for i in b:
                yield i

    def calls(self, pred=None):
        for i in self.all():
            if i.is_call() and not i.callee.startswith(IGNORED_INTR):
                if pred is None or pred(i):
                    yield i

    def rets(self):
        return [i for i in self.all() if i.op == "ret"]

    def terminator(self, b):
        return self.blocks[b][-1]

    def where(self):
        return "%s:%s (%s)" % (short(self.file), self.line, self.name)

    # ------------------------------------------------------------ dominators
    @functools.cached_property
    def dom(self):
        return _dominators(self.entry, self.blocks, self.succ, self.pred)

    def dominates(self, a, b):
        """Instruction a dominates instruction b."""
        if a.blk == b.blk:
            return a.pos <= b.pos
        return a.blk in self.dom.get(b.blk, ())

    # ------------------------------------------------------- path queries
    def succ_points(self, i, exc=True, normal=True):
        """Program points (instructions) directly following instruction i."""
        blk = self.blocks[i.blk]
        if i.pos + 1 < len(blk):
            return [blk[i.pos + 1]]
        out = []
        for s in self.succ[i.blk]:
            if i.op == "invoke":
                if s == i.get("unwind") and not exc:
                    continue
                if s == i.get("normal") and not normal:
                    continue
            out.append(self.blocks[s][0])
        return out

    def reach(self, start, stop=None, exc=True, edge=None, start_exc=None,
              start_normal=True):
        """Instructions reachable after `start` (exclusive) without passing
        *through* an instruction for which stop(i) holds (those are included
        in the result but not expanded). start=None means function entry.
        edge(i, j): optional filter on CFG edges."""
        seen = set()
        work = []
        if start is None:
            work = [self.blocks[self.entry][0]]
        else:
            se = exc if start_exc is None else start_exc
            for j in self.succ_points(start, exc=se, normal=start_normal):
                if edge is None or edge(start, j):
                    work.append(j)
        while work:
            i = work.pop()
            if i.id in seen:
                continue
            seen.add(i.id)
            if stop and stop(i):
                continue
            for j in self.succ_points(i, exc=exc):
                if edge is None or edge(i, j):
                    work.append(j)
        return seen

    def path(self, start, goal, stop=None, exc=True, edge=None,
             start_exc=None, start_normal=True):
        """A shortest path (list of instructions) from start (exclusive) to an
        instruction satisfying goal, not passing through stop; or None."""
        from collections import deque
        q = deque()
        par = {}
        if start is None:
            f = self.blocks[self.entry][0]
            q.append(f)
            par[f.id] = None
        else:
            se = exc if start_exc is None else start_exc
            for j in self.succ_points(start, exc=se, normal=start_normal):
                if edge is None or edge(start, j):
                    if j.id not in par:
                        par[j.id] = None
                        q.append(j)
        while q:
            i = q.popleft()
            if stop and stop(i):
                continue
            if goal(i):
                p = []
                k = i.id
                while k is not None:
                    p.append(self.ins[k])
                    k = par[k]
                return p[::-1]
            for j in self.succ_points(i, exc=exc):
                if j.id not in par and (edge is None or edge(i, j)):
                    par[j.id] = i.id
                    q.append(j)
        return None

    # ------------------------------------------------------------- terms
    def val(self, r):
        """Polynomial term of an operand reference."""
        k = r["k"]
        if k == "arg":
            return Poly.atom(("arg", r["i"]))
        if k == "int":
            return Poly.const(r["v"])
        if k == "null":
            return Poly.const(0)
        if k == "undef":
            return Poly.atom(("undef",))
        if k == "global":
            if "cv" in r:
                CONSTS[("global", r["n"])] = r["cv"]
            return Poly.atom(("global", r["n"]))
        if k == "fn":
            return Poly.atom(("fn", r["n"]))
        if k == "cgep":
            return self.val(r["b"]) + Poly.const(r["o"])
        if k == "cexpr":
            if r["op"] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                return self.val(r["a"][0])
            if r["op"].startswith("icmp "):
                return Poly.atom(("icmp", r["op"][5:]) +
                                 tuple(self.val(x) for x in r["a"]))
            return Poly.atom(("cexpr", r["op"]) +
                             tuple(self.val(x) for x in r["a"]))
        if k == "cagg":
            return Poly.atom(("agg",) + tuple(self.val(x) for x in r["a"]))
        if k == "ins":
            return self.term(self.ins[r["i"]])
        return Poly.atom((k,))

    def term(self, I):
        t = self._term.get(I.id)
        if t is not None:
            return t
        # break cycles through phis
        self._term[I.id] = Poly.atom((I.op, I.id))
        t = self._compute(I)
        self._term[I.id] = t
        return t

    def _compute(self, I):
        op = I.op
        a = I.args
        if op == "call" and I.callee.startswith(SAME):
            return self.val(a[0])
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast",
                  "freeze", "addrspacecast"):
            if op == "trunc" and I["t"] == "i1":
                return Poly.atom(("op", "trunc1", self.val(a[0])))
            if op == "trunc" and I["t"] in ("i8", "i16"):
                m = (1 << int(I["t"][1:])) - 1
                v = self.val(a[0])
                c = v.cval()
                return Poly.const(c & m) if c is not None else \
                    Poly.atom(("op", "and", v, Poly.const(m)))
            if op == "sext" and a[0]["k"] == "ins" and \
               self.ins[a[0]["i"]]["t"] == "i1":
                return Poly.const(0) - self.val(a[0])
            return self.val(a[0])
        if op == "getelementptr":
            if "off" in I.d:
                r = self.val(a[0]) + Poly.const(I["off"])
                for v, s in I["vars"]:
                    r = r + self.val(v).scale(s)
                return r
            return Poly.atom(("gep", I.id))
        if op == "add":
            return self.val(a[0]) + self.val(a[1])
        if op == "sub":
            return self.val(a[0]) - self.val(a[1])
        if op == "mul":
            return self.val(a[0]) * self.val(a[1])
        if op == "shl":
            c = self.val(a[1]).cval()
            if c is not None and 0 <= c < 64:
                return self.val(a[0]).scale(1 << c)
            return Poly.atom(("op", "shl", self.val(a[0]), self.val(a[1])))
        if op == "or" and False:
            pass
        if op in ("udiv", "sdiv"):
            n, dd = self.val(a[0]), self.val(a[1])
            c = dd.cval()
            if c:
                e = n.divexact(c)
                if e is not None:
                    return e
            return Poly.atom(("op", "div", n, dd))
        if op in ("lshr", "ashr"):
            n, dd = self.val(a[0]), self.val(a[1])
            c = dd.cval()
            if c is not None and 0 <= c < 63:
                e = n.divexact(1 << c)
                if e is not None:
                    return e
                return Poly.atom(("op", "div", n, Poly.const(1 << c)))
            return Poly.atom(("op", op, n, dd))
        if op in ("and", "or", "xor", "urem", "srem"):
            x, y = self.val(a[0]), self.val(a[1])
            if op in ("and", "or", "xor") and repr(x) > repr(y):
                x, y = y, x
            return Poly.atom(("op", op, x, y))
        if op == "icmp":
            return Poly.atom(("icmp", I["pred"], self.val(a[0]),
                              self.val(a[1])))
        if op == "select":
            c, x, y = (self.val(z) for z in a)
            if x == y:
                return x
            return Poly.atom(("select", c, x, y))
        if op == "load":
            return self._load(I)
        if op in ("call", "invoke"):
            cal = I.callee
            if cal.startswith("llvm.umax") or cal.startswith("llvm.umin") or \
               cal.startswith("llvm.smax") or cal.startswith("llvm.smin"):
                x, y = self.val(a[0]), self.val(a[1])
                if repr(x) > repr(y):
                    x, y = y, x
                return Poly.atom(("op", cal.split(".")[1], x, y))
            if cal.startswith("llvm."):
                return Poly.atom(("op", cal) + tuple(self.val(z) for z in a))
            if I.qn == "std::vector::_M_data_ptr":
                return self.val(a[-1])
            return Poly.atom(("call", I.id, I.qn or cal or "indirect"))
        if op == "phi":
            vs = []
            for z in a:
                vs.append(self.val(z))
            me = Poly.atom(("phi", I.id))
            u = [v for v in dict.fromkeys(vs) if v != me]
            if len(u) == 1:
                return u[0]
            return me
        if op == "extractvalue":
            return Poly.atom(("ev", self.val(a[0]), tuple(I["ix"])))
        if op == "insertvalue":
            return Poly.atom(("iv", self.val(a[0]), self.val(a[1]),
                              tuple(I["ix"])))
        if op == "alloca":
            return Poly.atom(("alloca", I.id))
        if op == "atomicrmw":
            return Poly.atom(("rmw", I.id))
        if op == "cmpxchg":
            return Poly.atom(("cmpxchg", I.id))
        if op == "landingpad":
            return Poly.atom(("lp", I.id))
        return Poly.atom(("op", op) + tuple(self.val(z) for z in a))

    def base_alloca(self, p):
        """(alloca id, constant offset) if p addresses an alloca, else None."""
        al = [x for x in p.atoms() if x[0] == "alloca"]
        if len(al) != 1:
            return None
        rest = p - Poly.atom(al[0])
        c = rest.cval()
        if c is None:
            return (al[0][1], None)
        return (al[0][1], c)

    def _load(self, I):
        p = self.val(I.args[0])
        ba = self.base_alloca(p)
        if ba and ba[1] is not None:
            s = self.reaching(I, ba[0], ba[1])
            if len(s) == 1:
                return next(iter(s))
            return Poly.atom(("anyof", tuple(sorted(s, key=repr))))
        return loaded(p)

    # memory contents of stack slots --------------------------------------
    def _defs_at(self, I, al, off):
        """What instruction I writes to slot (al, off); None if nothing."""
        if I.op == "store":
            p = self.val(I.args[1])
            ba = self.base_alloca(p)
            if ba and ba[0] == al:
                if ba[1] == off:
                    return self.val(I.args[0])
                if ba[1] is None:
                    return Poly.atom(("clobber", I.id))
                if ba[1] < off < ba[1] + I["sz"]:
                    return Poly.atom(("part", self.val(I.args[0]),
                                      off - ba[1]))
            return None
        if I.is_call():
            c = I.callee
            if c.startswith(IGNORED_INTR):
                return None
            if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
                p = self.base_alloca(self.val(I.args[0]))
                if p and p[0] == al:
                    n = self.val(I.args[2]).cval()
                    if p[1] is not None and n is not None:
                        if p[1] <= off < p[1] + n:
                            src = self.val(I.args[1]) + \
                                Poly.const(off - p[1])
                            sb = self.base_alloca(src)
                            if sb and sb[1] is not None:
                                s = self.reaching(I, sb[0], sb[1])
                                if len(s) == 1:
                                    return next(iter(s))
                                return Poly.atom(
                                    ("anyof", tuple(sorted(s, key=repr))))
                            return loaded(src)
                        return None
                    return Poly.atom(("clobber", I.id))
                return None
            if c.startswith("llvm.memset"):
                p = self.base_alloca(self.val(I.args[0]))
                if p and p[0] == al:
                    n = self.val(I.args[2]).cval()
                    if p[1] is not None and n is not None and \
                       not p[1] <= off < p[1] + n:
                        return None
                    return Poly.atom(("memset", self.val(I.args[1])))
                return None
            for k, z in enumerate(I.args):
                b = self.base_alloca(self.val(z))
                if b and b[0] == al:
                    return Poly.atom(("out", I.id, I.qn or c, k,
                                      off - (b[1] or 0)))
        return None

    def reaching(self, at, al, off):
        """Set of terms possibly stored in slot (al, off) just before `at`.
        By-reference uses of the slot by opaque calls are transparent for
        callees known not to modify them (see const_ref)."""
        key = (at.id, al, off)
        if key in self._rd:
            return self._rd[key]
        self._rd[key] = {Poly.atom(("rec", al, off))}
        res = set()
        seen = set()
        work = [(at.blk, at.pos - 1)]
        while work:
            b, p = work.pop()
            blk = self.blocks[b]
            hit = False
            while p >= 0:
                I = blk[p]
                d = self._defs_at(I, al, off)
                if d is not None:
                    if not (I.is_call() and self.const_ref(I, al)):
                        res.add(d)
                        hit = True
                        break
                p -= 1
            if hit:
                continue
            if not self.pred[b]:
                res.add(Poly.atom(("uninit", al, off)))
            for q in self.pred[b]:
                if q not in seen:
                    seen.add(q)
                    work.append((q, len(self.blocks[q]) - 1))
        res.discard(Poly.atom(("rec", al, off)))
        if not res:
            res = {Poly.atom(("uninit", al, off))}
        self._rd[key] = res
        return res

    def const_ref(self, I, al):
        """Opaque callees that take keys/values by reference only to read
        them (first argument is the container itself)."""
        q = I.qn
        if q.startswith(("std::unordered_map::", "std::map::", "std::set::",
                         "std::unordered_set::", "std::vector::",
                         "std::deque::", "std::list::", "std::multimap::",
                         "std::unordered_multimap::", "std::multiset::")):
            # argument 0 (or 1 with sret) is the container
            for k, z in enumerate(I.args):
                b = self.base_alloca(self.val(z))
                if b and b[0] == al:
                    first = 1 if self._sret(I) else 0
                    return k > first
        if q.startswith(("std::function::operator()",)):
            return True
        if q.startswith("std::_Node_handle"):
            return not q.endswith(("~_Node_handle_common", "~_Node_handle"))
        if q in ("std::vector::size",):
            return True
        return False

    def _sret(self, I):
        c = I.callee
        return I["t"] == "void" and any(
            s in I.qn for s in ("::extract", "::equal_range"))

    # deref: content of pointer argument k of call I just before the call
    def content(self, I, ref_, off=0):
        p = self.val(ref_) + Poly.const(off)
        b = self.base_alloca(p)
        if b and b[1] is not None:
            s = self.reaching(I, b[0], b[1])
            if len(s) == 1:
                return next(iter(s))
            return Poly.atom(("anyof", tuple(sorted(s, key=repr))))
        return loaded(p)

    # flatten a value into its possible sources through phi/select/anyof
    def sources(self, p, depth=0):
        out = set()
        seen = set()
        work = [p]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            a = x.single_atom()
            if a is None:
                # constant offset around a phi: distribute
                ph = [z for z in x.atoms() if z[0] in ("phi", "select",
                                                       "anyof")]
                if len(ph) == 1 and x.t.get((ph[0],)) == 1 and \
                   sum(1 for k in x.t if ph[0] in k) == 1:
                    rest = x - Poly.atom(ph[0])
                    for y in self._expand(ph[0]):
                        work.append(y + rest)
                    continue
                out.add(x)
                continue
            if a[0] in ("phi", "select", "anyof"):
                work.extend(self._expand(a))
            else:
                out.add(x)
        return out

    def _expand(self, a):
        if a[0] == "phi":
            I = self.ins[a[1]]
            return [self.val(z) for z in I.args]
        if a[0] == "select":
            return [a[2], a[3]]
        if a[0] == "anyof":
            return list(a[1])
        return []

    # ------------------------------------------------------- conditions
    def edge_condition(self, b, s):
        """(icmp-like atom or None, polarity) for the edge b->s."""
        t = self.terminator(b)
        if t.op == "br" and "tb" in t.d:
            if t["tb"] == t["fb"]:
                return None
            c = self.val(t.args[0])
            return (c, s == t["tb"])
        if t.op == "switch":
            v = self.val(t.args[0])
            vals = [c for c, bb in t["cases"] if bb == s]
            if s != t["default"] and len(vals) == 1:
                return (Poly.atom(("icmp", "eq", v, Poly.const(vals[0]))),
                        True)
        return None

    def guards(self, blk):
        """Conditions (term, polarity) that hold on every path to blk: taken
        from dominating branches."""
        out = []
        for d in self.dom[blk]:
            t = self.terminator(d)
            if t.op == "br" and "tb" in t.d and t["tb"] != t["fb"]:
                for s, pol in ((t["tb"], True), (t["fb"], False)):
                    # edge d->s dominates blk
                    if s in self.dom[blk] and \
                       all(p == d or s in self.dom[p]
                           for p in self.pred[s]):
                        out.append((self.val(t.args[0]), pol, t))
        return out


def _dominators(entry, blocks, succ, pred):
    allb = set(blocks)
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(succ[b]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(entry)
    order = order[::-1]
    dom = {b: set(order) for b in order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b] if p in seen]
            n = set.intersection(*ps) if ps else set()
            n = n | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    for b in allb:
        dom.setdefault(b, {b})
    return dom


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = [Fn(f) for f in d["functions"]]
        self.opaque = d["opaque"]
        self.defs = d["defs"]
        self.by = {}
        for f in self.fns:
            self.by.setdefault(f.qn, []).append(f)

    def fn(self, qn, nargs=None):
        l = self.by.get(qn, [])
        if nargs is not None:
            l = [f for f in l if len(f.args) == nargs]
        return l

    def defined(self, qn):
        return [x for x in self.defs if x["q"] == qn]
