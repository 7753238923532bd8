"""Queries over canonical functions shared by the rules."""
from .ir import Poly, Ins, Fn, IGNORED_INTR

UP_ALLOC = "std::pmr::memory_resource::allocate"
UP_DEALLOC = "std::pmr::memory_resource::deallocate"
UP_EQUAL = "std::pmr::memory_resource::is_equal"


def A(i):
    return Poly.atom(("arg", i))


def C(v):
    return Poly.const(v)


def is_up_alloc(i):
    return i.is_call() and i.qn == UP_ALLOC


def is_up_dealloc(i):
    return i.is_call() and i.qn == UP_DEALLOC


def load(p):
    return Poly.atom(("load", p))


def call_result(i):
    return i.fn.term(i)


# ----------------------------------------------------------------- logic
INV = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule",
       "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "uge": "ule",
        "ule": "uge", "slt": "sgt", "sgt": "slt", "sge": "sle", "sle": "sge"}


class Facts:
    """A set of assumptions: terms known zero / non-zero, conditions known
    true / false."""

    def __init__(self, nz=(), z=(), true=(), false=()):
        self.nz = set(nz)
        self.z = set(z)
        self.true = set(true)
        self.false = set(false)

    def ev(self, p, sub=None, depth=0):
        """Truth value of an i1 term: True / False / None."""
        if sub:
            p = substitute(p, sub)
        c = p.cval()
        if c is not None:
            return c != 0
        if p in self.true:
            return True
        if p in self.false:
            return False
        a = p.single_atom()
        if a is None:
            # "not x" is x ^ -1; 1 - x
            return None
        if a[0] == "icmp":
            return self.cmp(a[1], a[2], a[3])
        if a[0] == "select" and depth < 12:
            c = self.ev(a[1], None, depth + 1)
            if c is True:
                return self.ev(a[2], None, depth + 1)
            if c is False:
                return self.ev(a[3], None, depth + 1)
            x = self.ev(a[2], None, depth + 1)
            y = self.ev(a[3], None, depth + 1)
            return x if x == y else None
        if a[0] == "op" and depth < 12 and a[1] in ("and", "or", "xor"):
            x = self.ev(a[2], None, depth + 1)
            y = self.ev(a[3], None, depth + 1)
            if a[1] == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if a[1] == "or":
                if x or y:
                    return True
                return False if x is False and y is False else None
            if x is None or y is None:
                return None
            return x != y
        return None

    def cmp(self, pred, x, y):
        d = x - y
        dc = d.cval()
        if dc is not None:
            # same symbolic part: decide equality; order only for constants
            if pred == "eq":
                return dc == 0
            if pred == "ne":
                return dc != 0
            if dc == 0:
                return pred in ("ule", "uge", "sle", "sge")
            if x.is_const() and y.is_const():
                a, b = x.cval(), y.cval()
                if pred[0] == "u":
                    a &= (1 << 64) - 1
                    b &= (1 << 64) - 1
                return {"lt": a < b, "gt": a > b, "le": a <= b,
                        "ge": a >= b}[pred[1:]]
            return None
        for u, v, pr in ((x, y, pred), (y, x, SWAP[pred])):
            if v.cval() == 0:
                nz = self.nonzero(u)
                z = u in self.z
                if pr == "eq":
                    if nz:
                        return False
                    if z:
                        return True
                if pr == "ne":
                    if nz:
                        return True
                    if z:
                        return False
                if pr == "ugt":
                    if nz:
                        return True
                    if z:
                        return False
                if pr == "ule":
                    if nz:
                        return False
                    if z:
                        return True
            if v.cval() == 1:
                if pr == "ult":
                    if self.nonzero(u):
                        return False
                    if u in self.z:
                        return True
                if pr == "uge":
                    if self.nonzero(u):
                        return True
                    if u in self.z:
                        return False
        i = Poly.atom(("icmp", pred, x, y))
        if i in self.true:
            return True
        if i in self.false:
            return False
        for eq in (("icmp", SWAP[pred], y, x),):
            e = Poly.atom(eq)
            if e in self.true:
                return True
            if e in self.false:
                return False
        for n in (("icmp", INV[pred], x, y), ("icmp", SWAP[INV[pred]], y, x)):
            e = Poly.atom(n)
            if e in self.true:
                return False
            if e in self.false:
                return True
        return None

    def nonzero(self, u):
        if u in self.nz:
            return True
        a = u.single_atom()
        if a and a[0] in ("alloca", "global", "fn"):
            return True
        if a and a[0] == "op" and a[1] == "umax":
            return any(self.nonzero(x) for x in a[2:])
        return False


def substitute(p, sub):
    """Replace atoms (deeply) using the mapping sub: atom -> Poly."""
    memo = {}

    def at(a):
        if a in memo:
            return memo[a]
        if a in sub:
            r = sub[a]
        elif isinstance(a, tuple):
            ch = False
            o = []
            for x in a:
                if isinstance(x, Poly):
                    y = x.subst(at)
                    ch = ch or y != x
                    o.append(y)
                elif isinstance(x, tuple) and x and isinstance(x[0], Poly):
                    y = tuple(z.subst(at) for z in x)
                    ch = ch or y != x
                    o.append(y)
                else:
                    o.append(x)
            r = Poly.atom(tuple(o)) if ch else None
            if ch and o[0] == "select":
                pass
        else:
            r = None
        memo[a] = r
        return r
    return p.subst(at)


def under(f, facts):
    """CFG edge filter: keeps the edges feasible under the facts."""
    memo = {}

    def edge(i, j):
        if i.op not in ("br", "switch") or i.blk == j.blk and False:
            return True
        if i.op == "br":
            if "tb" not in i.d or i["tb"] == i["fb"]:
                return True
            k = i.id
            if k not in memo:
                memo[k] = facts.ev(f.val(i.args[0]))
            v = memo[k]
            if v is None:
                return True
            return j.blk == (i["tb"] if v else i["fb"])
        return True
    return edge


def edge_and(*es):
    es = [e for e in es if e]

    def edge(i, j):
        return all(e(i, j) for e in es)
    return edge


def is_ret(i):
    return i.op == "ret"


def may_throw(i):
    """May instruction i leave the function by an exception directly?"""
    if i.op == "resume":
        return True
    if i.op == "call" and not i.get("nounwind") and not i.get("intr"):
        return not i.callee.startswith(IGNORED_INTR)
    return False


def guards_of(f, blk):
    return [(c, pol) for c, pol, t in f.guards(blk)]


def ret_sources(f, facts=None):
    """All feasible origins of the returned value: list of (term, ret ins,
    blocks chosen)."""
    out = []
    for r in f.rets():
        if r.args:
            out += [(t, r) for t in feasible_sources(f, r.args[0], r, facts)]
    return out


def feasible_sources(f, ref, at, facts=None):
    facts = facts or Facts()
    res = []

    def rec(p, blk, sub, extra, depth):
        a = p.single_atom()
        if depth < 12 and a is not None:
            if a[0] == "phi" and a not in sub:
                I = f.ins[a[1]]
                for z, b in zip(I.args, I["pb"]):
                    v = f.val(z)
                    if v == p:
                        continue
                    s2 = dict(sub)
                    s2[a] = v
                    ec = f.edge_condition(b, I.blk)
                    ex = extra + ([ec] if ec else [])
                    # conditions that dominate the incoming edge
                    rec(v, b, s2, ex + guards_of(f, b), depth + 1)
                return
            if a[0] == "anyof" and a not in sub:
                for v in a[1]:
                    s2 = dict(sub)
                    s2[a] = v
                    rec(v, blk, s2, extra, depth + 1)
                return
            if a[0] == "select" and a not in sub:
                for v, pol in ((a[2], True), (a[3], False)):
                    s2 = dict(sub)
                    s2[a] = v
                    rec(v, blk, s2, extra + [(a[1], pol)], depth + 1)
                return
        # feasibility
        fa = Facts(facts.nz, facts.z, facts.true, facts.false)
        for c, pol in extra:
            if pol:
                fa.true.add(c)
            else:
                fa.false.add(c)
            learn(fa, c, pol)
        for c, pol in extra:
            # skip the tautology c in true: evaluate with base facts only
            v = facts.ev(c, sub)
            if v is not None and v != pol:
                return
            v = base_ev(fa, c, pol, sub)
            if v is not None and v != pol:
                return
        res.append((p, tuple(extra), dict(sub)))

    rec(f.val(ref), at.blk, {}, guards_of(f, at.blk), 0)
    seen = {}
    for p, ex, sub in res:
        seen.setdefault(p, []).append(ex)
    return list(seen)


def base_ev(fa, c, pol, sub):
    c2 = substitute(c, sub) if sub else c
    f2 = Facts(fa.nz, fa.z, fa.true - {c, c2}, fa.false - {c, c2})
    return f2.ev(c2)


def learn(fa, c, pol):
    """Derive zero / non-zero facts from a condition."""
    a = c.single_atom()
    if not a:
        return
    if a[0] == "icmp":
        pred, x, y = a[1], a[2], a[3]
        for u, v, pr in ((x, y, pred), (y, x, SWAP[pred])):
            if v.cval() == 0:
                eff = pr if pol else INV[pr]
                if eff == "eq" or eff == "ule":
                    fa.z.add(u)
                elif eff in ("ne", "ugt", "sgt", "slt"):
                    fa.nz.add(u)
    elif a[0] == "select":
        # select(c, x, 0) true -> c and x ; select(c, -1/1, y) false -> !c, !y
        if pol and a[3].cval() == 0:
            fa.true |= {a[1], a[2]}
            learn(fa, a[1], True)
            learn(fa, a[2], True)
        if not pol and a[2].cval() not in (None, 0):
            fa.false |= {a[1], a[3]}
            learn(fa, a[1], False)
            learn(fa, a[3], False)


# ------------------------------------------------------------- SCEV terms
def scev(f, s):
    if s is None:
        return None
    k = s[0]
    if k == "int":
        return Poly.const(s[1])
    if k in ("zext", "sext", "trunc", "p2i"):
        return scev(f, s[1])
    if k == "add":
        r = Poly()
        for x in s[1:]:
            y = scev(f, x)
            if y is None:
                return None
            r = r + y
        return r
    if k == "mul":
        r = Poly.const(1)
        for x in s[1:]:
            y = scev(f, x)
            if y is None:
                return None
            r = r * y
        return r
    if k == "udiv":
        a, b = scev(f, s[1]), scev(f, s[2])
        if a is None or b is None:
            return None
        c = b.cval()
        if c:
            e = a.divexact(c)
            if e is not None:
                return e
        return Poly.atom(("op", "div", a, b))
    if k in ("umax", "umin", "smax", "smin"):
        xs = [scev(f, x) for x in s[1:]]
        if any(x is None for x in xs):
            return None
        xs = sorted(set(xs), key=repr)
        if len(xs) == 1:
            return xs[0]
        return Poly.atom(("op", k) + tuple(xs))
    if k == "rec":
        st = [scev(f, x) for x in s[2:]]
        if any(x is None for x in st):
            return None
        return Poly.atom(("rec", s[1]) + tuple(st))
    if k == "unk":
        return f.val(s[1])
    return None


def addrec(f, s):
    """(header, start, step) if the SCEV is affine in one loop."""
    p = scev(f, s)
    if p is None:
        return None
    rs = [a for a in p.atoms() if a[0] == "rec"]
    if len(rs) != 1 or len(rs[0]) != 4:
        return None
    a = rs[0]
    rest = p - Poly.atom(a).scale(p.t.get((a,), 0))
    if any(a in k for k in rest.t):
        return None
    c = p.t.get((a,), 0)
    return (a[1], a[2].scale(c) + rest, a[3].scale(c))
