"""Linear implications between path conditions (no wrap-around assumed; atoms
are unsigned)."""
from .ir import Poly
from .q import INV


def split(p):
    c = p.t.get((), 0)
    return Poly({k: v for k, v in p.t.items() if k != ()}), c


MEMO = {}


def constraints(conds):
    """List of (P, c): P <= c; from (condition, polarity) pairs."""
    out = []
    for z in conds:
        if z not in MEMO:
            if len(MEMO) > 200000:
                MEMO.clear()
            MEMO[z] = constraints1(z)
        out += MEMO[z]
    # x <= y and x != y gives x <= y - 1
    nes = [z for z in out if z[0] == "ne"]
    out = list(dict.fromkeys(z for z in out if z[0] != "ne"))
    if nes:
        have = {}
        for P, c in out:
            have.setdefault(P, set()).add(c)
        for z in dict.fromkeys(nes):
            for Q, d in z[2]:
                if -d in have.get(Q, ()):
                    out.append((Q, -d - 1))
    return out


def constraints1(cond):
    out = []

    def le(x, y, k=0):
        P, c = split(x - y)
        out.append((P, k - c))

    def one(a, pol):
        if not a:
            return
        if a[0] == "icmp":
            pr = a[1] if pol else INV[a[1]]
            x, y = a[2], a[3]
            if pr == "eq":
                le(x, y)
                le(y, x)
            elif pr == "ne":
                if y.cval() == 0:
                    le(Poly.const(0), x, -1)      # 1 <= x
                elif x.cval() == 0:
                    le(Poly.const(0), y, -1)
                else:
                    out.append(("ne", x - y, (split(x - y), split(y - x))))
            elif pr[1:] == "lt":
                le(x, y, -1)
            elif pr[1:] == "le":
                le(x, y)
            elif pr[1:] == "gt":
                le(y, x, -1)
            elif pr[1:] == "ge":
                le(y, x)
        elif a[0] == "op" and a[1] == "and" and pol:
            one(a[2].single_atom(), True)
            one(a[3].single_atom(), True)
        elif a[0] == "op" and a[1] == "or" and not pol:
            one(a[2].single_atom(), False)
            one(a[3].single_atom(), False)
        elif a[0] == "select":
            if pol and a[3].cval() == 0:
                one(a[1].single_atom(), True)
                one(a[2].single_atom(), True)
            if not pol and a[2].cval() not in (None, 0):
                one(a[1].single_atom(), False)
                one(a[3].single_atom(), False)
    one(cond[0].single_atom(), cond[1])
    return out


def atoms_nonneg(cs, goal):
    at = set()
    for P, _ in cs + [goal]:
        for k in P.t:
            if len(k) == 1:
                at.add(k[0])
            elif k:
                at.add(k)
    out = []
    for a in at:
        if isinstance(a, tuple) and a and isinstance(a[0], tuple):
            out.append((Poly({a: -1}), 0))
        else:
            out.append((Poly({(a,): -1}), 0))
            if a[0] == "op" and a[1] in ("umax", "umin"):
                for x in a[2:]:
                    P, c = split(x - Poly.atom(a)) if a[1] == "umax" else \
                        split(Poly.atom(a) - x)
                    out.append((P, -c))
            if a[0] == "op" and a[1] == "and":
                for m, y in ((a[2], a[3]), (a[3], a[2])):
                    k = m.cval()
                    if k is not None and k < 0 and (-k) & (-k - 1) == 0:
                        # y + k + 1 <= (y & k) <= y
                        P, c = split(Poly.atom(a) - y)
                        out.append((P, -c))
                        P, c = split(y - Poly.atom(a))
                        out.append((P, -k - 1 - c))
            if a[0] == "op" and a[1] == "div":
                d = a[3].cval()
                if d and d > 0:
                    # d*q <= n <= d*q + d - 1
                    P, c = split(Poly.atom(a).scale(d) - a[2])
                    out.append((P, -c))
                    P, c = split(a[2] - Poly.atom(a).scale(d))
                    out.append((P, d - 1 - c))
    return out


def implies_le(conds, x, y, extra=0, depth=4):
    """Do the conditions imply x <= y + extra ?"""
    P, c = split(x - y)
    goal = (P, extra - c)
    cs = constraints(conds)
    cs += atoms_nonneg(cs, goal)
    # constraints by what they can remove
    idx = {}
    for n, (Q, c) in enumerate(cs):
        for m, w in Q.t.items():
            idx.setdefault((m, w > 0), []).append(n)
    # search for a non-negative combination of constraints
    seen = {}
    todo = [(P, goal[1], 0)]
    while todo:
        P, k, d = todo.pop(0)
        if not P.t:
            if k >= 0:
                return True
            continue
        if d >= depth:
            continue
        if any((m, v > 0) not in idx for m, v in P.t.items()):
            continue
        lead = sorted(P.t, key=repr)
        for n in sorted({n for m in lead
                         for n in idx.get((m, P.t[m] > 0), ())}):
            Q, c = cs[n]
            # remove one monomial of P with Q
            for m in lead:
                v, w = P.t[m], Q.t.get(m, 0)
                if v * w > 0 and v % w == 0:
                    s = v // w
                    N = P - Q.scale(s)
                    kk = k - c * s
                    key = (N, kk)
                    if seen.get(key, 99) <= d + 1:
                        continue
                    seen[key] = d + 1
                    if len(seen) > 4000:
                        return False
                    todo.append((N, kk, d + 1))
                    break
    return False


def implies(conds, pred, x, y):
    if pred in ("ule", "sle"):
        return implies_le(conds, x, y)
    if pred in ("ult", "slt"):
        return implies_le(conds, x, y, -1)
    if pred in ("uge", "sge"):
        return implies_le(conds, y, x)
    if pred in ("ugt", "sgt"):
        return implies_le(conds, y, x, -1)
    if pred == "eq":
        return implies_le(conds, x, y) and implies_le(conds, y, x)
    if pred == "ne":
        return implies_le(conds, x, y, -1) or implies_le(conds, y, x, -1)
    return False


def flat(conds):
    """The comparisons (predicate, x, y) that hold, through conjunctions."""
    out = []

    def one(a, pol):
        if not a:
            return
        if a[0] == "icmp":
            out.append((a[1] if pol else INV[a[1]], a[2], a[3]))
        elif a[0] == "op" and a[1] in ("and", "or") and \
                pol == (a[1] == "and"):
            one(a[2].single_atom(), pol)
            one(a[3].single_atom(), pol)
        elif a[0] == "select":
            if pol and a[3].cval() == 0:
                one(a[1].single_atom(), True)
                one(a[2].single_atom(), True)
            if not pol and a[2].cval() not in (None, 0):
                one(a[1].single_atom(), False)
                one(a[3].single_atom(), False)
    for c, pol in conds:
        one(c.single_atom(), pol)
    return out
