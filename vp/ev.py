"""Random interpretation of terms (Gulwani & Necula): two terms are taken for
equal when they agree under many assignments of 64-bit values to their
uninterpreted atoms."""
import hashlib
import random

from .ir import Poly

M = (1 << 64) - 1


def signed(x):
    return x - (1 << 64) if x >> 63 else x


class Env:
    def __init__(self, seed, fixed=None, small=False):
        self.seed = seed
        self.fixed = fixed or {}
        self.small = small
        self.memo = {}

    def atom_value(self, a, key):
        h = hashlib.blake2b(repr((self.seed, key)).encode(),
                            digest_size=16).digest()
        r = random.Random(h)
        k = r.randrange(8)
        if self.small or k < 3:
            return r.randrange(1 << 12)
        if k < 5:
            return (1 << r.randrange(48)) + r.randrange(3) - 1
        return r.getrandbits(40)

    def ev(self, p):
        s = 0
        for mono, c in p.t.items():
            v = c
            for a in mono:
                v *= self.at(a)
            s += v
        return s & M

    def at(self, a):
        if a in self.memo:
            return self.memo[a]
        v = self._at(a) & M
        self.memo[a] = v
        return v

    def _at(self, a):
        if a in self.fixed:
            x = self.fixed[a]
            return self.ev(x) if isinstance(x, Poly) else x
        k = a[0]
        if k == "op":
            return self.op(a)
        if k == "icmp":
            x, y = self.ev(a[2]), self.ev(a[3])
            return int(cmp(a[1], x, y))
        if k == "select":
            return self.ev(a[2]) if self.ev(a[1]) & 1 else self.ev(a[3])
        if k == "load":
            # memory is a function of the address
            return self.atom_value(a, ("load", self.ev(a[1])))
        # uninterpreted: children by value
        key = [k]
        for x in a[1:]:
            key.append(self.ev(x) if isinstance(x, Poly) else x)
        return self.atom_value(a, tuple(key))

    def op(self, a):
        n = a[1]
        if n == "trunc1":
            return self.ev(a[2]) & 1
        xs = [self.ev(x) for x in a[2:]]
        if n == "and":
            return xs[0] & xs[1]
        if n == "or":
            return xs[0] | xs[1]
        if n == "xor":
            return xs[0] ^ xs[1]
        if n == "shl":
            return xs[0] << xs[1] if xs[1] < 64 else 0
        if n == "lshr":
            return xs[0] >> xs[1] if xs[1] < 64 else 0
        if n == "ashr":
            return signed(xs[0]) >> min(xs[1], 63)
        if n == "div":
            x, y = (signed(z) if z >> 40 == (1 << 24) - 1 else z
                    for z in xs)        # small negative numbers
            if not y:
                return 0
            return (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) & M
        if n in ("urem", "srem"):
            return xs[0] % xs[1] if xs[1] else 0
        if n == "umax":
            return max(xs)
        if n == "umin":
            return min(xs)
        if n == "smax":
            return max(xs, key=signed)
        if n == "smin":
            return min(xs, key=signed)
        if n.startswith("llvm.ctlz"):
            return 64 - xs[0].bit_length()
        if n.startswith("llvm.cttz"):
            return (xs[0] & -xs[0]).bit_length() - 1 if xs[0] else 64
        if n.startswith("llvm.ctpop"):
            return bin(xs[0]).count("1")
        if n.startswith("llvm.usub.sat"):
            return max(xs[0] - xs[1], 0)
        if n.startswith("llvm.abs"):
            return abs(signed(xs[0]))
        key = (n,) + tuple(xs)
        return self.atom_value(a, key)


def cmp(pred, x, y):
    if pred[0] == "s":
        x, y = signed(x), signed(y)
    return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y,
            "le": x <= y, "ge": x >= y}[pred if len(pred) == 2 and
                                        pred in ("eq", "ne") else pred[1:]]


def equal(p, q, fixed=None, n=64, when=None):
    """p == q for all assignments (satisfying `when`)."""
    if p == q:
        return True
    hit = 0
    for s in range(n * (8 if when else 1)):
        e = Env(s, fixed)
        if when and not all(when_ok(e, c) for c in when):
            continue
        hit += 1
        if e.ev(p) != e.ev(q):
            return False
    return hit > 4


def when_ok(e, c):
    t, pol = c
    return bool(e.ev(t) & 1) == pol


def holds(pred, p, q, fixed=None, n=256, when=None, envs=None):
    """p `pred` q under all sampled assignments; (ok, counterexample)."""
    hit = 0
    for s in (envs if envs is not None else range(n)):
        e = s if isinstance(s, Env) else Env(s, fixed)
        if when and not all(when_ok(e, c) for c in when):
            continue
        hit += 1
        if not cmp(pred, e.ev(p), e.ev(q)):
            return False, e
    return hit > 4, None
