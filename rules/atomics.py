"""Rules for atomic references (property P01)."""
import os
import random

from vp.build import VERIF
from vp.q import *          # noqa
from vp.q import A, C
from vp.ev import Env as Base
from vp.ir import Poly
from vp.paths import paths, Hooks
from vp.sample import Unknown

STUB = ["-I" + os.path.join(VERIF, "units", "stub")]
KINDS = {
    # name: (flags, atomic, orders)
    "device_atomic_ref (C++17)": (["-DV_SELECTED"], True, True),
    "device_atomic_ref (C++20)": (["-DV_SELECTED", "-std=c++20"], True, True),
    "posix_device_atomic_ref": (["-DV_POSIX"], True, True),
    "cuda::device_atomic_ref": (["-DV_CUDA"], True, False),
    "dummy_device_atomic_ref": (["-DV_DUMMY"], False, False),
    "sycl::custom_device_atomic_ref": (["-DV_SYCL"] + STUB, True, False),
    "sycl::custom_device_atomic_ref (local)": (
        ["-DV_SYCL_LOCAL"] + STUB, True, False),
    "atomic (SYCL)": (["-DV_ATOMIC_SYCL"] + STUB, True, False),
    "atomic (host)": (["-DV_ATOMIC"], False, False),
    "atomic (CUDA)": (["-DV_ATOMIC_CUDA"], True, False),
}
OPS = {"store": lambda o, v: v, "exchange": lambda o, v: v,
       "assign": lambda o, v: v,
       "add": lambda o, v: o + v, "copied": lambda o, v: o + v,
       "sub": lambda o, v: o - v, "and": lambda o, v: o & v,
       "or": lambda o, v: o | v, "xor": lambda o, v: o ^ v,
       "load": lambda o, v: o}
RMW = {"xchg": lambda o, v: v, "add": lambda o, v: o + v,
       "sub": lambda o, v: o - v, "and": lambda o, v: o & v,
       "or": lambda o, v: o | v, "xor": lambda o, v: o ^ v,
       "nand": lambda o, v: ~(o & v)}
LEVEL = {"monotonic": set(), "acquire": {"a"}, "release": {"r"},
         "acq_rel": {"a", "r"}, "seq_cst": {"a", "r", "s"}}
ASKED = {"relaxed": set(), "acquire": {"a"}, "release": {"r"},
         "acqrel": {"a", "r"}, "seqcst": {"a", "r", "s"}}


class Env(Base):
    """Loops (of retries) are followed in their first iteration."""
    path = None

    def atom_value(self, a, key):
        if a[0] == "phi" and len(a) == 2 and \
           ("init", a[1]) in self.path.st.terms:
            return self.ev(self.path.st.terms[("init", a[1])])
        raise Unknown(str(a))


def new(p, fixed):
    e = Env(1, fixed)
    e.path = p
    return e


class H(Hooks):
    def readonly(self, st, I, kind, k):
        return False


def accesses(p):
    """Accesses to the referenced object in order: (kind, item)."""
    out = []
    for n, q, I in p.st.reads:
        if q == A(0) and not I.get("ord"):
            out.append((n, 0, "load", I))
    for k, e in enumerate(p.events):
        if e.kind in ("store", "atomicrmw", "cmpxchg", "aload"):
            if A(0) in (e.args[0],) or (e.kind != "store" and
                                        ("arg", 0) in e.args[0].atoms()):
                out.append((k, 1, e.kind, e))
            elif ("arg", 0) in e.args[0].atoms():
                out.append((k, 1, "?", e))
        elif e.kind in ("call", "memcpy", "memset_local"):
            if any(isinstance(x, Poly) and ("arg", 0) in x.atoms()
                   for x in e.args):
                out.append((k, 1, "?", e))
    return sorted(out, key=lambda x: x[:2])


def simulate(p, acc, w, old, v, exp):
    """(taken, value afterwards, result, *expected afterwards)."""
    m = (1 << w) - 1
    fixed = {("arg", 1): v & m, ("load", A(2)): exp & m,
             ("load", A(0)): old & m}
    cur, steps = old & m, 0
    env = new(p, fixed)
    try:
        for _, _, kind, e in acc:
            if kind == "load":
                t = p.st.terms.get(e.id)
                a = t.single_atom() if t is not None else None
                if a and a not in fixed:
                    fixed[a] = cur
                env = new(p, fixed)
            elif kind == "aload":
                t = p.st.terms.get(e.ins.id)
                fixed[t.single_atom()] = cur
                env = new(p, fixed)
            elif kind == "store":
                cur = env.ev(e.args[1]) & m
            elif kind == "atomicrmw":
                fixed[("rmw", e.ins.id)] = cur
                env = new(p, fixed)
                cur = RMW[e.ins["rmw"]](cur, env.ev(e.args[1])) & m
            elif kind == "cmpxchg":
                x = Poly.atom(("cmpxchg", e.ins.id))
                fixed[("ev", x, (0,))] = cur
                want = env.ev(e.args[1]) & m
                fixed[("ev", x, (1,))] = int(cur == want)
                env = new(p, fixed)
                if cur == want:
                    cur = env.ev(e.args[2]) & m
            else:
                return None
        taken = all(bool(env.ev(c) & 1) == pol for c, pol in p.conds)
        if not taken:
            return False, 0, 0, 0
        ret = None if p.ret is None else env.ev(p.ret) & m
        after = env.ev(p.st.read(A(2), w // 8)) & m
        return True, cur, ret, after
    except (Unknown, KeyError):
        return None


def references(ctx):
    R = ctx.R
    rng = random.Random(R.seed)
    for kind, (flags, atomic, orders) in KINDS.items():
        p = ctx.unit("atomics", extra=flags)
        fs = [f for f in p.fns if f.qn.startswith("vp_")]
        R.need(len(fs) >= 27, "%s: only %d operations" % (kind, len(fs)))
        bad = {}
        n = 0
        for f in fs:
            one(R, rng, f, kind, atomic, orders, bad)
            n += 1
        R.count("operations", n)
        for rule, text in (
                ("value", "every operation leaves the documented value and "
                 "gives the documented result"),
                ("expected", "compare_exchange_strong exchanges exactly if "
                 "the values are equal, and reports the value it saw"),
                ("step", "every operation is one indivisible access"),
                ("order", "every operation has at least the memory order "
                 "asked for"),
                ("fence", "stores come after, and loads before, everything "
                 "they have to be ordered with")):
            if rule == "step" and not atomic or rule == "order" and \
               not orders or rule == "fence" and "(CUDA)" not in kind and \
               "cuda" not in kind:
                continue
            R.ob(rule, "%s: %s" % (kind, text), rule not in bad,
                 *bad.get(rule, ("", "")))


def one(R, rng, f, kind, atomic, orders, bad):
    R.fn(f)
    name = f.qn[3:]
    body, typ = name.rsplit("_", 1)
    parts = body.rstrip("_").split("_")
    op = parts[0]
    ords = [x for x in parts[1:] if x]
    w = 32 if "32" in typ else 64

    def fault(rule, text):
        bad.setdefault(rule, (f.where(), "%s<%s>: %s" % (op, typ, text)))
    ps = [p for p in paths(f, hooks=H(), merge=False)]
    if any(p.end not in ("ret",) for p in ps) or not ps:
        # atomics implemented with loops: followed for one round only
        ps = [p for p in ps if p.end == "ret"]
        if not ps:
            fault("value", "does not return")
            return
    acc = [accesses(p) for p in ps]
    vals = [0, 1, 2, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1,
            rng.getrandbits(w), rng.getrandbits(w), 0x55, 0xf0f0]
    rule = "expected" if op == "cas" else "value"
    for old in vals:
        for v in vals:
            for exp in ([old, v, old ^ 1, rng.getrandbits(w)]
                        if op == "cas" else [7]):
                rs = [simulate(p, a, w, old, v, exp)
                      for p, a in zip(ps, acc)]
                if None in rs:
                    fault(rule, "effect not determined")
                    return
                rs = [r for r in rs if r[0]]
                if op == "cas":
                    same = old == exp
                    want = (v if same else old, int(same), old)
                else:
                    want = (OPS[op](old, v) & ((1 << w) - 1),
                            None if op == "store" else v if op == "assign"
                            else old, 7)
                if not rs or any(r[1:] != want for r in rs):
                    fault(rule, "object %#x, argument %#x, expected %#x: "
                          "%s instead of (object, result, expected) %s" % (
                              old, v, exp, [r[1:] for r in rs], want))
                    return
    for p, a in zip(ps, acc):
        if atomic:
            ok = len(a) == 1
            k = a[0][2] if ok else "?"
            plain = "cuda" in kind.lower()
            if ok and op == "load":
                ok = k == "aload" or plain and k == "load"
            elif ok and op in ("store", "assign"):
                ok = k == "store" and (plain or a[0][3].ins.get("ord")) or \
                    k == "atomicrmw"
            elif ok:
                ok = k == ("cmpxchg" if op == "cas" else "atomicrmw") and \
                    not a[0][3].ins.get("weak")
            if not ok:
                fault("step", "accesses: %s" % [x[2] for x in a])
                continue
        if orders and len(a) == 1:
            e = a[0][3]
            I = e if a[0][2] == "load" else e.ins
            s = ASKED[ords[0]] if ords else ASKED["seqcst"]
            if op == "load":
                s = s - {"r"}
            if op in ("store", "assign"):
                s = s - {"a"}
            has = LEVEL.get(I.get("ord"), None)
            if has is None or not s <= has:
                fault("order", "%s asked for, but the access is %s" %
                      (ords[:1] or "seq_cst", I.get("ord")))
            if op == "cas":
                fl = ASKED[ords[1]] if len(ords) > 1 else s - {"r"}
                has = LEVEL.get(I.get("ford"), None)
                if has is None or not fl <= has:
                    fault("order", "%s asked for on failure, but the access "
                          "is %s" % (ords or "seq_cst", I.get("ford")))
        if "cuda" in kind.lower() and op in ("load", "store") and \
           len(a) == 1:
            fences = [k for k, e in enumerate(p.events) if e.kind == "fence"]
            at = a[0][0]
            if op == "store" and not any(k < at for k in fences) or \
               op == "load" and not any(k >= at for k in fences):
                fault("fence", "no fence")
