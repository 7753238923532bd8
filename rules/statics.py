"""X01: static_vector."""
from vp.q import A
from vp.paths import paths
from vp import sample
from .copying import Check
from .elements import LifeHooks, life_names, MAKE
from . import access

S, O, V, B = 1 << 20, 2 << 20, 3 << 20, 4 << 20
Q = 1 << 32


class Hooks(LifeHooks, access.Nth):
    def value(self, st, I, kind, args):
        return access.Nth.value(self, st, I, kind, args)

    def readonly(self, st, I, kind, k):
        if I.qn in ("vp_see", "vp_at", "vp_num"):
            return True
        return LifeHooks.readonly(self, st, I, kind, k)


class Bad(Exception):
    pass


class Model:
    """What the bytes of element sized places hold."""

    def __init__(self, size):
        self.size = size
        self.at = {}        # address -> token
        self.dead = set()
        self.n = 0

    def put(self, a, tok):
        self.at[a] = tok

    def get(self, a):
        t = self.at.get(a)
        if t is None:
            raise Bad("uses memory without an element (%#x)" % a)
        if t in self.dead:
            raise Bad("uses an element (%s) that was destroyed" % (t,))
        return t

    def make(self, a, tok):
        t = self.at.get(a)
        if t is not None and t not in self.dead and \
           sum(x == t for x in self.at.values()) < 2:
            raise Bad("an element (%s) is overwritten, never destroyed" % (t,))
        self.at[a] = tok + (self.n,)
        self.n += 1

    def destroy(self, a):
        self.dead.add(self.get(a))

    def move(self, d, s, n):
        if n >= 1 << 30:
            raise Bad("moves %d bytes" % n)
        if n % self.size:
            raise Bad("moves parts of elements")
        ts = [self.at.get(s + i) for i in range(0, n, self.size)]
        for i, t in enumerate(ts):
            x = d + i * self.size
            old = self.at.get(x)
            if t is None:
                raise Bad("moves memory without an element (%s bytes, %s to %s)" % (n, (s - S) / 12, (d - S) / 12))
            self.at[x] = t


def executions(r):
    """(event, env) in order."""
    out = []
    evs = [e for e in r.p.events if not e.second]
    i = 0
    while i < len(evs):
        e = evs[i]
        if not e.loops:
            out.append((e, r.env))
            i += 1
            continue
        j = i
        while j < len(evs) and evs[j].loops == e.loops:
            j += 1
        rows = []
        for k in range(i, j):
            l = r.when(evs[k])
            if l is None:
                return None
            for env in l:
                rows.append((iteration(r, e, env), k, evs[k], env))
        rows.sort(key=lambda x: x[:2])
        out += [(x[2], x[3]) for x in rows]
        i = j
    return out


def iteration(r, e, env):
    h = e.loops[0]
    s = r.iterations(h)
    return next((k for k, x in enumerate(s)
                 if all(env.fixed.get(a) == v for a, v in x.items())), 0)


def simulate(ck, f, r, m, see):
    """Let the path work on the model; what it finally shows and gives."""
    ex = executions(r)
    if ex is None:
        raise Bad("what happens is not determined")
    temp = {}
    given = None
    seen = None
    for e, env in ex:
        a = []
        for t in e.args:
            root = r.p.st.root(t)
            if root and root[0][0] == "alloca":
                v = 5 << 20
                v += temp.setdefault(str(root[0]), len(temp) << 12)
            else:
                v = env.get(t)
            a.append(v)
        if e.kind in MAKE + ("destroy", "memcpy") and None in a[:3 if
           e.kind == "memcpy" else 2]:
            raise Bad("an address is not determined")
        if e.kind == "default":
            m.make(a[0], ("default",))
        elif e.kind == "argc":
            m.make(a[0], ("args",) + tuple(a[1:3]))
        elif e.kind in ("copyc", "movec"):
            m.make(a[0], ("copy", origin(m.get(a[1]))))
        elif e.kind == "destroy":
            m.destroy(a[0])
        elif e.kind == "memcpy":
            m.move(*a[:3])
        elif e.ins.is_call() and e.ins.qn == "vp_at":
            given = a[0]
        elif e.ins.is_call() and e.ins.qn == "vp_see":
            seen = a[:2]
    left = [t for x, t in m.at.items() if x >= 5 << 20 and t not in m.dead
            and not any(u == t and y < 5 << 20 for y, u in m.at.items())]
    if left:
        raise Bad("a temporary element is never destroyed")
    return given, seen


def origin(t):
    return t[1] if t[0] == "copy" else t[:-1] if t[0] == "default" else t


def vector(ctx):
    R = ctx.R
    u = ctx.unit("static", entries=["^vp_", "^sp_s_"])
    names = life_names(ctx, u)
    fn = {f.name[5:]: f for f in u.fns if f.name.startswith("vp_x_")}
    # the layout: where the size and the elements are
    def term(n):
        f = next((f for f in u.fns if f.name == "vp_layout_" + n), None)
        R.need(f, "vp_layout_%s not found" % n)
        ps = [p for p in paths(f, Hooks(names)) if p.end == "ret"]
        R.need(len(ps) == 1, "layout of static_vector")
        return ps[0].ret
    env = sample.Env({("arg", 0): S}, {})
    t = term("size").single_atom()
    R.need(t and t[0] == "load", "the size of static_vector is not loaded")
    so = env.ev(t[1]) - S
    do = env.ev(term("data")) - S
    Z = 12
    ck = Check(R, "static_vector", next(
        f for f in u.fns if f.name == "vp_layout_align"))
    PLACE = "the elements are aligned for their type"
    al = term("align").cval()
    ck(PLACE, al is not None and al % 64 == 0, None,
       "vectors of elements aligned to 64 are aligned to %s" % al)
    off = env.ev(term("place")) - S
    ck(PLACE, off % 64 == 0, None, "elements at offset %d" % off)
    ck.done([PLACE])

    def t0(k):
        return ("s", k)
    sizes = [0, 1, 2, 5, 7]

    def cases(n):
        """(arguments, size, size of the other, expected, given)"""
        old = [("s", k, 0) for k in range(8)]
        val = ("v", 0, 0)
        E0 = S + do
        for s in sizes:
            o = old[:s]
            if n in ("new",):
                if s == 0:
                    yield {}, None, [], None
            elif n == "make":
                for c in sizes:
                    if s == 0:
                        yield {1: c, 2: V}, None, [("copy", val)] * c, None
            elif n in ("make_range", "assign_range"):
                for c in sizes:
                    if n == "make_range" and s:
                        continue
                    yield ({1: B, 2: B + Z * c},
                           None if n == "make_range" else s,
                           [("copy", ("b", k, 0)) for k in range(c)], None)
            elif n in ("copy", "op"):
                for c in sizes:
                    if n == "copy" and s:
                        continue
                    yield ({1: O, "o": c}, None if n == "copy" else s,
                           [("copy", ("o", k, 0)) for k in range(c)], None)
                if n == "op":       # itself
                    yield {1: S}, s, ("self", o), None
            elif n in ("drop", "clear"):
                yield {}, s, [], None
            elif n == "assign":
                for c in sizes:
                    yield {1: c, 2: V}, s, [("copy", val)] * c, None
            elif n == "reserve":
                for c in sizes:
                    yield {1: c}, s, o, None
            elif n in ("insert", "insert_n", "insert_range", "emplace",
                       "push_back", "emplace_back", "emplace_own",
                       "emplace_back_own"):
                for i in range(s + 1):
                    if n in ("push_back", "emplace_back",
                             "emplace_back_own") and i != s:
                        continue
                    for c in (0, 1, 2, 3, 7):
                        if n not in ("insert_n", "insert_range") and c != 1:
                            continue
                        if s + c > 7:
                            continue
                        vs = [(V, val)]
                        if n in ("insert", "insert_n", "push_back",
                                 "emplace_own", "emplace_back_own"):
                            vs += [(E0 + Z * k, o[k]) for k in range(s)]
                        for va, vt in vs:
                            mid = [("copy", vt)] * c
                            if n in ("insert", "emplace_own"):
                                a = {1: i, 2: va}
                            elif n == "insert_n":
                                a = {1: i, 2: c, 3: va}
                            elif n == "insert_range":
                                a = {1: i, 2: B, 3: B + Z * c}
                                mid = [("copy", ("b", k, 0))
                                       for k in range(c)]
                            elif n in ("push_back", "emplace_back_own"):
                                a = {1: va}
                            else:
                                k = 2 if n == "emplace" else 1
                                a = {k: 77, k + 1: 1 << 40}
                                if k == 2:
                                    a[1] = i
                                mid = [("args", 77, 1 << 40)]
                            yield (a, s, o[:i] + mid + o[i:],
                                   None if n == "push_back" else E0 + Z * i)
            elif n in ("erase", "pop_back"):
                for i in range(s):
                    if n == "pop_back" and i != s - 1:
                        continue
                    yield ({1: i} if n == "erase" else {}, s,
                           o[:i] + o[i + 1:],
                           E0 + Z * i if n == "erase" else None)
            elif n == "erase_range":
                for i in range(s + 1):
                    for j in range(i, s + 1):
                        yield {1: i, 2: j}, s, o[:i] + o[j:], E0 + Z * i
            elif n in ("resize", "resize_value"):
                for c in sizes:
                    for va, vt in [(V, val)] + ([
                            (E0 + Z * k, o[k]) for k in range(min(s, c))]
                            if n == "resize_value" else []):
                        x = ("copy", vt if n == "resize_value"
                             else ("default",))
                        if n == "resize":
                            a = {1: c}
                        else:
                            a = {1: c, 2: va}
                        yield a, s, o[:c] + [x] * (c - s), None

    todo = ["new", "make", "make_range", "copy", "drop", "op", "assign",
            "assign_range", "insert", "insert_n", "insert_range", "emplace",
            "emplace_back", "emplace_own", "emplace_back_own", "push_back",
            "erase", "erase_range", "pop_back", "clear", "resize",
            "resize_value", "reserve"]
    LIFE = "elements are made and destroyed once"
    SIZE = "size and elements as meant"
    for n in todo:
        f = fn.get(n)
        R.need(f, "entry vp_x_%s not found" % n)
        R.fn(f)
        ck = Check(R, "static_vector: " + n, f)
        ps = paths(f, Hooks(names), merge=False, limit=20000)
        R.count("paths", len(ps))
        done = 0
        for a, s, want, given in cases(n):
            m = Model(Z)
            mem = {}
            if s is not None:
                mem[S + so] = s
                for k in range(s):
                    m.put(S + do + Z * k, ("s", k, 0))
            self = want and want[0] == "self"
            if self:
                want = want[1]
            m.put(V, ("v", 0, 0))
            if "o" in a:
                mem[O + so] = a["o"]
                for k in range(a["o"]):
                    m.put(O + do + Z * k, ("o", k, 0))
            for k in range(8):
                m.put(B + Z * k, ("b", k, 0))
            keep = {x: t for x, t in m.at.items() if not S <= x < O}
            fx = {("arg", 0): S}
            fx.update({("arg", k): v for k, v in a.items() if k != "o"})
            mem[1 << 40] = 1
            rs = [r for r in sample.runs(f, ps, fx, mem)]
            if not ck(SIZE, rs, None, "no way for %s" % (a,)):
                break
            done += 1
            text = "size %s, arguments %s: " % (s, show(a))
            for r in rs:
                try:
                    mm = Model(Z)
                    mm.at = dict(m.at)
                    g, seen = simulate(ck, f, r, mm, S + do)
                    ok = True
                except Bad as x:
                    ok = ck(LIFE, False, r.p, text + str(x))
                    break
                if n != "drop":
                    if not ck(SIZE, seen == [len(want), S + do], r.p,
                              text + "shows %s elements, not %d" %
                              (seen and seen[0], len(want))):
                        break
                have = [mm.at.get(S + do + Z * k) for k in range(len(want))]
                hv = [strip(t, w) for t, w in zip(have, want)]
                if self and hv != list(want):
                    want2 = [("copy", w) for w in want]
                    good = [strip(t, w) for t, w in zip(have, want2)] == \
                        want2
                else:
                    good = hv == list(want)
                if not ck(SIZE, good, r.p, text + "elements %s, not %s" %
                          (hv, list(want))):
                    break
                alive = {t for x, t in mm.at.items() if S <= x < O and
                         t not in mm.dead}
                lost = alive - set(have)
                twice = len(set(have)) < len(have)
                gone = [t for t in have if t in mm.dead]
                if not ck(LIFE, not (lost or twice or gone), r.p, text +
                          "lost: %s, destroyed: %s" % (list(lost), gone)):
                    break
                every = {("s", k, 0) for k in range(s or 0)}
                miss = every - mm.dead - set(have)
                if not ck(LIFE, not miss, r.p, text + "never destroyed: %s" %
                          list(miss)):
                    break
                if not ck(LIFE, all(mm.at.get(x) == t and t not in mm.dead
                                    for x, t in keep.items()), r.p,
                          text + "the source is changed"):
                    break
                if given is not None and not ck(
                        SIZE, g == given, r.p, text +
                        "iterator to element %s returned" %
                        ((g - S - do) / Z if g is not None else "?")):
                    break
            else:
                continue
            break
        R.count("samples", done)
        ck.done([SIZE, LIFE])
    for n in sorted(f.name[3:] for f in u.fns if f.name.startswith("vp_s_")):
        access.same(ctx, u, n, "static_vector: " + n, hooks=Hooks(names))


def strip(t, w):
    """The token without its serial number, when it has one."""
    if t is None or t[0] in "svbo":
        return t
    if t[0] == "copy":
        return t[:2] if not (t[1] and t[1][0] == "default") else \
            ("copy", ("default",))
    return t[:-1]


def show(a):
    return {k: {S: "itself", O: "other", V: "value", B: "range"}.get(v, v)
            for k, v in a.items()}
