"""Rules for the resources that watch others: debug, instrumenting, and the
memory monitor (properties M08..M11)."""
import itertools
import math
import random

from vp.q import *          # noqa
from vp.q import A, C
from vp import loops
from vp.ev import M
from vp.ir import Poly
from vp.paths import paths, Hooks, TooManyPaths
from vp.sample import Env, Run, deep
from .memory import (method, is_map_op, is_container_op, MUTATORS, MAPS,
                     cname, catches, BAD_ALLOC, thrown_type, FORWARDING,
                     path_text)

LOGIC = "_ZTISt11logic_error"
THIS, IMPL = 0x700000, 0x600000


class Joint(Run):
    """All conditions on one iteration of a loop hold in the same one."""

    def __init__(self, f, p, fixed, mem, kind=Env):
        Run.__init__(self, f, p, fixed, mem, kind)
        if not self.ok:
            return
        by = {}
        for c, pol in p.conds:
            hs = self.heads(c)
            if len(hs) == 1:
                by.setdefault(next(iter(hs)), []).append((c, pol))
        for h, cs in by.items():
            s = self.iterations(h)
            if s is None:
                continue
            for x in s:
                e = self.env.sub(x)
                if all(e.get(c) is None or bool(e.get(c) & 1) == pol
                       for c, pol in cs):
                    break
            else:
                self.ok = False
                return


def feasible(f, ps, fixed, mem):
    return [r for r in (Joint(f, p, fixed, mem) for p in ps
                        if p.end != "loop") if r.ok]


def atom(i):
    """The atom of the result of a call."""
    return ("call", i.id, i.qn or i.callee or "indirect")


def is_throw_event(e):
    return e.kind == "throw"


def thrown(e):
    a = e.args[1].single_atom() if len(e.args) > 1 else None
    return a[1] if a and a[0] == "global" else "?"


def outcome(r):
    """("ret", value) or ("throw", typeinfo or None)."""
    if r.p.end == "ret":
        t = r.p.ret
        return "ret", None if t is None else r.env.get(t)
    th = [e for e in r.p.events if e.kind == "throw"]
    if not th or th[-1].ins.callee == "__cxa_rethrow":
        return "throw", None
    return "throw", thrown(th[-1])


def describe(r):
    return r.p.text()


class Upstream(Hooks):
    """Only requests to the upstream resource may fail."""

    def throws(self, I, kind):
        return is_up_alloc(I)

    def readonly(self, st, I, kind, k):
        return is_up_alloc(I) or is_up_dealloc(I) or \
            is_container_op(I) or I.qn.startswith("std::chrono")


def all_paths(f, exc=False):
    return paths(f, hooks=Upstream(), exc=exc, merge=False, limit=30000)


def visited(f, l, env):
    """Blocks of the body of a loop that one iteration passes, in order; None
    if that is not determined."""
    b, out = l.h, []
    while True:
        out.append(b)
        if len(out) > 200:
            return None
        I = f.blocks[b][-1]
        ss = f.succ[b]
        if b in l.cond:
            v = env.get(l.cond[b]) if l.cond[b] is not None else None
            if v is None:
                return None
            nxt = I["tb"] if v & 1 else I["fb"]
        elif I.op == "invoke":
            nxt = I["normal"]
        elif len(ss) == 1:
            nxt = ss[0]
        else:
            return None
        if nxt == l.h or nxt not in l.body:
            return out
        b = nxt


def body_events(f, ps):
    """For every instruction within a loop the event in which the number of
    the iteration is left open."""
    out = {}
    for p in ps:
        for e in p.events:
            if e.loops and not e.second:
                n = sum(1 for t in e.args
                        for a in (deep(t) if isinstance(t, Poly) else ())
                        if a[0] == "phi" and len(a) == 2)
                if n > out.get(e.ins.id, (-1,))[0]:
                    out[e.ins.id] = (n, e)
    return {k: v[1] for k, v in out.items()}


def trace(r, body):
    """The events of a run in order, loops unrolled: (event, environment).
    None if not determined."""
    f = r.f
    out = []
    done = set()
    body = dict(body)
    for e in r.p.events:
        if e.loops and not e.second:
            body[e.ins.id] = e
    for e in r.p.events:
        if not e.loops:
            out.append((e, r.env))
            continue
        if len(e.loops) != 1 or e.loops[0] not in r.loops:
            return None
        h = e.loops[0]
        if not r.loops[h][0].init and \
           not any(a[0] == "phi" for x in e.args for a in deep(x)):
            # the path in which the first iteration is the last one
            out.append((e, r.env))
            continue
        if h in done:
            continue
        done.add(h)
        l, s = r.loops[h]
        if s is None:
            return None
        for x in s:
            env = r.env.sub(x)
            bs = visited(f, l, env)
            if bs is None:
                return None
            for b in bs:
                for i in f.blocks[b]:
                    if i.id in body:
                        out.append((body[i.id], env))
    return out


# ------------------------------------------------------------------ M08
def record_layout(ctx, f, ps):
    """What an allocation that succeeds records: (event, offsets of the size
    and the alignment from the key)."""
    out = set()
    evs = []
    for p in ps:
        if p.end != "ret":
            continue
        for e in p.events:
            i = e.ins
            if is_map_op(i, "emplace", "try_emplace", "insert_or_assign",
                         "emplace_hint", "insert", "operator[]"):
                evs.append((p, e))
    return evs


def recorded(p, e):
    """The words an insertion records: [key, word, word, ..]."""
    i = e.ins
    n = cname(i)
    st = p.st

    def words(a, k):
        if st.root(a) is None:
            return [a]
        return [st.read(a + C(8 * j), 8, e.path_mem) for j in range(k)]
    args = e.args[1:]
    if n == "emplace_hint":
        args = args[1:]
    if n == "operator[]":
        v = e.ret
        return words(args[0], 1) + [st.read(v + C(8 * j), 8)
                                    for j in range(2)]
    if len(args) >= 2 and n != "insert":
        return words(args[0], 1) + words(args[1], 2)
    return words(args[0], 3)


def debug_maps(f):
    return {f.val(i.args[0]) for i in f.calls() if i.qn.startswith(MAPS)}


def misuse(ctx):
    R = ctx.R
    f = method(ctx, "debug", "do_allocate")
    g = method(ctx, "debug", "do_deallocate")
    pf, pg = all_paths(f), all_paths(g)
    evs = record_layout(ctx, f, pf)
    R.need(evs, "debug: no insertion into the record of outstanding blocks")
    tree = any("unordered" not in i.qn for i in f.calls()
               if i.qn.startswith(MAPS))
    R.need(not tree, "debug: the record is not an unordered map")
    offs = None
    for p, e in evs:
        w = recorded(p, e)
        ok = len(w) >= 3 and {A(1), A(2)} <= set(w[1:3])
        up = [x for x in p.events if is_up_alloc(x.ins)]
        ok = ok and len(up) == 1 and w[0] == up[0].ret
        R.ob("records", "debug: a block is recorded with its address, size "
             "and alignment", ok, e.where(), "records %s" % (w,))
        if ok:
            offs = (16 + 8 * w[1:3].index(A(1)) - 0,
                    16 + 8 * w[1:3].index(A(2)))
    if offs is None:
        return
    misuse_allocate(R, f, pf, offs)
    misuse_deallocate(R, g, pg, offs)


def node_memory(nodes, offs, base=0x10000):
    """Memory of the nodes of a hash table: next, key, mapped value."""
    mem, addr = {}, [base + 0x100 * k for k in range(len(nodes))]
    for k, (b, s, a) in enumerate(nodes):
        mem[addr[k]] = addr[k + 1] if k + 1 < len(nodes) else 0
        mem[addr[k] + 8] = b
        mem[addr[k] + offs[0]] = s
        mem[addr[k] + offs[1]] = a
    return mem, (addr[0] if addr else 0)


def map_values(f, begin, end=0, find=None, count=None, size=None):
    fixed = {}
    for i in f.calls():
        if not i.qn.startswith(MAPS):
            continue
        n = cname(i)
        v = {"begin": begin, "cbegin": begin, "end": end, "cend": end,
             "find": find, "count": count, "contains": count, "size": size,
             "empty": None if size is None else int(size == 0)}.get(n)
        if n == "at" and find:
            v = find + 16
        if v is not None:
            fixed[atom(i)] = v
    return fixed


def misuse_allocate(R, f, ps, offs):
    ups = list(f.calls(is_up_alloc))
    size, align, P = 24, 8, 0x4000
    # where another block of 16 bytes may be
    others = [(P - 64, 16), (P - 16, 16), (P - 8, 16), (P, 16), (P + 4, 16),
              (P, 24), (P + 8, 16), (P + 16, 16), (P + 24, 16), (P + 80, 16),
              (P - 8, 64), (P - 40, 64), (P - 1, 1), (P, 1), (P + 23, 1),
              (P + 24, 1), (P - 15, 16), (P + 23, 16)]
    far = [(P + 0x800, 16), (P - 0x800, 24), (P + 0x1000, 8)]
    bad = {True: None, False: None, "rec": None}
    n = 0
    for (b, s) in others:
        over = P < b + s and b < P + size
        for k in range(4):          # number of blocks elsewhere
            for pos in range(k + 1):
                l = [x + (align,) for x in far[:k]]
                l.insert(pos, (b, s, align))
                n += 1
                check_allocate(R, f, ps, offs, ups, l, P, size, align, over,
                               bad)
    for k in range(4):
        n += 1
        check_allocate(R, f, ps, offs, ups,
                       [x + (align,) for x in far[:k]], P, size, align,
                       False, bad)
    R.count("scenarios", n)
    R.ob("overlap", "debug: a block that overlaps an outstanding one is "
         "reported by std::logic_error and not recorded", bad[True] is None,
         f.where(), bad[True] or "")
    R.ob("overlap", "debug: a block that overlaps no outstanding one is "
         "handed out", bad[False] is None, f.where(), bad[False] or "")
    R.ob("records", "debug: what is handed out is recorded exactly once",
         bad["rec"] is None, f.where(), bad["rec"] or "")


def check_allocate(R, f, ps, offs, ups, nodes, P, size, align, over, bad):
    mem, head = node_memory(nodes, offs)
    mem[THIS + 8] = IMPL
    fixed = {("arg", 0): THIS, ("arg", 1): size, ("arg", 2): align}
    for i in ups:
        fixed[atom(i)] = P
    fixed.update(map_values(f, head, size=len(nodes)))
    rs = feasible(f, ps, fixed, mem)
    where = "outstanding %s, new block [%#x, %#x)\n" % (
        ", ".join("[%#x, %#x)" % (b, b + s) for b, s, a in nodes), P,
        P + size)
    if not rs and bad[over] is None:
        bad[over] = where + "neither handed out nor rejected"
    for r in rs:
        o = outcome(r)
        rec = [e for e in r.p.events if is_map_op(e.ins, *MUTATORS)]
        if over:
            if (o[0] != "throw" or o[1] != LOGIC or rec) and bad[True] is None:
                bad[True] = where + describe(r)
        else:
            if o != ("ret", P):
                if bad[False] is None:
                    bad[False] = where + describe(r)
            elif len(rec) != 1 and bad["rec"] is None:
                bad["rec"] = where + describe(r)


def misuse_deallocate(R, g, ps, offs):
    p, size, align, node = 0x4000, 24, 8, 0x10000
    bad = {}
    keyed = [i for i in g.calls() if is_map_op(i, "find", "count", "at",
                                               "contains", "extract")]
    R.need(keyed, "debug: no look-up in the record of outstanding blocks")
    for i in keyed:
        k = g.content(i, i.args[1])
        R.ob("look-up", "debug: a released pointer is looked up in the "
             "record", k == A(1), i.where(), "looks up %r" % k)
    for case in ("right", "size", "size<", "align", "align<", "both",
                 "swapped", "unknown"):
        s, a = {"right": (size, align), "size": (size + 8, align),
                "size<": (size - 1, align), "align": (size, 2 * align),
                "align<": (size, align // 2), "both": (size * 2, 1),
                "swapped": (align, size), "unknown": (size, align)}[case]
        mem, head = node_memory([(p, s, a)], offs, node)
        mem[THIS + 8] = IMPL
        fixed = {("arg", 0): THIS, ("arg", 1): p, ("arg", 2): size,
                 ("arg", 3): align}
        known = case != "unknown"
        fixed.update(map_values(g, node, 0, node if known else 0, int(known),
                                1))
        rs = feasible(g, ps, fixed, mem)
        R.count("scenarios")
        if not rs:
            bad.setdefault(case, "no way through the function")
        for r in rs:
            o = outcome(r)
            ups = [e for e in r.p.events if is_up_dealloc(e.ins)]
            mut = [e for e in r.p.events if is_map_op(e.ins, *MUTATORS)]
            if case == "right":
                ok = o[0] == "ret" and len(ups) == 1 and \
                    [r.env.get(x) for x in ups[0].args[1:4]] == \
                    [p, size, align] and len(mut) == 1 and \
                    erases(g, r, mut[0], node)
            else:
                ok = o == ("throw", LOGIC) and not ups and not mut
            if not ok:
                bad.setdefault(case, describe(r))
    texts = {
        "right": "a block given back as it was allocated is released, and "
                 "no longer outstanding",
        "size": "a wrong size is reported by std::logic_error, and nothing "
                "is released",
        "align": "a wrong alignment is reported by std::logic_error, and "
                 "nothing is released",
        "both": "wrong sizes and alignments are reported together",
        "unknown": "an unknown pointer is reported by std::logic_error, and "
                   "nothing is released"}
    for case, t in texts.items():
        b = [bad[c] for c in (case, case + "<", {"both": "swapped"}.get(
            case, "?")) if c in bad]
        R.ob("release-check", "debug: " + t, not b, g.where(),
             b[0] if b else "")


def erases(g, r, e, node):
    if cname(e.ins) not in ("erase", "extract"):
        return False
    a = e.ins.args[2 if cname(e.ins) == "extract" and
                   e.ins["t"] == "void" else 1]
    v = r.env.get(g.val(a))
    return v == node or g.content(e.ins, a) == A(1)


# ------------------------------------------------------------------ M09
def is_hook(i):
    return i.is_call() and i.qn == "std::function::operator()"


def is_clock(i):
    return i.is_call() and i.qn.startswith("std::chrono::") and \
        i.qn.endswith("::now")


def hook_list(ctx, name):
    """Where add_.._hook() puts the hooks."""
    R = ctx.R
    l = ctx.core().fn("vecmem::instrumenting_memory_resource::" + name)
    R.need(l, "no definition of %s" % name)
    f = l[0]
    R.fn(f)
    ins = [i for i in f.calls() if i.qn.startswith("std::vector::") and
           cname(i) in ("push_back", "emplace_back", "insert", "emplace")]
    R.need(ins, "%s: no insertion into a list of hooks" % name)
    out = set()
    for i in ins:
        c = f.val(i.args[0])
        out.add(c)
        last = cname(i) in ("push_back", "emplace_back")
        src = hook_source(f, f.val(i.args[-1]))
        R.ob("registers", "%s: the hook that is given is appended to the "
             "list" % name, last and src, i.where(), "")
    p = f.path(None, is_ret, stop=lambda j: j in ins, exc=False)
    R.ob("registers", "%s: every hook is registered" % name, p is None,
         f.where(), path_text(f, p))
    q = [f.path(i, lambda j: j in ins, exc=False) for i in ins]
    R.ob("registers", "%s: a hook is registered once" % name,
         len(out) == 1 and not any(q), f.where(), "")
    c = next(iter(out))
    e = Env({("arg", 0): THIS}, {THIS + 8: IMPL})
    R.need(e.get(c) is not None, "%s: list of hooks not identified" % name)
    return e.get(c) - IMPL


def hook_source(f, t):
    """Is the function object at t the parameter, or made from it?"""
    for _ in range(6):
        if t == A(1):
            return True
        nxt = None
        for i in f.calls():
            if i.qn in ("std::function::function",
                        "std::function::operator=",
                        "std::function::swap") and f.val(i.args[0]) == t and \
                    len(i.args) > 1:
                nxt = f.val(i.args[1])
        if nxt is None:
            return False
        t = nxt
    return False


def event_layout(ctx):
    R = ctx.R
    p = ctx.unit("watch", with_core=True)
    off, typ = {}, {}
    for f in p.fns:
        if not f.qn.startswith(("vp_event_", "vp_type_")):
            continue
        R.need(len(f.rets()) == 1, f.qn)
        t = f.val(f.rets()[0].args[0])
        if f.qn.startswith("vp_type_"):
            typ[f.qn[8:]] = t.cval()
        else:
            a = t.single_atom()
            while a and a[0] == "op" and len(a) == 3:
                a = a[2].single_atom()
            R.need(a and a[0] == "load", f.qn)
            off[f.qn[9:]] = (a[1] - A(0)).cval()
    R.need(len(off) == 5 and len(typ) == 2, "memory_event: %s %s" %
           (off, typ))
    c = [f for f in p.fns if f.qn == "vp_make_event"][0]
    R.fn(c)
    ps = [x for x in all_paths(c) if x.end == "ret"]
    for k, n in enumerate(("type", "size", "align", "ptr", "time")):
        v = [x.load(A(0) + C(off[n]), 8 if k else 4) for x in ps]
        R.ob("event", "memory_event: the constructor sets the %s" % n,
             bool(v) and all(y == A(k + 1) for y in v), c.where(), "%s" % v)
    return off, typ


def appended(ctx, r, e, env, off):
    """The fields of an event that is appended to the list."""
    st = r.p.st
    n = cname(e.ins)
    if n not in ("emplace_back", "push_back"):
        return None
    a = e.args[1:]
    out = {}
    if len(a) == 5:
        for k, x in zip(("type", "size", "align", "ptr", "time"), a):
            sz = 4 if k == "type" else 8
            out[k] = env.get(st.read(x, sz, e.path_mem))
    elif len(a) == 1:
        for k, o in off.items():
            sz = 4 if k == "type" else 8
            out[k] = env.get(st.read(a[0] + C(o), sz, e.path_mem))
    else:
        return None
    return out


def events(ctx):
    R = ctx.R
    off, typ = event_layout(ctx)
    lists = {k: hook_list(ctx, "add_%s_hook" % k)
             for k in ("pre_allocate", "post_allocate", "pre_deallocate")}
    R.ob("registers", "the three kinds of hooks are kept apart",
         len(set(lists.values())) == 3, "", str(lists))
    g = ctx.core().fn("vecmem::instrumenting_memory_resource::get_events")
    R.need(g, "no definition of get_events")
    R.fn(g[0])
    rv = {Env({("arg", 0): THIS}, {THIS + 8: IMPL}).get(t)
          for t, _ in ret_sources(g[0])}
    R.need(len(rv) == 1 and None not in rv, "get_events: %s" % rv)
    log = next(iter(rv))
    f = method(ctx, "instrumenting", "do_allocate")
    d = method(ctx, "instrumenting", "do_deallocate")
    run_events(ctx, f, True, lists, log, off, typ)
    run_events(ctx, d, False, lists, log, off, typ)


def run_events(ctx, f, alloc, lists, log, off, typ):
    R = ctx.R
    name = "allocate" if alloc else "deallocate"
    ps = all_paths(f, exc=True)
    body = body_events(f, ps)
    clocks = [i for i in f.calls(is_clock)]
    R.need(not alloc or any(is_up_alloc(i) for i in f.calls()),
           "instrumenting: no request to the upstream resource")
    PTR = 0x4000
    bad = {}

    def fault(k, text):
        bad.setdefault(k, text)
    cases = []
    for n, m in itertools.product(range(4), range(4) if alloc else (0,)):
        for how in (("ok", "bad_alloc") if alloc else ("ok",)):
            cases.append((n, m, how))
    # with clocks that tick, stand still, and barely tick
    cases = [c + q for c in cases
             for q in ((24, 8, 1000003), (4096, 256, 0), (1, 1, 1))]
    for n, m, how, SIZE, ALIGN, TICK in cases:
        mem = {THIS + 8: IMPL}
        begin = {}
        for k, (key, cnt) in enumerate(
                (("pre_allocate", n if alloc else 3), ("post_allocate", m),
                 ("pre_deallocate", 3 if alloc else n))):
            b = 0x20000 + 0x1000 * k
            begin[key] = b
            mem[IMPL + lists[key]] = b
            mem[IMPL + lists[key] + 8] = b + 32 * cnt
        fixed = {("arg", 0): THIS}
        if alloc:
            fixed.update({("arg", 1): SIZE, ("arg", 2): ALIGN})
        else:
            fixed.update({("arg", 1): PTR, ("arg", 2): SIZE,
                          ("arg", 3): ALIGN})
        for i in f.calls(is_up_alloc):
            fixed[atom(i)] = PTR
        for k, i in enumerate(clocks):
            fixed[atom(i)] = TICK * (k + 1) ** 2
        for i in f.calls():
            if i.qn == "std::function::operator bool":
                fixed[atom(i)] = 1
            if i.qn in ("std::vector::begin", "std::vector::cbegin",
                        "std::vector::end", "std::vector::cend",
                        "std::vector::size", "std::vector::empty"):
                v = Env({("arg", 0): THIS}, mem).get(f.val(i.args[0]))
                if v in mem:
                    b, e = mem[v], mem[v + 8]
                    fixed[atom(i)] = {"n": b, "d": e, "e": (e - b) // 32,
                                      "y": int(b == e)}[cname(i)[-1]]
        rs = []
        for r in feasible(f, ps, fixed, mem):
            un = [e for e in r.p.events if e.kind == "unwind" and
                  is_up_alloc(e.ins)]
            if how == "ok" and un or how != "ok" and not un:
                continue
            if how == "bad_alloc" and not handles(r.p):
                continue
            rs.append(r)
        R.count("scenarios")
        if not rs:
            fault("way", "%d hooks before, %d after, %s: no way through the "
                  "function" % (n, m, how))
        for r in rs:
            t = trace(r, body)
            if t is None:
                fault("way", "the order of the events is not determined\n" +
                      describe(r))
                continue
            judge(ctx, r, t, alloc, how, n, m, begin, log, off, typ,
                  (SIZE, ALIGN, PTR), clocks, fault)
    for k, text in (
            ("way", "every request is served or fails"),
            ("pre", "all hooks to be called before a request are, once, in "
             "order, with its arguments"),
            ("post", "all hooks to be called after a request are, once, in "
             "order, with its result"),
            ("log", "exactly one event is appended to the list"),
            ("fields", "the event has the kind, size, alignment and pointer "
             "of the request"),
            ("time", "the event has the time that the request took"),
            ("end", "the request ends as the one to the upstream resource")):
        if k == "post" and not alloc:
            continue
        R.ob("events", "instrumenting: %s: %s" % (name, text), k not in bad,
             f.where(), bad.get(k, ""))


def handles(p):
    """The exception that leaves the upstream resource is a std::bad_alloc
    (or of no interest) on this path."""
    for c, pol in p.conds:
        a = c.single_atom()
        if a and a[0] == "icmp":
            t = catches(p.st.f, a)
            if t == BAD_ALLOC:
                return pol
    return True


def judge(ctx, r, t, alloc, how, n, m, begin, log, off, typ, req, clocks,
          fault):
    SIZE, ALIGN, PTR = req
    what = "%d hooks before, %d after, %s\n" % (n, m, how) + describe(r)
    up = [k for k, (e, env) in enumerate(t) if e.kind != "unwind" and
          (is_up_alloc(e.ins) if alloc else is_up_dealloc(e.ins))]
    if len(up) != 1:
        fault("end", "%d requests to the upstream resource: " % len(up) + what)
        return
    up = up[0]
    calls = []
    for k, (e, env) in enumerate(t):
        if is_hook(e.ins):
            calls.append((k, env.get(e.args[0]),
                          [env.get(x) for x in e.args[1:]]))
    pre = [c for c in calls if c[0] < up]
    post = [c for c in calls if c[0] > up]
    b = begin["pre_allocate" if alloc else "pre_deallocate"]
    want = [(b + 32 * k, [SIZE, ALIGN] if alloc else [PTR, SIZE, ALIGN])
            for k in range(n)]
    if [c[1:] for c in pre] != want:
        fault("pre", what)
    res = PTR if how == "ok" else 0
    b = begin["post_allocate"]
    want = [(b + 32 * k, [SIZE, ALIGN, res]) for k in range(m)] if alloc \
        else []
    if [c[1:] for c in post] != want:
        fault("post" if alloc else "pre", what)
    ap = [(k, e, env) for k, (e, env) in enumerate(t)
          if is_container_op(e.ins, MUTATORS) and env.get(e.args[0]) == log]
    if len(ap) != 1 or ap[0][0] < up:
        fault("log", what)
    else:
        k, e, env = ap[0]
        x = appended(ctx, r, e, env, off)
        if x is None:
            fault("log", what)
        else:
            y = dict(type=typ["allocation" if alloc else "deallocation"],
                     size=SIZE, align=ALIGN, ptr=res)
            if any(x[z] != v for z, v in y.items()):
                fault("fields", "%s\n" % x + what)
            before = [env2.get(Poly.atom(atom(e2.ins))) for j, (e2, env2) in
                      enumerate(t) if is_clock(e2.ins) and j < up]
            after = [env2.get(Poly.atom(atom(e2.ins))) for j, (e2, env2) in
                     enumerate(t) if is_clock(e2.ins) and j > up and j < k]
            if not any(x["time"] == (v - w) & M for v in after
                       for w in before):
                fault("time", "%s\n" % x + what)
    o = outcome(r)
    if alloc:
        ok = o == ("ret", PTR) if how == "ok" else \
            o[0] == "throw" and o[1] in (BAD_ALLOC, None)
    else:
        ok = o[0] == "ret"
    if not ok:
        fault("end", what)


# ------------------------------------------------------------------ M10
class FEnv(Env):
    """With floating point arithmetic."""

    def flt(self, p):
        a = p.single_atom()
        if a and a[0] == "op" and a[1] in ("uitofp", "sitofp"):
            return float(self.ev(a[2]))
        if a and a[0] == "op":
            n = a[1]
            xs = [self.flt(x) for x in a[2:]]
            if None in xs:
                return None
            if n == "fdiv":
                return xs[0] / xs[1] if xs[1] else math.nan
            if n == "fadd":
                return xs[0] + xs[1]
            if n == "fsub":
                return xs[0] - xs[1]
            if n == "fmul":
                return xs[0] * xs[1]
            if n.startswith("llvm.round.") or n == "round":
                return math.floor(xs[0] + 0.5) if xs[0] >= 0 else \
                    -math.floor(-xs[0] + 0.5)
            if n.startswith("llvm.floor."):
                return float(math.floor(xs[0]))
            if n.startswith("llvm.ceil."):
                return float(math.ceil(xs[0]))
            if n.startswith("llvm.trunc."):
                return float(math.trunc(xs[0]))
            if n.startswith(("llvm.rint.", "llvm.nearbyint.")):
                return float(round(xs[0]))
        if a and a[0] == "float":
            return float(a[1])
        return None

    def op(self, a):
        if a[1] in ("fptoui", "fptosi"):
            v = self.flt(a[2])
            if v is None or math.isnan(v):
                return self.atom_value(a, ("nan",) + a)
            return int(v) & M
        return Env.op(self, a)


def hooked(ctx):
    """The functions the monitor registers: list offset -> [(function, words
    of the closure)]."""
    R = ctx.R
    p = ctx.core()
    l = p.fn("vecmem::memory_monitor::memory_monitor")
    R.need(l, "no constructor of memory_monitor")
    out = []
    for c in l:
        R.fn(c)
        x = all_paths(c)
        R.need(len([q for q in x if q.end == "ret"]) == 1,
               "memory_monitor: more than one way through the constructor")
        x = [q for q in x if q.end == "ret"][0]
        made = {}
        reg = {}
        for e in x.events:
            i = e.ins
            if i.qn == "std::function::function" and len(e.args) == 2:
                src = e.args[1]
                if src in made:
                    made[e.args[0]] = made[src]
                else:
                    made[e.args[0]] = (i, [x.st.read(src + C(8 * k), 8,
                                                     e.path_mem)
                                           for k in range(3)])
            elif i.qn.startswith("std::vector::") and cname(i) in (
                    "push_back", "emplace_back") and e.args[-1] in made:
                o = Env({("arg", 0): THIS, ("arg", 1): 0x500000},
                        {0x500008: IMPL}).get(e.args[0])
                reg.setdefault(None if o is None else o - IMPL, []).append(
                    made[e.args[-1]])
        out.append((c, x, reg))
    return out


def closure_call(ctx, i):
    """operator() of the closure that a std::function is made from."""
    callee = i.callee
    best = None
    for f in ctx.core().fns:
        if f.qn.endswith("::operator()") and "$_" in f.name:
            t = f.qn[:-len("::operator()")]
            if t in callee:
                if best is None or len(f.qn) > len(best.qn):
                    best = f
    return best


class Machine:
    """Evaluates the effect of member functions on the object's memory."""

    def __init__(self, R):
        self.R = R
        self.ps = {}

    def call(self, f, fixed, mem):
        """(new memory, result); None if not determined."""
        if f not in self.ps:
            self.R.fn(f)
            self.ps[f] = [p for p in all_paths(f) if p.end == "ret"]
        ok = []
        for p in self.ps[f]:
            r = Joint(f, p, fixed, mem, FEnv)
            if r.ok and all(r.env.get(c) is not None for c, _ in p.conds):
                ok.append(r)
        if len(ok) != 1:
            return None
        r = ok[0]
        new = dict(mem)
        for e in r.p.events:
            if e.kind in ("call", "memcpy", "throw"):
                return None
        addrs = set()
        for w in r.p.st.writes:
            if w[0] != "val" or w[1] is not None:
                if w[1] is None:
                    return None
                continue
            addrs.add((w[2], w[3]))
        for q, sz in addrs:
            v = r.env.get(r.p.st.read(q, sz))
            a = r.env.get(q)
            if a is None or v is None:
                return None
            new[a] = v
        return new, (None if r.p.ret is None else r.env.get(r.p.ret))


def monitor(ctx):
    R = ctx.R
    lists = {k: hook_list(ctx, "add_%s_hook" % k)
             for k in ("post_allocate", "pre_deallocate", "pre_allocate")}
    getters = {}
    for n in ("total", "outstanding", "average", "maximal"):
        l = ctx.core().fn("vecmem::memory_monitor::%s_allocation" % n)
        R.need(l, "no definition of %s_allocation" % n)
        getters[n] = l[0]
    OBJ, CLO = 0x800000, 0x900000
    rng = random.Random(R.seed)
    for c, x, reg in hooked(ctx):
        post = reg.get(lists["post_allocate"], [])
        pre = reg.get(lists["pre_deallocate"], [])
        R.ob("attached", "memory_monitor: one function is called after every "
             "allocation, one before every deallocation",
             len(post) == 1 and len(pre) == 1 and len(reg) == 2, c.where(),
             "registered: %s" % {k: len(v) for k, v in reg.items()})
        if len(post) != 1 or len(pre) != 1:
            return
        fa = closure_call(ctx, post[0][0])
        fd = closure_call(ctx, pre[0][0])
        R.need(fa and fd, "memory_monitor: the registered functions were not "
               "found")
        m0 = {}
        env = Env({("arg", 0): OBJ}, {})
        for k in range(8):
            v = env.get(x.load(A(0) + C(8 * k)))
            if v is not None:
                m0[OBJ + 8 * k] = v
        for n, (i, words) in ((0, post[0]), (1, pre[0])):
            for k, w in enumerate(words):
                v = env.get(w)
                if v is not None:
                    m0[CLO + 0x100 * n + 8 * k] = v
        mc = Machine(R)
        bad = {}
        undecided = None
        hist = 60 if ctx.tier == "quick" else 400
        for _ in range(hist):
            mem = dict(m0)
            live, total, n, out, peak = [], 0, 0, 0, 0
            steps = []
            for _ in range(rng.randrange(0, 13)):
                k = rng.random()
                if live and k < 0.4:
                    p, s = live.pop(rng.randrange(len(live)))
                    out -= s
                    steps.append("-%d" % s)
                    z = mc.call(fd, {("arg", 0): CLO + 0x100, ("arg", 1): p,
                                     ("arg", 2): s, ("arg", 3): 8}, mem)
                else:
                    s = rng.choice([1, 8, 24, 100, 1000, 4096,
                                    rng.randrange(1, 100000), 1 << 33])
                    fail = k > 0.9
                    p = 0 if fail else 0x4000 + rng.randrange(1 << 20)
                    steps.append(("%d failed" if fail else "+%d") % s)
                    if not fail:
                        live.append((p, s))
                        total += s
                        out += s
                        n += 1
                        peak = max(peak, out)
                    z = mc.call(fa, {("arg", 0): CLO, ("arg", 1): s,
                                     ("arg", 2): 8, ("arg", 3): p}, mem)
                if z is None:
                    undecided = "effect of the hooks not determined"
                    break
                mem = z[0]
            R.count("histories")
            want = dict(total=total, outstanding=out, maximal=peak,
                        average=(2 * total + n) // (2 * n) if n else 0)
            for g, f in getters.items():
                z = mc.call(f, {("arg", 0): OBJ}, mem)
                if z is None or z[1] != want[g]:
                    bad.setdefault(g, "after %s: %s instead of %d" % (
                        " ".join(steps) or "nothing",
                        "not determined" if z is None or z[1] is None
                        else z[1], want[g]))
        R.need(undecided is None, "memory_monitor: %s" % undecided)
        for g, t in (("total", "the sum of all successful allocations"),
                     ("outstanding", "the sum of the blocks not yet "
                      "released"),
                     ("maximal", "the largest amount ever outstanding"),
                     ("average", "the rounded mean of the successful "
                      "allocations, zero without any")):
            R.ob("figures", "memory_monitor: %s_allocation() is %s" % (g, t),
                 g not in bad, getters[g].where(), bad.get(g, ""))


# ------------------------------------------------------------------ M11
def rollback(ctx):
    R = ctx.R
    n = 0
    for cls in FORWARDING:
        f = method(ctx, cls, "do_allocate")
        for i in f.calls(is_up_alloc):
            n += 1
            ptr = f.term(i)
            args = [f.val(a) for a in i.args[1:3]]
            try:
                ps = paths(f, hooks=Everything(), exc=True, merge=False,
                           facts=Facts(nz=[ptr, A(1)]), limit=60000)
            except TooManyPaths:
                R.need(False, "%s: too many paths" % cls)
            bad = None
            for p in ps:
                if p.end != "throw" or bad:
                    continue
                got = [k for k, e in enumerate(p.events)
                       if e.ins is i and e.kind != "unwind" and not
                       (k + 1 < len(p.events) and
                        p.events[k + 1].ins is i and
                        p.events[k + 1].kind == "unwind")]
                if not got:
                    continue
                if cls == "debug" and reports_overlap(p, got[-1]):
                    continue
                back = [e for e in p.events[got[-1] + 1:]
                        if is_up_dealloc(e.ins) and e.kind != "unwind" and
                        e.args[:4] == [p.events[got[-1]].args[0], ptr] +
                        args]
                if not back:
                    bad = p
            R.ob("rollback", "%s: memory obtained for a request that fails "
                 "is given back" % cls, bad is None, i.where(),
                 "leaves with an exception, and the block is lost\n" +
                 (bad.text() if bad else ""))
    R.need(n, "no requests to upstream resources found")


class Everything(Upstream):
    """Every call may fail that is not known not to."""

    def throws(self, I, kind):
        return I.op == "invoke" and not is_up_dealloc(I)


def reports_overlap(p, k):
    """The debug resource reports that the resource below is broken."""
    return any(e.kind == "throw" and e.ins.callee == "__cxa_throw" and
               thrown(e) == LOGIC for e in p.events[k:]) or \
        any(e.ins.is_call() and e.ins.qn.endswith("stringstream")
            for e in p.events[k:])
