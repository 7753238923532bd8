"""Rules for the memory resources (properties M..)."""
from vp.q import *          # noqa
from vp.q import A, C
from vp.ir import Poly, short

NS = "vecmem::"
WRAPPERS = ["identity", "conditional", "instrumenting", "debug",
            "synchronized"]
RECORDING = ["choice", "coalescing"]
FORWARDING = WRAPPERS + RECORDING
POOLING = ["pool", "arena", "binary_page", "contiguous"]
ALL = FORWARDING + POOLING + ["host", "terminal"]

MAPS = ("std::unordered_map::", "std::map::", "std::multimap::",
        "std::unordered_multimap::")
MUTATORS = ("emplace", "insert", "erase", "extract", "push_back",
            "emplace_back", "pop_back", "clear", "resize", "assign",
            "operator[]", "try_emplace", "insert_or_assign", "swap", "merge",
            "emplace_hint", "push_front", "pop_front", "emplace_front",
            "operator=")


def method(ctx, cls, name, **kw):
    """The (unique) flattened method of a memory resource class."""
    q = "%s%s_memory_resource::%s" % (NS, cls, name)
    l = ctx.core(**kw).fn(q)
    ctx.R.need(l, "no definition of %s found" % q)
    for f in l:
        ctx.R.fn(f)
    return l[0]


def cname(i):
    return i.qn.rsplit("::", 1)[-1]


def is_container_op(i, names=None):
    if not i.is_call():
        return False
    q = i.qn
    if not q.startswith(("std::vector::", "std::map::", "std::set::",
                         "std::unordered_map::", "std::unordered_set::",
                         "std::multimap::", "std::unordered_multimap::",
                         "std::multiset::", "std::deque::", "std::list::",
                         "std::forward_list::")):
        return False
    return names is None or cname(i) in names


def sret_shift(i):
    """Index of the container operand of a container call."""
    if i["t"] == "void" and cname(i) in ("extract", "equal_range"):
        return 1
    return 0


def container(i):
    return i.fn.val(i.args[sret_shift(i)])


def operand(i, k):
    return i.args[sret_shift(i) + 1 + k]


def is_map_op(i, *names):
    return i.is_call() and i.qn.startswith(MAPS) and cname(i) in names


def lookups(f):
    """(instruction, container, key term) of every map lookup by key."""
    out = []
    for i in f.calls():
        if is_map_op(i, "find", "extract", "at", "operator[]", "erase",
                     "lower_bound"):
            k = f.content(i, operand(i, 0))
            kv = f.val(operand(i, 0))
            out.append((i, container(i), k, kv))
    return out


def handle_of(f, i):
    """The extract() call that produced the node handle operand of i."""
    b = f.base_alloca(f.val(i.args[0]))
    if not b:
        return None
    cand = [j for j in f.calls() if is_map_op(j, "extract") and
            f.base_alloca(f.val(j.args[0])) == b]
    return cand[0] if len(cand) == 1 else None


def mapped_from(f, term):
    """If `term` was read from the record of a map for key K: (map, K)."""
    a = term.single_atom()
    if not a or a[0] != "load":
        return None
    p = a[1]
    calls = [x for x in p.atoms() if x[0] == "call"]
    if len(calls) != 1:
        return None
    j = f.ins[calls[0][1]]
    if j.qn.endswith("::mapped") and j.qn.startswith("std::_Node_handle"):
        e = handle_of(f, j)
        if e is not None:
            return (container(e), f.content(e, operand(e, 0)), e)
    if is_map_op(j, "find", "at", "operator[]"):
        return (container(j), f.content(j, operand(j, 0)), j)
    return None


def key_from(f, term):
    """If `term` is the key of a record found under key K: K."""
    a = term.single_atom()
    if not a or a[0] != "load":
        return None
    p = a[1]
    calls = [x for x in p.atoms() if x[0] == "call"]
    if len(calls) != 1:
        return None
    j = f.ins[calls[0][1]]
    if j.qn.endswith("::key") and j.qn.startswith("std::_Node_handle"):
        e = handle_of(f, j)
        if e is not None:
            return f.content(e, operand(e, 0))
    if is_map_op(j, "find") and p == f.term(j) + C(8):
        return f.content(j, operand(j, 0))
    return None


def record_inserts(f):
    """(instruction, container, key term, possible mapped terms)."""
    out = []
    for i in f.calls():
        if is_map_op(i, "emplace", "try_emplace", "insert_or_assign",
                     "emplace_hint"):
            o = 1 if cname(i) == "emplace_hint" else 0
            n = len(i.args) - 1 - sret_shift(i) - o
            if n == 2:
                k = f.content(i, operand(i, o))
                v = operand(i, o + 1)
                out.append((i, container(i), k,
                            {f.val(v), f.content(i, v)}, v))
            elif n == 1:
                p = operand(i, o)
                out.append((i, container(i), f.content(i, p),
                            {f.content(i, p, 8)}, None))
        elif is_map_op(i, "insert"):
            p = operand(i, 0)
            out.append((i, container(i), f.content(i, p),
                        {f.content(i, p, 8)}, None))
        elif is_map_op(i, "operator[]"):
            k = f.content(i, operand(i, 0))
            vs = set()
            for s in f.all():
                if s.op == "store" and f.val(s.args[1]) == f.term(i):
                    vs.add(f.val(s.args[0]))
            out.append((i, container(i), k, vs, None))
    return out


def this_field(term):
    """Is the term a chain of loads rooted at `this`?"""
    t = term
    for _ in range(8):
        a = t.single_atom()
        if a and a[0] == "load":
            t = a[1]
            continue
        break
    ats = t.atoms()
    return ats == {("arg", 0)} and t.t.get((("arg", 0),)) == 1


def init_value(f, term, depth=0):
    """The value a constructor leaves in the memory location read by term
    (a chain of loads rooted at `this`)."""
    a = term.single_atom()
    if a is None or a[0] != "load" or depth > 6:
        return {term}
    p = a[1]
    # resolve loads inside the address first
    inner = [x for x in p.atoms() if x[0] == "load"]
    ps = {p}
    for x in inner:
        vs = init_value(f, Poly.atom(x), depth + 1)
        ps = {q.subst(lambda y, x=x, v=v: v if y == x else None)
              for q in ps for v in vs}
    out = set()
    for s in f.all():
        if s.op == "store" and f.val(s.args[1]) in ps:
            out.add(f.val(s.args[0]))
        if s.is_call() and s.callee.startswith(("llvm.memcpy",
                                                "llvm.memmove")):
            d = f.val(s.args[0])
            n = f.val(s.args[2]).cval()
            for q in ps:
                off = (q - d).cval()
                if off is not None and n is not None and 0 <= off < n:
                    out.add(f.content(s, s.args[1], off))
    return out or {term}


def path_text(f, path):
    out = []
    last = None
    for i in path or []:
        if i.op in ("br", "call", "invoke", "ret", "resume", "switch"):
            w = i.where()
            if i.callee.startswith(IGNORED_INTR):
                continue
            s = "%s %s%s" % (w, i.op, (" " + i.qn) if i.qn else "")
            if s != last:
                out.append(s)
            last = s
    if len(out) > 14:
        out = out[:6] + ["..."] + out[-7:]
    return "path:\n  " + "\n  ".join(out) if out else ""


def terms(ts):
    return ", ".join(sorted(repr(t) for t in ts))


# ----------------------------------------------------------------- M01
def routing(ctx):
    R = ctx.R
    for cls in FORWARDING:
        f = method(ctx, cls, "do_allocate")
        g = method(ctx, cls, "do_deallocate")
        forward_alloc(R, cls, f)
        forward_dealloc(R, cls, g)
        if cls in WRAPPERS:
            same_upstream(ctx, cls, f, g)
        else:
            recorded_upstream(R, cls, f, g)
    # the allocator class is the same kind of forwarder
    for nm, al in (("allocate_bytes", True), ("deallocate_bytes", False)):
        l = ctx.core().fn("vecmem::allocator::" + nm)
        R.need(l, "vecmem::allocator::%s not found" % nm)
        R.fn(l[0])
        (forward_alloc if al else forward_dealloc)(R, "allocator", l[0])
    fa = ctx.core().fn("vecmem::allocator::allocate_bytes")[0]
    fd = ctx.core().fn("vecmem::allocator::deallocate_bytes")[0]
    ra = {fa.val(i.args[0]) for i in fa.calls(is_up_alloc)}
    rd = {fd.val(i.args[0]) for i in fd.calls(is_up_dealloc)}
    R.ob("same-upstream", "allocator: allocation and deallocation use the "
         "same memory resource", ra == rd and len(ra) == 1 and
         this_field(next(iter(ra))), fd.where(),
         "allocate through %s, deallocate through %s" % (terms(ra),
                                                         terms(rd)))


def forward_alloc(R, cls, f):
    size, align = A(1), A(2)
    fa = Facts(nz=[size])
    ed = under(f, fa)
    ups = list(f.calls(is_up_alloc))
    R.count("upstream_call_sites", len(ups))
    R.ob("forward-alloc", "%s: a request is forwarded upstream" % cls,
         bool(ups), f.where(), "no upstream allocate() call is reachable")
    for i in ups:
        s, a = f.val(i.args[1]), f.val(i.args[2])
        R.ob("forward-alloc", "%s: size and alignment are forwarded "
             "unchanged" % cls, s == size and a == align, i.where(),
             "requested (size=%r, alignment=%r) instead of (arg1, arg2)" %
             (s, a))
    if not ups:
        return
    res = {f.term(i) for i in ups}
    src = ret_sources(f, fa)
    bad = {t for t, r in src if t not in res}
    R.ob("forward-alloc", "%s: the returned pointer is the one obtained "
         "upstream" % cls, not bad, f.where(),
         "may also return %s" % terms(bad))
    p = f.path(None, is_ret, stop=is_up_alloc, exc=True, edge=ed)
    R.ob("forward-alloc", "%s: no normal return without an upstream "
         "allocation" % cls, p is None, f.where(), path_text(f, p))
    for i in ups:
        q = f.path(i, is_up_alloc, exc=True, edge=ed, start_exc=False)
        R.ob("forward-alloc", "%s: at most one upstream block is obtained "
             "per request" % cls, q is None, i.where(),
             "after this upstream allocation succeeded another one can be "
             "made\n" + path_text(f, q))
        q = f.path(i, is_up_dealloc, exc=False, edge=ed, start_exc=False)
        if q is not None:
            # giving the block back is fine only if it is not returned
            q = f.path(q[-1], is_ret, exc=False, edge=ed)
        R.ob("forward-alloc", "%s: the block handed out is not released "
             "before returning it" % cls, q is None, i.where(),
             path_text(f, q))


def forward_dealloc(R, cls, g):
    ptr, size, align = A(1), A(2), A(3)
    fa = Facts(nz=[ptr])
    ed = under(g, fa)
    ups = list(g.calls(is_up_dealloc))
    R.count("upstream_call_sites", len(ups))
    R.ob("forward-dealloc", "%s: a deallocation is forwarded upstream" % cls,
         bool(ups), g.where(), "no upstream deallocate() call is reachable")
    for i in ups:
        p = g.val(i.args[1])
        if p != ptr:
            k = key_from(g, p)
            if k is not None:
                p = k
        s, a = g.val(i.args[2]), g.val(i.args[3])
        R.ob("forward-dealloc", "%s: pointer, size and alignment are "
             "forwarded unchanged" % cls,
             p == ptr and s == size and a == align, i.where(),
             "deallocate(%r, %r, %r) instead of (arg1, arg2, arg3)" %
             (p, s, a))
        q = g.path(i, is_up_dealloc, exc=False, edge=ed, start_exc=False)
        R.ob("forward-dealloc", "%s: a block is released only once" % cls,
             q is None, i.where(), path_text(g, q))
    if ups:
        p = g.path(None, is_ret, stop=is_up_dealloc, exc=False, edge=ed)
        R.ob("forward-dealloc", "%s: no normal return without releasing the "
             "block upstream" % cls, p is None, g.where(), path_text(g, p))


def ctors(ctx, cls, **kw):
    q = "%s%s_memory_resource::%s_memory_resource" % (NS, cls, cls)
    l = [f for f in ctx.core(**kw).fn(q)
         if len(f.args) > 1 and "memory_resource&&" not in f.name and
         "_memory_resource const&" not in f.name]
    ctx.R.need(l, "no constructor of %s found" % cls)
    return l


def same_upstream(ctx, cls, f, g):
    R = ctx.R
    ra = {f.val(i.args[0]) for i in f.calls(is_up_alloc)}
    rd = {g.val(i.args[0]) for i in g.calls(is_up_dealloc)}
    ok = ra == rd and len(ra) == 1 and this_field(next(iter(ra)))
    R.ob("same-upstream", "%s: allocation and deallocation use the same "
         "upstream resource" % cls, ok, g.where(),
         "allocate through %s, deallocate through %s" % (terms(ra),
                                                         terms(rd)))
    if not ok:
        return
    t = next(iter(ra))
    for c in ctors(ctx, cls):
        R.fn(c)
        v = init_value(c, t)
        R.ob("same-upstream", "%s: the upstream resource is the one given to "
             "the constructor" % cls, v == {A(1)}, c.where(),
             "initialised from %s" % terms(v))


def recorded_upstream(R, cls, f, g):
    ups = list(f.calls(is_up_alloc))
    ins = record_inserts(f)
    maps = set()
    for i in ups:
        ptr, res = f.term(i), f.val(i.args[0])
        good = [r for r in ins if r[2] == ptr and res in r[3]]
        maps |= {r[1] for r in good}
        gi = {r[0].id for r in good}
        p = f.path(i, is_ret, stop=lambda j: j.id in gi, exc=True,
                   start_exc=False)
        R.ob("recorded-upstream", "%s: the resource that served a request is "
             "recorded under the returned pointer" % cls, p is None,
             i.where(), "can return without recording (pointer %r -> "
             "resource %r)\n%s" % (ptr, res, path_text(f, p)))
        bad = [r for r in ins if r[2] == ptr and res not in r[3]]
        R.ob("recorded-upstream", "%s: no other resource is recorded for the "
             "pointer" % cls, not bad,
             bad[0][0].where() if bad else f.where(),
             "records %s" % terms(bad[0][3]) if bad else "")
    for i in g.calls(is_up_dealloc):
        recv = g.val(i.args[0])
        srcs = g.sources(recv)
        for s in srcs:
            m = mapped_from(g, s)
            ok = m is not None and m[1] == A(1) and m[0] in maps
            R.ob("recorded-upstream", "%s: a pointer is released through the "
                 "resource recorded for it" % cls, ok, i.where(),
                 "released through %r" % s)

    def removes(j):
        if is_map_op(j, "extract"):
            return container(j) in maps and \
                g.content(j, operand(j, 0)) == A(1)
        if is_map_op(j, "erase"):
            if container(j) not in maps:
                return False
            if g.content(j, operand(j, 0)) == A(1):
                return True
            v = g.val(operand(j, 0)).single_atom()
            if v and v[0] == "call":
                k = g.ins[v[1]]
                return is_map_op(k, "find") and \
                    g.content(k, operand(k, 0)) == A(1)
        return False
    p = g.path(None, is_ret, stop=removes, exc=False,
               edge=under(g, Facts(nz=[A(1)])))
    R.ob("recorded-upstream", "%s: the record is removed when the pointer is "
         "released" % cls, p is None, g.where(),
         "a stale record survives the deallocation\n" + path_text(g, p))


# ----------------------------------------------------------------- M02
def is_throw(i):
    return i.is_call() and i.callee in ("__cxa_throw", "__cxa_rethrow",
                                        "std::terminate", "abort") or \
        (i.is_call() and i.qn.startswith("std::__throw_"))


def is_raw_alloc(i):
    return i.is_call() and i.callee in ("aligned_alloc", "malloc",
                                        "posix_memalign", "memalign",
                                        "operator new(unsigned long)")


def is_raw_free(i):
    return i.is_call() and i.callee == "free"


def zero_null(ctx):
    R = ctx.R
    for cls in [c for c in ALL if c not in ("terminal", "synchronized")]:
        f = method(ctx, cls, "do_allocate")
        z = Facts(z=[A(1)])
        ed = under(f, z)
        src = {t for t, r in ret_sources(f, z)}
        R.ob("zero-size", "%s: allocating zero bytes yields a null pointer" %
             cls, src == {C(0)}, f.where(), "returns %s" % terms(src))

        def effect(i):
            return is_up_alloc(i) or is_throw(i) or is_raw_alloc(i) or \
                is_container_op(i, MUTATORS)
        p = f.path(None, effect, exc=False, edge=ed)
        R.ob("zero-size", "%s: allocating zero bytes makes no request and "
             "does not fail" % cls, p is None, f.where(), path_text(f, p))
        g = method(ctx, cls, "do_deallocate")
        z = Facts(z=[A(1)])

        def effect2(i):
            return is_up_dealloc(i) or is_throw(i) or is_raw_free(i) or \
                is_container_op(i, MUTATORS)
        p = g.path(None, effect2, exc=False, edge=under(g, z))
        R.ob("null-dealloc", "%s: releasing a null pointer has no effect" %
             cls, p is None, g.where(), path_text(g, p))
        p = g.path(None, is_ret, exc=False, edge=under(g, z))
        R.ob("null-dealloc", "%s: releasing a null pointer returns" % cls,
             p is not None, g.where(), "")


# ----------------------------------------------------------------- M03
BAD_ALLOC = "_ZTISt9bad_alloc"


def thrown_type(f, i):
    a = f.val(i.args[1]).single_atom()
    return a[1] if a and a[0] == "global" else "?"


def catches(f, cond_atom):
    """typeinfo name if the condition is 'caught type matches typeinfo'."""
    if cond_atom[0] != "icmp" or cond_atom[1] != "eq":
        return None
    for x, y in ((cond_atom[2], cond_atom[3]), (cond_atom[3], cond_atom[2])):
        a, b = x.single_atom(), y.single_atom()
        if a and b and a[0] == "ev" and b[0] == "op" and \
           b[1].startswith("llvm.eh.typeid.for"):
            g = b[2].single_atom()
            return g[1] if g else None
    return None


def type_conditions(f):
    out = []
    for i in f.all():
        if i.op == "br" and "tb" in i.d:
            c = f.val(i.args[0])
            a = c.single_atom()
            if a:
                t = catches(f, a)
                if t:
                    out.append((c, t))
    return out


def failure(ctx):
    R = ctx.R
    for cls in ALL:
        f = method(ctx, cls, "do_allocate")
        fa = Facts(nz=[A(1)])
        if cls == "terminal":
            R.ob("terminal", "terminal: an allocation never returns",
                 not f.rets(), f.where(), "do_allocate can return")
        else:
            R.need(f.rets(), "%s: do_allocate never returns" % cls)
            src = {t for t, r in ret_sources(f, fa)}
            R.ob("no-null", "%s: a failed request is never reported by a "
                 "null pointer" % cls, C(0) not in src, f.where(),
                 "a null pointer can be returned for a non-zero size")
        for i in f.calls():
            if i.callee == "__cxa_throw":
                t = thrown_type(f, i)
                ok = t == BAD_ALLOC or (cls == "debug" and
                                        t == "_ZTISt11logic_error")
                R.ob("throws-bad-alloc", "%s: allocation failure is signalled "
                     "by std::bad_alloc" % cls, ok, i.where(),
                     "throws %s" % t)
    # terminal
    f = method(ctx, "terminal", "do_allocate")
    th = [i for i in f.calls() if i.callee == "__cxa_throw"]
    R.ob("terminal", "terminal: an allocation throws", bool(th), f.where())
    conditional(R, method(ctx, "conditional", "do_allocate"))
    choice(R, method(ctx, "choice", "do_allocate"))
    coalescing(ctx, R, method(ctx, "coalescing", "do_allocate"))
    host_null(R, method(ctx, "host", "do_allocate"))
    swallow(R, ctx)


def fn_calls(f):
    return [i for i in f.calls() if i.qn == "std::function::operator()"]


def conditional(R, f):
    cs = [i for i in fn_calls(f)]
    R.ob("conditional", "conditional: the predicate is consulted", bool(cs),
         f.where(), "no call of the predicate")
    for c in cs:
        R.ob("conditional", "conditional: the predicate receives the size "
             "and the alignment of the request",
             this_root(f.val(c.args[0])) and f.val(c.args[1]) == A(1) and
             f.val(c.args[2]) == A(2), c.where(),
             "called with (%r, %r)" % (f.val(c.args[1]), f.val(c.args[2])))
    rt = [f.term(c) for c in cs]
    no = Facts(nz=[A(1)], z=rt, false=rt)
    yes = Facts(nz=[A(1)] + rt, true=rt)
    p = f.path(None, lambda i: is_up_alloc(i) or is_ret(i), exc=False,
               edge=under(f, no))
    R.ob("conditional", "conditional: a rejected request never reaches the "
         "upstream resource nor returns", p is None, f.where(),
         path_text(f, p))
    p = f.path(None, is_throw, exc=False, edge=under(f, yes),
               stop=is_up_alloc)
    R.ob("conditional", "conditional: an accepted request is always passed "
         "on", p is None, f.where(), path_text(f, p))
    p = f.path(None, is_up_alloc, exc=False, edge=under(f, Facts(nz=[A(1)])),
               stop=lambda i: i in cs)
    R.ob("conditional", "conditional: no request bypasses the predicate",
         p is None, f.where(), path_text(f, p))


def this_root(t):
    """The term is an address or value computed from `this` only."""
    for a in t.atoms():
        if a == ("arg", 0):
            continue
        if a[0] == "load" and this_root(a[1]):
            continue
        return False
    return bool(t.atoms())


def choice(R, f):
    cs = fn_calls(f)
    R.ob("choice", "choice: the decision function is consulted", bool(cs),
         f.where())
    for c in cs:
        R.ob("choice", "choice: the decision function receives the size and "
             "the alignment of the request",
             f.val(c.args[1]) == A(1) and f.val(c.args[2]) == A(2),
             c.where(), "called with (%r, %r)" % (f.val(c.args[1]),
                                                  f.val(c.args[2])))
    rt = {f.term(c) for c in cs}
    for i in f.calls(is_up_alloc):
        s = f.sources(f.val(i.args[0]))
        R.ob("choice", "choice: the request goes to the chosen resource",
             s <= rt and bool(s), i.where(), "goes to %s" % terms(s))


def coalescing(ctx, R, f):
    ups = list(f.calls(is_up_alloc))
    R.ob("coalescing", "coalescing: requests are passed to the upstream "
         "resources", bool(ups), f.where())
    conds = type_conditions(f)
    ba = [c for c, t in conds if t == BAD_ALLOC]
    for i in ups:
        if i.op != "invoke":
            R.ob("coalescing", "coalescing: a failing upstream resource is "
                 "handled", False, i.where(),
                 "exceptions of this upstream request are not caught")
            continue
        # other exceptions propagate
        fa = Facts(nz=[A(1)], false=ba)
        start = f.blocks[i["unwind"]][0]
        p = f.path(i, lambda j: is_up_alloc(j) or is_ret(j), exc=False,
                   edge=under(f, fa), start_exc=True, start_normal=False)
        R.ob("coalescing", "coalescing: only std::bad_alloc makes it try the "
             "next resource", p is None, i.where(), path_text(f, p))
        fa = Facts(nz=[A(1)], true=ba)
        p = f.path(i, lambda j: j.op == "resume" or is_ret(j), exc=False,
                   edge=under(f, fa), start_exc=True, start_normal=False,
                   stop=is_up_alloc)
        R.ob("coalescing", "coalescing: an upstream std::bad_alloc is "
             "absorbed while other resources remain", p is None, i.where(),
             path_text(f, p))
        p = f.path(i, is_up_alloc, exc=False, edge=under(f, fa),
                   start_exc=True, start_normal=False)
        R.ob("coalescing", "coalescing: after a failure the next resource is "
             "tried", p is not None, i.where(),
             "no further upstream request is reachable")
        # iteration order: the receiver walks the list front to back
        recv = f.val(i.args[0]).single_atom()
        ok, det = False, "receiver %r" % f.val(i.args[0])
        if recv and recv[0] == "load":
            ld = [j for j in f.all() if j.op == "load" and
                  f.term(j) == Poly.atom(recv)]
            for j in ld:
                ar = addrec(f, j["sc"])
                if ar:
                    h, st, step = ar
                    ok = ok or (this_root(st) and st.single_atom() is not None
                                and st.single_atom()[0] == "load" and
                                step == C(8) and iter_to_end(f, h, st))
                    det = "iterates from %r in steps of %r" % (st, step)
        R.ob("coalescing", "coalescing: the resources are tried in the given "
             "order, each once", ok, i.where(), det)
    c = [x for x in ctors(ctx, "coalescing")]
    R.need(c, "coalescing: no constructor")


def iter_to_end(f, header, begin):
    """The loop over [begin, end): leaves the loop (other than by success or
    exception) exactly when the iterator reaches the end field that follows
    `begin` in the vector."""
    a = begin.single_atom()
    if not a or a[0] != "load":
        return False
    end = Poly.atom(("load", a[1] + C(8)))
    lp = f.loops[header]
    found = False
    for b in lp["blocks"]:
        t = f.terminator(b)
        if t.op == "br" and "tb" in t.d:
            c = f.val(t.args[0]).single_atom()
            if c and c[0] == "icmp" and c[1] in ("eq", "ne"):
                for x, y in ((c[2], c[3]), (c[3], c[2])):
                    if y == end:
                        found = True
                    # index loops: n = (end - begin)/8
                    if y.single_atom() and "div" in repr(y) and \
                       any(z == end.single_atom() for z in deep(y)):
                        found = True
            if c and c[0] == "icmp" and c[1] in ("ult", "ugt") and \
               any(z == end.single_atom() for z in deep(f.val(t.args[0]))):
                found = True
    # guard before the loop excludes the empty list; accept either form
    return found


def deep(p, depth=0):
    out = set()
    for a in p.atoms():
        out.add(a)
        if depth < 8:
            for x in a[1:]:
                if isinstance(x, Poly):
                    out |= deep(x, depth + 1)
    return out


def host_null(R, f):
    raw = [i for i in f.calls() if is_raw_alloc(i)]
    R.ob("host", "host: memory is obtained from the C library", bool(raw),
         f.where())
    for i in raw:
        t = f.term(i)
        fa = Facts(nz=[A(1)], z=[t])
        p = f.path(i, is_ret, exc=False, edge=under(f, fa))
        R.ob("host", "host: an exhausted heap is reported by an exception",
             p is None, i.where(), path_text(f, p))
        p = f.path(i, is_throw, exc=False,
                   edge=under(f, Facts(nz=[A(1), t])))
        R.ob("host", "host: a successful allocation is not reported as a "
             "failure", p is None, i.where(), path_text(f, p))


def swallow(R, ctx):
    """No resource turns an upstream failure into a normal return."""
    for cls in FORWARDING + POOLING:
        f = method(ctx, cls, "do_allocate")
        for i in f.calls(is_up_alloc):
            if i.op != "invoke":
                continue
            if cls == "coalescing":
                continue
            p = f.path(i, is_ret, exc=False, start_exc=True,
                       start_normal=False,
                       edge=under(f, Facts(nz=[A(1)])))
            if p is not None and cls == "instrumenting":
                # the caught failure is re-raised: checked by the provenance
                # of the returned pointer (no-null) above
                continue
            R.ob("propagate", "%s: an upstream failure is not swallowed" %
                 cls, p is None, i.where(), path_text(f, p))


# ----------------------------------------------------------------- M06
def synchronised(ctx):
    R = ctx.R
    muts = set()
    for nm in ("do_allocate", "do_deallocate"):
        f = method(ctx, "synchronized", nm)
        locks = [i for i in f.calls() if is_lock(i)]
        ups = [i for i in f.calls() if is_up_alloc(i) or is_up_dealloc(i)]
        R.count("upstream_call_sites", len(ups))
        R.count("lock_sites", len(locks))
        R.ob("lock", "%s: the upstream resource is used" % nm, bool(ups),
             f.where())
        ms = {f.val(i.args[0]) for i in locks}
        muts |= ms
        R.ob("lock", "%s: one mutex of the object is used" % nm,
             len(ms) == 1 and all(own_member(m) for m in ms), f.where(),
             "mutexes %s" % terms(ms))
        for u in ups:
            p = f.path(None, lambda i, u=u: i is u, stop=is_lock, exc=True)
            R.ob("lock", "%s: the upstream resource is only used with the "
                 "mutex held" % nm, p is None, u.where(), path_text(f, p))
            for un in f.calls(is_unlock):
                q = f.path(un, lambda i, u=u: i is u, stop=is_lock, exc=True)
                R.ob("lock", "%s: the upstream resource is not used after "
                     "the mutex was released" % nm, q is None, u.where(),
                     path_text(f, q))
        for l in locks:
            p = f.path(l, lambda i: is_ret(i) or i.op == "resume",
                       stop=is_unlock, exc=True, start_exc=False,
                       edge=None)
            R.ob("unlock", "%s: the mutex is released on every normal and "
                 "exceptional exit" % nm, p is None, l.where(),
                 path_text(f, p))
            # calls that may throw out of the function with the mutex held
            q = f.path(l, lambda i: i.op == "call" and may_throw(i) and
                       not is_unlock(i) and not is_terminating(i),
                       stop=is_unlock, exc=True, start_exc=False)
            R.ob("unlock", "%s: no exception can leave with the mutex held" %
                 nm, q is None, l.where(), path_text(f, q))
            q = f.path(l, lambda i: is_lock(i) and
                       f.val(i.args[0]) == f.val(l.args[0]),
                       stop=is_unlock, exc=True, start_exc=False)
            R.ob("lock", "%s: the mutex is not locked twice" % nm, q is None,
                 l.where(), path_text(f, q))
    R.ob("lock", "allocation and deallocation use the same mutex",
         len(muts) == 1, "core/src/memory/synchronized_memory_resource.cpp",
         "mutexes %s" % terms(muts))


LOCKS = ("std::mutex::lock", "std::recursive_mutex::lock",
         "std::timed_mutex::lock", "std::shared_mutex::lock",
         "pthread_mutex_lock", "pthread_rwlock_wrlock")
UNLOCKS = ("std::mutex::unlock", "std::recursive_mutex::unlock",
           "std::timed_mutex::unlock", "std::shared_mutex::unlock",
           "pthread_mutex_unlock", "pthread_rwlock_unlock")


def is_lock(i):
    return i.is_call() and i.qn in LOCKS


def is_unlock(i):
    return i.is_call() and i.qn in UNLOCKS


def is_terminating(i):
    return i.callee in ("std::terminate()", "__clang_call_terminate",
                        "__cxa_begin_catch", "std::terminate")


def own_member(t):
    """Address of a member of the object itself (this + constant)."""
    return t.atoms() == {("arg", 0)} and t.t.get((("arg", 0),)) == 1
