"""Rules for the resources, copies, streams and events of vecmem::cuda and
vecmem::hip (properties K01, K02, K03): the functions of the runtime are given
their documented meaning, and what each path makes of them is worked out."""
from vp.q import *          # noqa
from vp.q import A, C
from vp.ev import Env as Base
from vp.ir import Poly
from vp.paths import paths, Hooks
from vp import loops
from vp.sample import Unknown
from vp.build import gpu

CURRENT = 5                 # the device selected beforehand
KINDS = {"host_to_device": 1, "device_to_host": 2, "host_to_host": 0,
         "device_to_device": 3, "unknown": 4}
ANY = 4
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
MEMORY = {"device": ("Malloc", "Free"), "managed": ("MallocManaged", "Free"),
          "host": ("MallocHost", "FreeHost")}
ALIAS = {"HostAlloc": "MallocHost", "HostMalloc": "MallocHost",
         "HostFree": "FreeHost", "StreamCreateWithFlags": "StreamCreate",
         "EventCreateWithFlags": "EventCreate"}
SILENT = {"GetErrorString", "GetErrorName", "GetDeviceProperties",
          "GetLastError", "PeekAtLastError", "GetDeviceCount"}
NOTED = {"Malloc", "MallocManaged", "MallocHost", "Free", "FreeHost",
         "Memcpy", "MemcpyAsync", "Memset", "MemsetAsync", "StreamCreate",
         "StreamDestroy", "StreamSynchronize", "EventCreate", "EventRecord",
         "EventSynchronize", "EventDestroy", "EventQuery",
         "DeviceSynchronize"}
WRITES = ("Malloc", "MallocManaged", "MallocHost", "StreamCreate",
          "EventCreate", "GetDevice")


def runtime(qn):
    """Name of a function of the runtime, without its prefix."""
    for x in ("cuda", "hip"):
        if qn.startswith(x) and qn[len(x):len(x) + 1].isupper():
            n = qn[len(x):].split("(")[0]
            return ALIAS.get(n, n)
    return None


class H(Hooks):
    cleanup = True

    def effect(self, st, I, kind, args):
        n = runtime(I.qn)
        if n in WRITES:
            st.write(args[0], 4 if n == "GetDevice" else 8,
                     Poly.atom(("made", I.id)))
        return n is not None and n != "GetDeviceProperties"


class Env(Base):
    """Results and outputs of the runtime as simulated; one thread."""

    def atom_value(self, a, key):
        if a[0] == "made" and a[1] in self.outs:
            return self.outs[a[1]]
        if a[0] == "call" and a[2] in ("operator new",
                                       "__cxa_allocate_exception"):
            return 0x70000000 + 0x1000 * self.number.setdefault(
                a, len(self.number))
        if a[0] == "alloca":
            return 0x7f0000000000 + 0x1000 * self.number.setdefault(
                a, len(self.number))
        if a[0] == "global":
            return 0x500000 + 0x100 * self.number.setdefault(
                a, len(self.number))
        if a[0] == "load":
            g = a[1].single_atom()
            if g and g[0] == "global" and "single_threaded" in str(g[1]):
                return 1
        raise Unknown(str(a))


class Run:
    """A path with given arguments, when the call number `fail` of the
    runtime (and no other) fails."""

    hooks = H
    name = staticmethod(runtime)
    asks = ()                   # calls with results that do not change

    def __init__(self, p, args, fail=None):
        self.prepare()
        self.env = e = Env(1, {("arg", i): v & M64
                               for i, v in enumerate(args)})
        e.outs, e.number = {}, {}
        self.log = []
        self.device = CURRENT
        self.made = 0
        self.n = 0
        self.failed = None
        self.known = True
        self.taken = self.follow(p, fail)

    def prepare(self):
        pass

    def ev(self, x):
        self.env.memo.clear()
        return self.env.ev(x)

    def conds(self, p):
        left = False
        for c, pol in p.conds:
            try:
                if bool(self.ev(c) & 1) != pol:
                    return False
            except (Unknown, KeyError):
                left = True
        self.known = not left
        return True

    def follow(self, p, fail):
        stuck = False
        todo = []
        for e in p.events:
            n = self.name(e.ins.qn) if e.ins.is_call() else None
            if n is None or e.kind == "unwind":
                if e.kind == "call" and not e.ins.qn:
                    stuck = True        # a call of something unknown
                continue
            todo.append((n, e))
        try:
            while todo:
                k = 1
                h = todo[0][1].loops
                while h and k < len(todo) and todo[k][1].loops == h:
                    k += 1
                if h:
                    self.loop(p, h, todo[:k], fail)
                else:
                    self.step(*todo[0], fail)
                todo = todo[k:]
        except (Unknown, KeyError, IndexError):
            stuck = True
        ok = self.conds(p)
        if ok and stuck:
            self.known = False
        self.end = p.end
        self.ret = None
        if ok and p.ret is not None:
            try:
                self.ret = self.ev(p.ret)
            except (Unknown, KeyError):
                self.ret = None
        return ok

    def loop(self, p, hs, es, fail):
        """Events of a loop, as often as its body is passed."""
        es = [(n, e) for n, e in es if not e.second]
        if len(hs) != 1 or not es:
            raise Unknown("loop")
        for n, e in es:
            if n.split("::")[-1] in self.asks:
                self.step(n, e, fail)
        tr = [loops.trace(p.st.f, p.st, hs[0], self.env.fixed, e.ins.blk)
              for n, e in es]
        for t in tr:
            if not t.ended or t.early or t.skips or t.skipped and \
                    t.skipped != [t.last]:
                raise Unknown("loop")
        for k in range(max(len(t.its) for t in tr)):
            for t, (n, e) in zip(tr, es):
                if k < len(t.its):
                    self.env.fixed.update(
                        (x, v) for x, v in t.its[k].items()
                        if x[0] not in ("call", "arg"))
                    self.step(n, e, fail)
        self.env.fixed.update((x, v) for x, v in tr[0].last.items()
                              if x[0] not in ("call", "arg"))

    def step(self, n, e, fail):
        a = [self.ev(x) if isinstance(x, Poly) and i != 0 or
             n not in WRITES else None for i, x in enumerate(e.args)]
        r = e.ret.single_atom() if e.ret is not None else None
        k = self.n
        self.n += 1
        bad = fail is not None and fail == k and n not in SILENT
        if bad:
            self.failed = n
        if r:
            self.env.fixed[r] = 1 if bad else 0
        if n in SILENT:
            return
        if n == "GetDevice":
            self.env.outs[e.ins.id] = 99 if bad else self.device
        elif n == "SetDevice":
            if not bad:
                self.device = a[0] & M32
        elif n in WRITES:
            self.made += 1
            h = 0x10000 * self.made
            self.env.outs[e.ins.id] = 0 if bad else h
            if not bad:
                self.log.append((n, h, a[1] if len(a) > 1 else None,
                                 self.device))
            else:
                self.log.append((n + " (fails)", 0, 0, self.device))
        elif n in NOTED:
            self.log.append((n + (" (fails)" if bad else ""),) + tuple(a) +
                            (self.device,))
        else:
            raise Unknown(n)

    def done(self, *names):
        return [x for x in self.log if x[0] in names]

    def text(self):
        return "%s%s; runtime calls: %s" % (
            self.end, "" if self.ret is None else " %#x" % self.ret,
            [x[:4] for x in self.log])


class Entry:
    def __init__(self, R, f, what, Run=Run):
        self.R, self.f, self.what, self.Run = R, f, what, Run
        R.fn(f)
        self.ps = [p for p in paths(f, hooks=Run.hooks(), merge=False,
                                   exc=True)]
        R.count("paths", len(self.ps))
        self.bad = {}

    def fault(self, rule, args, run, text):
        self.bad.setdefault(rule, "arguments %s%s: %s (%s)" % (
            ["%#x" % (x & M64) for x in args],
            ", %s fails" % run.failed if run and run.failed else "", text,
            run.text() if run else ""))

    def runs(self, args, fail=None):
        rs = [self.Run(p, args, fail) for p in self.ps]
        rs = [r for r in rs if r.taken]
        if any(r.end != "loop" for r in rs):
            rs = [r for r in rs if r.end != "loop"]
        if not rs or any(not r.known for r in rs):
            self.fault("value", args, None, "effect not determined")
            return []
        self.R.count("cases")
        return rs

    def both(self, args, good, bad):
        """Judges the run without failure, and with each call failing."""
        rs = self.runs(args)
        n = max([r.n for r in rs] or [0])
        for r in rs:
            good(r)
        for k in range(n):
            for r in self.runs(args, k):
                if r.failed:
                    bad(r)

    def close(self, rules):
        for rule, text in rules.items():
            self.R.ob(rule if rule != "value" else "effect",
                      "%s: %s" % (self.what, text), rule not in self.bad,
                      self.f.where(), self.bad.get(rule, ""))


def entries(ctx, kind, Run=Run):
    k = ("gpu", kind)
    if k not in ctx._c:
        ctx._c[k], n = gpu(ctx.work, kind)
        ctx.R.count("translation_units", n)
    fn = {f.qn[5:]: f for f in ctx._c[k].fns if f.qn.startswith("vp_k_")}
    ctx.R.need(len(fn) >= 15, "%s: only %d entries" % (kind, len(fn)))

    def get(name):
        ctx.R.need(name in fn, "%s: no entry %s" % (kind, name))
        return Entry(ctx.R, fn[name], "%s %s" % (kind, name), Run)
    return get


def reported(E, args, r, dropped=("GetDevice",)):
    """A failure of the runtime does not go unnoticed."""
    if r.end == "ret" and r.failed not in dropped:
        E.fault("error", args, r, "the failure is not reported")


def devices(name):
    return (CURRENT, 0, 2, -1) if name == "device" else (None,)


def resources(ctx):
    for kind in ("cuda", "hip"):
        get = entries(ctx, kind)
        for name in ("device", "host", "managed"):
            alloc(get("allocate_" + name), name)
            release(get("deallocate_" + name), name)
        equal(get)


def alloc(E, name):
    make = MEMORY[name][0]
    for dev in devices(name):
        want = CURRENT if dev in (None, -1) else dev
        for n in (0, 1, 8, 100, 4096, (1 << 40) + 1):
            for al in (1, 8, 64, 4096):
                args = ([] if dev is None else [dev]) + [n, al]
                made = ("Malloc", "MallocManaged", "MallocHost")

                def good(r):
                    l = r.done(*made)
                    if n == 0:
                        if l or r.ret != 0:
                            E.fault("value", args, r, "nothing is to be "
                                    "allocated")
                    elif len(l) != 1 or l[0][0] != make or l[0][2] != n or \
                            r.ret != l[0][1] or r.end != "ret":
                        E.fault("value", args, r, "one block of this size, "
                                "from %s, is to be returned" % make)
                    elif r.done("Free", "FreeHost"):
                        E.fault("value", args, r, "the block is released")
                    check(r)

                def check(r):
                    for x in r.done(*made):
                        if name == "device" and x[3] != want:
                            E.fault("device", args, r, "device %d is used" %
                                    x[3])
                    if r.device != CURRENT and r.failed != "SetDevice":
                        E.fault("device", args, r, "device %d stays selected"
                                % r.device)

                def bad(r):
                    reported(E, args, r)
                    if r.failed != "GetDevice":
                        check(r)
                E.both(args, good, bad)
    E.close({"value": "exactly what is asked for is allocated, with %s" %
             make, "error": "failures of the runtime are reported",
             "device": "on its device; the one selected stays selected"})


def release(E, name):
    how = MEMORY[name][1]
    for dev in devices(name):
        want = CURRENT if dev in (None, -1) else dev
        for ptr in (0, 1 << 20, (1 << 47) + 16):
            for n, al in ((1, 1), (8, 8), (100, 64), (1 << 40, 4096)):
                args = ([] if dev is None else [dev]) + [ptr, n, al]

                def good(r):
                    l = r.done("Free", "FreeHost")
                    if [x[:2] for x in l] != ([(how, ptr)] if ptr else []):
                        E.fault("value", args, r, "%s of the block, once, is "
                                "expected" % how)
                    if r.end != "ret" or r.done("Malloc", "MallocManaged",
                                                "MallocHost"):
                        E.fault("value", args, r, "more is done than asked")
                    check(r)

                def check(r):
                    for x in r.done("Free", "FreeHost"):
                        if name == "device" and x[-1] != want:
                            E.fault("device", args, r, "device %d is used" %
                                    x[-1])
                    if r.device != CURRENT and r.failed != "SetDevice":
                        E.fault("device", args, r, "device %d stays selected"
                                % r.device)

                def bad(r):
                    reported(E, args, r)
                    if r.failed != "GetDevice":
                        check(r)
                E.both(args, good, bad)
    E.close({"value": "the block, and only it, is released with %s" % how,
             "error": "failures of the runtime are reported",
             "device": "on its device; the one selected stays selected"})


def equal(get):
    E = get("equal_device")
    for d in devices("device"):
        for e in devices("device"):
            w = int((CURRENT if d == -1 else d) == (CURRENT if e == -1 else e))
            for r in E.runs([d, e]):
                if r.ret is None or r.ret & 1 != w:
                    E.fault("value", [d, e], r, "%sequal" % ("not " * w))
    E.close({"value": "equal exactly if both use the same device"})
    for n, w, args in (("host", 1, []), ("managed", 1, []),
                       ("device_host", 0, [2]), ("host_managed", 0, []),
                       ("managed_device", 0, [2])):
        E = get("equal_" + n)
        for r in E.runs(args):
            if r.ret is None or r.ret & 1 != w:
                E.fault("value", args, r, "%sequal" % ("not " * w))
        E.close({"value": "equal exactly if of the same kind"})


def copies(ctx):
    for kind in ("cuda", "hip"):
        get = entries(ctx, kind)
        for t, v in KINDS.items():
            copy(get("copy_" + t), v, "Memcpy", None)
        fill(get("memset"), "Memset", None)
        if kind == "cuda":
            for t, v in KINDS.items():
                copy(get("acopy_" + t), v, "MemcpyAsync", 1 << 21)
            fill(get("amemset"), "MemsetAsync", 1 << 21)


def copy(E, v, fn, stream):
    for n in (0, 1, 100, (1 << 33) + 1):
        for src, dst in ((1 << 20, 1 << 24), (1 << 24, 1 << 20)):
            args = [n, src, dst] + ([stream] if stream else [])
            judge(E, args, fn, stream, [] if n == 0 else [(dst, src, n)],
                  (v, ANY))
    E.close({"value": "one %s of these bytes, unless there are none" % fn,
             "error": "failures of the runtime are reported"})


def fill(E, fn, stream):
    for n in (0, 1, 100, (1 << 33) + 1):
        for v in (0, 1, 255, -1):
            args = [n, 1 << 20, v] + ([stream] if stream else [])
            judge(E, args, fn, stream,
                  [] if n == 0 else [(1 << 20, v & M32, n)], None)
    E.close({"value": "one %s of these bytes, unless there are none" % fn,
             "error": "failures of the runtime are reported"})


def judge(E, args, fn, stream, want, kinds):
    def good(r):
        l = r.done("Memcpy", "MemcpyAsync", "Memset", "MemsetAsync")
        got = []
        for x in l:
            y = list(x[1:4])
            if kinds is None:
                y[1] &= M32
            got.append(tuple(y))
        ok = r.end == "ret" and got == want and \
            all(x[0] == fn for x in l)
        if ok and kinds:
            ok = all(x[4] & M32 in kinds for x in l)
        if ok and stream:
            ok = all(x[5 if kinds else 4] == stream for x in l)
        if not ok:
            E.fault("value", args, r, "%s of %s is expected" % (fn, want))
        if r.done("StreamDestroy", "EventDestroy"):
            E.fault("value", args, r, "something is destroyed")

    def bad(r):
        reported(E, args, r)
    E.both(args, good, bad)


def streams(ctx):
    get = entries(ctx, "cuda")
    S = 1 << 21
    for name in ("drop", "wait", "ignore"):
        E = get("event_" + name)
        args = [S]

        def order(r):
            """Names of what was done to the one event."""
            l = r.done("EventCreate", "EventRecord", "EventSynchronize",
                       "EventDestroy", "EventQuery")
            h = [x[1] for x in l if x[0] == "EventCreate"]
            if l and (len(h) != 1 or any(x[1] != h[0] for x in l)):
                return None
            if any(x[2] != S for x in l if x[0] == "EventRecord"):
                return None
            return [x[0][5:] for x in l if x[0] != "EventQuery"]

        def good(r):
            w = ["Create", "Record", "Synchronize", "Destroy"]
            if name == "ignore":
                w.remove("Synchronize")
            if r.end != "ret" or order(r) != w:
                E.fault("value", args, r, "%s of one event on the given "
                        "stream is expected" % ", ".join(w))

        def bad(r):
            reported(E, args, r)
            if r.end in ("throw", "resume") and r.failed != "EventDestroy":
                h = [x[1] for x in r.done("EventCreate")]
                d = [x[1] for x in r.done("EventDestroy")]
                if h != d:
                    E.fault("value", args, r, "the event is not destroyed "
                            "exactly once")
        E.both(args, good, bad)
        E.close({"value": "the event is recorded on the stream, %s, and "
                 "destroyed once" % {
                     "drop": "waited for when dropped",
                     "wait": "waited for once",
                     "ignore": "not waited for"}[name],
                 "error": "failures of the runtime are reported"})
    for name, sync in (("own", 1), ("copied", 0), ("assigned", 1),
                       ("moved", 1), ("made_by_move", 0)):
        E = get("stream_" + name)
        for dev in devices("device"):
            args = [dev] + ([S] if name in ("assigned", "moved") else [])
            owned(E, args, CURRENT if dev == -1 else dev, sync)
        E.close({"value": "one stream is made, used, and destroyed after its "
                 "last user",
                 "device": "on its device; the one selected stays selected",
                 "error": "failures of the runtime are reported"})
    E = get("amemset_own")
    for dev in devices("device"):
        owned(E, [8, 1 << 20, 1, dev], CURRENT if dev == -1 else dev, 0,
              "MemsetAsync")
    E.close({"value": "the copy object keeps the stream alive",
             "device": "on its device; the one selected stays selected",
             "error": "failures of the runtime are reported"})
    E = get("stream_given")
    args = [S]

    def good(r):
        if [x[:2] for x in r.log] != [("StreamSynchronize", S)] or \
           r.ret != S or r.end != "ret":
            E.fault("value", args, r, "the given stream is to be used, and "
                    "left alone")

    def bad(r):
        reported(E, args, r)
        if r.done("StreamDestroy"):
            E.fault("value", args, r, "the given stream is destroyed")
    E.both(args, good, bad)
    E.close({"value": "a stream given by the user is used and never "
             "destroyed", "error": "failures of the runtime are reported"})


def owned(E, args, want, sync, use=None):
    def common(r):
        made = r.done("StreamCreate")
        gone = [x[1] for x in r.done("StreamDestroy",
                                     "StreamDestroy (fails)")]
        if [x[1] for x in made] != gone:
            E.fault("value", args, r, "not destroyed exactly once")
        elif gone and r.log[-1][0][:13] != "StreamDestroy":
            E.fault("value", args, r, "used after it is destroyed")
        if any(x[3] != want for x in made) and r.failed != "GetDevice":
            E.fault("device", args, r, "made on device %d" % made[0][3])
        if r.device != CURRENT and r.failed not in ("GetDevice",
                                                    "SetDevice"):
            E.fault("device", args, r, "device %d stays selected" % r.device)

    def good(r):
        common(r)
        made = r.done("StreamCreate")
        used = r.done("StreamSynchronize")
        h = made[0][1] if len(made) == 1 else None
        if h is None or r.end != "ret" or \
           [x[1] for x in used] != [h] * sync or \
           use is None and r.ret != h or \
           use and [x[4] for x in r.done(use)] != [h]:
            E.fault("value", args, r, "one stream is to be made and used")

    def bad(r):
        reported(E, args, r, ("GetDevice", "StreamDestroy"))
        if r.end in ("throw", "resume"):
            common(r)
    E.both(args, good, bad)
