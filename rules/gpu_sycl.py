"""Rules for vecmem::sycl (property K04): the classes of SYCL are given their
documented meaning (queues are handles, copies of one are the same queue), and
what each path makes of them is worked out."""
from vp.q import *          # noqa
from vp.sample import Unknown
from . import gpu
from .gpu import Entry, Run, entries

G, G2 = 1 << 21, 1 << 22        # queues of the user
RESOURCES = ("device", "host", "shared")
USES = {"given": [G], "made": [1], "const": [1], "given_copied": [G, G],
        "given_moved": [G], "made_copied": [1], "made_moved": [1],
        "given_from_made": [1, 1], "given_from_made_moved": [1, 1],
        "made_from_given": [1, G, G, G],
        "made_from_given_moved": [1, G, G, G],
        "made_from_made": [1, 2, 2], "made_from_made_moved": [1, 2, 2],
        "given_from_given": [G2], "own": [1, 1]}


def name_of(qn):
    if qn.startswith(("sycl::", "std::vector::")) or qn == "vp_use":
        return qn
    return None


class H(gpu.H):
    def effect(self, st, I, kind, args):
        return name_of(I.qn) is not None or \
            I.qn.startswith(("__dynamic_cast", "std::pmr::memory_resource"))

    def value(self, st, I, kind, args):
        # all resources compared by the entries are of vecmem::sycl
        return args[0] if I.qn == "__dynamic_cast" else None


class SRun(Run):
    hooks = H
    asks = ("begin", "end", "cbegin", "cend", "size", "empty", "data")

    def prepare(self):
        self.queues = {G: G, G2: G2}
        self.events = {}
        self.vecs = {}
        self.bases = {}
        self.ids = 0

    @staticmethod
    def name(qn):
        return name_of(qn)

    def queue(self, a):
        if a not in self.queues:
            self.log.append(("a queue that is gone", a))
        return self.queues.get(a, 0)

    def step(self, n, e, fail):
        a = [self.ev(x) for x in e.args]
        r = e.ret.single_atom() if e.ret is not None else None

        def result(v):
            if r:
                self.env.fixed[r] = v
        short = n.split("::")[-1]
        if n == "vp_use":
            self.log.append(("use", self.queue(a[0])))
        elif n.startswith("sycl::queue::"):
            self.on_queue(short, a, result)
        elif n.startswith("sycl::event::"):
            self.on_event(short, a)
        elif n.startswith("std::vector::"):
            self.on_vector(short, a, result)
        elif short == "free":
            self.log.append(("free", a[0], self.queue(a[1])))
        elif short.startswith(("malloc_", "aligned_alloc_")):
            if not short.startswith("aligned"):
                a = [1] + a
            k = self.n
            self.n += 1
            p = 0x10000 * (k + 1)
            if fail == k:
                self.failed, p = short, 0
            self.log.append(("alloc", short.split("_")[-1], a[1],
                             self.queue(a[2]), a[0], p))
            result(p)
        else:
            raise Unknown(n)

    def on_queue(self, n, a, result):
        if n == "queue" and len(a) == 1:
            self.ids += 1
            self.queues[a[0]] = self.ids
        elif n == "queue":
            self.queues[a[0]] = self.queue(a[1])
        elif n == "operator=":
            self.queue(a[0])
            self.queues[a[0]] = self.queue(a[1])
            result(a[0])
        elif n == "~queue":
            self.queue(a[0])
            self.queues.pop(a[0], None)
        elif n in ("operator==", "operator!="):
            same = self.queue(a[0]) == self.queue(a[1])
            result(int(same == (n == "operator==")))
        elif n in ("memcpy", "memset"):
            self.made += 1
            self.events[a[0]] = self.made
            self.log.append((n, self.queue(a[1]), a[2], a[3], a[4],
                             self.made))
        elif n in ("wait", "wait_and_throw"):
            q = self.queue(a[0])
            self.log.append(("wait", [x[5] for x in self.log if x[0] in
                                      ("memcpy", "memset") and x[1] == q]))
        else:
            raise Unknown(n)

    def on_event(self, n, a):
        if n == "event" and len(a) == 1:
            self.events[a[0]] = 0
        elif n in ("event", "operator="):
            self.events[a[0]] = self.events[a[1]] if a[1] in \
                self.events else self.element(a[1])
        elif n == "~event":
            del self.events[a[0]]
        elif n in ("wait", "wait_and_throw"):
            if a[0] in self.events:
                self.log.append(("wait", [self.events[a[0]]]))
            elif a[0] in self.vecs:
                self.log.append(("wait", list(self.vecs[a[0]])))
            else:
                self.log.append(("wait", [self.element(a[0])]))
        else:
            raise Unknown(n)

    def on_vector(self, n, a, result):
        v = self.vecs
        if n == "vector":
            v[a[0]] = list(v[a[1]]) if len(a) > 1 and a[1] in v else []
        elif n == "~vector":
            del v[a[0]]
        elif n in ("push_back", "emplace_back"):
            v[a[0]].append(self.events[a[1]])
        elif n == "clear":
            v[a[0]] = []
        elif n == "swap":
            v[a[0]], v[a[1]] = v[a[1]], v[a[0]]
        elif n == "operator=":
            v[a[0]] = list(v[a[1]])
            result(a[0])
        elif n == "empty":
            result(int(not v[a[0]]))
        elif n == "size":
            result(len(v[a[0]]))
        elif n in ("begin", "cbegin", "data", "front"):
            result(self.base(a[0]))
        elif n in ("end", "cend", "back"):
            result(self.base(a[0]) + 8 * (len(v[a[0]]) - (n == "back")))
        elif n in ("operator[]", "at"):
            result(self.base(a[0]) + 8 * a[1])
        elif n == "reserve":
            pass
        else:
            raise Unknown(n)

    def base(self, a):
        """Where the elements of a vector are."""
        if a not in self.vecs:
            raise Unknown("vector")
        return 0x90000000 + 0x10000 * self.bases.setdefault(
            a, len(self.bases))

    def element(self, a):
        v, k = divmod(a - 0x90000000, 0x10000)
        vec = [self.vecs.get(x, []) for x, i in self.bases.items() if i == v]
        if k % 8 or not vec or k // 8 >= len(vec[0]):
            raise Unknown("element")
        return vec[0][k // 8]

    def gone(self):
        """Queues and events are all destroyed, and none twice."""
        return sorted(self.queues) == [G, G2] and not self.events and \
            not any(x[0].startswith("a queue") for x in self.log)


def sycl(ctx):
    get = entries(ctx, "sycl", SRun)
    for n, want in USES.items():
        E = get("queue_" + n)
        args = [G, G2][:2 if n == "given_from_given" else 1]
        for r in E.runs(args):
            if r.done("use") != [("use", x) for x in want] or r.end != "ret":
                E.fault("value", args, r, "queues %s are expected to be used"
                        % ["the given one" if x == G else
                           "the other given one" if x == G2 else
                           "number %d made" % x for x in want])
            if not r.gone():
                E.fault("gone", args, r, "a queue is used after its end, or "
                        "never destroyed")
        E.close({"value": "refers to the same queue",
                 "gone": "queues made are destroyed once, after their use, "
                 "and given ones never"})
    for k in RESOURCES:
        for own in ("", "own_"):
            alloc(get("allocate_%s%s" % (own, k)), k, own)
        release(get("deallocate_" + k))
        E = get("equal_" + k)
        for q in (G, G2):
            for s in (G, G2):
                for r in E.runs([q, s]):
                    if r.ret is None or r.ret & 1 != int(q == s):
                        E.fault("value", [q, s], r, "wrong answer")
        E.close({"value": "equal exactly if the queue is the same"})
    for n in ("copy", "memset", "memset_own", "async_drop", "async_wait",
              "async_ignore", "async_twice"):
        copies(get(n), n)


def alloc(E, k, own):
    for n in (0, 1, 100, (1 << 40) + 1):
        for al in (1, 8, 64, 4096):
            args = [n, al] + ([] if own else [G])
            want = 1 if own else G

            def good(r):
                l = r.done("alloc")
                if n == 0:
                    ok = not l and r.ret == 0
                else:
                    ok = len(l) == 1 and l[0][1:5] == (k, n, want, al) and \
                        r.ret == l[0][5]
                if not ok or r.end != "ret" or not r.gone() or \
                   r.done("free"):
                    E.fault("value", args, r, "one aligned block of this "
                            "size from the queue is to be returned")

            def bad(r):
                if r.end == "ret":
                    E.fault("error", args, r, "the failure is not reported")
            E.both(args, good, bad)
    E.close({"value": "exactly what is asked for is allocated",
             "error": "failures are reported"})


def release(E):
    for p in (0, 1 << 20, (1 << 47) + 16):
        for n, al in ((1, 1), (100, 64), (1 << 40, 4096)):
            args = [p, n, al, G]
            for r in E.runs(args):
                want = [("free", p, G)] if p else []
                if r.log != want or r.end != "ret":
                    E.fault("value", args, r, "one release is expected")
    E.close({"value": "the block, and only it, is released"})


def copies(E, n):
    for size in (0, 1, 100, (1 << 33) + 1):
        f, t = 1 << 24, 1 << 25
        if n.startswith("memset"):
            args = [size, t, 0xff] + ([] if n == "memset_own" else [G])
            want = [("memset", 1 if n == "memset_own" else G, t, 0xff, size)]
        else:
            args = [size, f, t, G]
            want = [("memcpy", G, t, f, size)]
            if n in ("async_wait", "async_twice"):
                want.append(("memset", G, t, 1, size))
        if size == 0:
            want = []
        for r in E.runs(args):
            l = r.done("memcpy", "memset")
            if [x[:5] for x in l] != want or r.end != "ret" or not r.gone():
                E.fault("value", args, r, "%s is expected" % want)
            waited = [i for x in r.done("wait") for i in x[1]]
            must = [x[5] for x in l]
            if n == "async_ignore":
                must = []
                if waited:
                    E.fault("wait", args, r, "waits for what is ignored")
            elif n == "async_twice":
                if must[:1] and must[0] in waited:
                    E.fault("wait", args, r, "waits for what belongs to an "
                            "earlier event")
                must = must[1:]
            if not set(must) <= set(waited):
                E.fault("wait", args, r, "not waited for: %s" %
                        sorted(set(must) - set(waited)))
    E.close({"value": "exactly the operations asked for, on the queue",
             "wait": "what is to be waited for is, and no more"})
