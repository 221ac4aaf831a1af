"""Adapters (real object + reference model + comparison) for the list-like
structures."""
import math

from . import core
from .core import (Violation, call, canon, eq, eqv, expect, extra, fail, get,
                   same)

INF = float("inf")


def nl(v):
    """Text items keep a line break as backslash-n."""
    return v.replace("\n", "\\n") if type(v) is str else v


def lit(v):
    """Literals may stand for containers in operations."""
    return v


# positions and distances beyond every machine word and every exact float
HUGE = [10 ** 18 + 1, 2 ** 63 + 5, 10 ** 30 + 7]


class World:
    __slots__ = ("real", "model", "aux", "cfg")

    def __init__(self, real, model, cfg=None):
        self.real = real
        self.model = model
        self.cfg = cfg
        self.aux = None


def values_of(obj, n, what):
    """Items through the iterator, with a hard stop if it runs away."""
    out = []
    it = get(what + ": iter()", iter, obj)
    for _ in range(n + 3):
        o = call(next, it)
        if o.exc is StopIteration:
            return out
        expect(what + ": iterating", o)
        out.append(o.value)
    fail("%s: iteration yields more than the %d held items", what, n)


class ListAdapter:
    """LinkedList / DoublyLinkedList / CircularLinkedList against a list."""

    observers_pure = True

    def __init__(self, kind):
        self.kind = kind
        self.cls = getattr(extra, kind)
        self.ring = kind == "CircularLinkedList"
        self.doubly = kind == "DoublyLinkedList"

    def new(self, items=()):
        real = get("%s()" % self.kind, self.cls, list(items)) if items \
            else get("%s()" % self.kind, self.cls)
        return World(real, [nl(x) for x in items])

    fresh = new

    def configs(self):
        return [()]

    # ---- alphabet ---------------------------------------------------------
    def mutators(self, w, vals, cap):
        """Every modifying operation enabled within the size cap."""
        m = w.model
        n = len(m)
        v0, v1 = vals[0], vals[-1]
        if n < cap:
            for v in vals:
                yield ("add_front", v)
                yield ("add_end", v)
            for i in range(1, n + 1 if not self.ring else n + 3):
                for v in vals:
                    yield ("insert", i, v)
            if self.ring:
                yield ("insert", 2 * (n + 1), v0)
                yield ("insert", 3 * n + 4, v1)
        hi = n if not self.ring else 2 * n + 1
        for i in range(hi):
            yield ("del", i)
            if n:
                for v in vals:
                    yield ("set", i, v)
        yield ("remove_front",)
        yield ("remove_end",)
        for v in vals:
            yield ("remove", v, True)
            yield ("remove", v, False)
        if n + 1 <= cap:
            yield ("extend", (v1,))
        if n + 2 <= cap:
            yield ("extend", (v0, v1))
        yield ("extend", ())
        if 2 * n <= cap:
            yield ("extend_self",)
        for d in list(range(0, n + 2)) + HUGE[:1]:
            yield ("rotate_left", d)
            yield ("rotate_right", d)
        yield ("clear",)

    # ---- execution --------------------------------------------------------
    def do(self, w, op):
        r, m, k = w.real, w.model, self.kind
        name = op[0]
        what = "%s%r.%s%r" % (k, core.show(m) if len(m) < 12 else
                              "<%d items>" % len(m), name, op[1:])
        n = len(m)
        if name == "add_front":
            expect(what, call(r.add_front, op[1]), None, warns=False)
            m.insert(0, nl(op[1]))
        elif name == "add_end":
            expect(what, call(r.add_end, op[1]), None, warns=False)
            m.append(nl(op[1]))
        elif name == "insert":
            expect(what, call(r.insert, op[1], op[2]), None, warns=False)
            m.insert(op[1] % (n + 1) if self.ring else op[1], nl(op[2]))
        elif name == "set":
            expect(what, call(r.__setitem__, op[1], op[2]), None, warns=False)
            m[op[1] % n if self.ring else op[1]] = nl(op[2])
        elif name == "del":
            expect(what, call(r.__delitem__, op[1]), None, warns=False)
            if n:
                del m[op[1] % n if self.ring else op[1]]
        elif name == "remove_front":
            expect(what, call(r.remove_front), None, warns=False)
            del m[:1]
        elif name == "remove_end":
            expect(what, call(r.remove_end), None, warns=False)
            del m[-1:]
        elif name == "remove":
            if op[2] is True:
                expect(what, call(r.remove, op[1]), None, warns=False)
                m[:] = [x for x in m if x != op[1]]
            else:
                expect(what, call(r.remove, op[1], all=False), None,
                       warns=False)
                if op[1] in m:
                    m.remove(op[1])
        elif name == "extend":
            other = self.cls(list(op[1]))
            expect(what, call(r.extend, other), None, warns=False)
            m.extend(nl(x) for x in op[1])
            # the other list must come out unharmed
            eq(what + ": the list it was extended by",
               values_of(other, len(op[1]), what), [nl(x) for x in op[1]])
        elif name == "extend_self":
            expect(what, call(r.extend, r), None, warns=False)
            m.extend(list(m))
        elif name == "rotate_left":
            expect(what, call(r.rotate_left, op[1]), None, warns=False)
            if n:
                d = op[1] % n
                m[:] = m[d:] + m[:d]
        elif name == "rotate_right":
            expect(what, call(r.rotate_right, op[1]), None, warns=False)
            if n:
                d = (-op[1]) % n
                m[:] = m[d:] + m[:d]
        elif name == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError("unknown op %r" % (op,))
        return name

    # ---- observation ------------------------------------------------------
    def contents(self, real, model, what):
        n = len(model)
        eq(what + ": len()", get(what + ": len()", len, real), n)
        eq(what + ": is_empty()", get(what + ": is_empty()", real.is_empty),
           n == 0)
        eq(what + ": items", values_of(real, n, what), model)

    def observe(self, w, probes=(), slices="few"):
        r, m = w.real, w.model
        n = len(m)
        what = "%s holding %s" % (self.kind, core.show(m))
        self.contents(r, m, what)
        eq(what + ": to_list()", get(what + ": to_list()", r.to_list), m)
        if type(r) is not self.cls:
            fail("%s: is a %s", what, type(r).__name__)
        # indexing
        if self.ring:
            if n:
                for i in range(0, 2 * n + 2):
                    eq("%s[%d]" % (what, i),
                       get("%s[%d]" % (what, i), r.__getitem__, i), m[i % n])
                eq("%s[10n+1]" % what,
                   get(what, r.__getitem__, 10 * n + 1), m[(10 * n + 1) % n])
            else:
                expect(what + "[0]", call(r.__getitem__, 0), exc=IndexError)
        else:
            for i in range(-n, n):
                eq("%s[%d]" % (what, i),
                   get("%s[%d]" % (what, i), r.__getitem__, i), m[i])
            expect("%s[%d]" % (what, n), call(r.__getitem__, n),
                   exc=IndexError)
            expect("%s[%d]" % (what, -n - 1), call(r.__getitem__, -n - 1),
                   exc=IndexError)
        # membership and counting
        for v in list(probes) + m[:3] + m[-1:] + list(core.ALIENS[1:]):
            eq("%s: %r in it" % (what, v),
               get("%s: %r in it" % (what, v), r.__contains__, v), v in m)
            eq("%s.count(%r)" % (what, v),
               get("%s.count(%r)" % (what, v), r.count, v), m.count(v))
        self.derived(w, what, slices)
        self.chain(r, m, what)

    def derived(self, w, what, slices):
        r, m = w.real, w.model
        n = len(m)

        def isl(label, got, want):
            if type(got) is not self.cls:
                fail("%s%s: returned a %s", what, label, type(got).__name__)
            self.contents(got, want, what + label)
            self.chain(got, want, what + label)

        isl(".reverse()", get(what + ".reverse()", r.reverse), m[::-1])
        isl(".copy()", get(what + ".copy()", r.copy), m)
        for i in range(0, n + 1 if not self.ring else 2 * n + 2):
            l_, r_ = get("%s.split(%d)" % (what, i), r.split, i)
            c = (i % n if n else 0) if self.ring else i
            isl(".split(%d)[0]" % i, l_, m[:c])
            isl(".split(%d)[1]" % i, r_, m[c:])
        for d in list(range(0, n + 3)) + HUGE:
            k = d % n if n else 0
            isl(".rotate_left(%d, False)" % d,
                get(what, r.rotate_left, d, inplace=False), m[k:] + m[:k])
            k = (-d) % n if n else 0
            isl(".rotate_right(%d, False)" % d,
                get(what, r.rotate_right, d, inplace=False), m[k:] + m[:k])
        if not self.ring:
            if slices == "all":
                rng = [None] + list(range(-n - 2, n + 3))
                steps = [None, 1, 2, 3, -1, -2, -3]
            else:
                rng = [None, 0, 1, n - 1, n, n + 1, -1, -n]
                steps = [None, 2, -1]
            wide = [k for i in list(range(4, max(9, n + 2))) + [HUGE[0]]
                    for k in (i, -i)]
            rng += [HUGE[0], -HUGE[0]]
            for a in rng:
                for b in rng:
                    for s in steps if a is not b else steps + wide:
                        sl = slice(a, b, s)
                        isl("[%s:%s:%s]" % (a, b, s),
                            get("%s[%s:%s:%s]" % (what, a, b, s),
                                r.__getitem__, sl), m[sl])

    def chain(self, real, model, what):
        """Follow the links themselves from the first and the last node."""
        n = len(model)
        if n == 0:
            return
        node = core.priv(real, "_head")
        if node is core.MISSING:
            return
        first = node
        seq = []
        for i in range(n):
            if node is None:
                fail("%s: the chain ends after %d of %d items", what, i, n)
            eq("%s: item at link %d" % (what, i), node.get_data(), model[i])
            seq.append(node)
            node = node.get_next()
        if self.ring:
            if node is not first:
                fail("%s: following %d links does not return to the first "
                     "node", what, n)
            return
        if node is not None:
            fail("%s: the last node still links to another node", what)
        if self.doubly:
            node = core.priv(real, "_tail")
            if node is core.MISSING:
                return
            for i in range(n - 1, -1, -1):
                if node is None:
                    fail("%s: walking backwards stops %d items early", what,
                         i + 1)
                if node is not seq[i]:
                    fail("%s: backward walk differs from forward walk at "
                         "position %d", what, i)
                node = node.get_prev()
            if node is not None:
                fail("%s: the first node has a previous node", what)

    def drain(self, w, mode):
        """Destructive: empty it step by step, comparing."""
        r, m = w.real, w.model
        side = 0
        while m:
            if mode == "front" or (mode == "alt" and side % 2 == 0):
                self.do(w, ("remove_front",))
            else:
                self.do(w, ("remove_end",))
            side += 1
            self.contents(r, m, "%s while draining" % self.kind)
        self.do(w, ("remove_front",))
        self.do(w, ("remove_end",))
        self.contents(r, m, "%s drained" % self.kind)

    drains = ("front", "end", "alt")


# --------------------------------------------------------------------------
def round_cap(c):
    return c if c == INF else round(c)


class StackAdapter:
    kind = "Stack"

    def __init__(self):
        self.cls = extra.Stack

    def configs(self):
        return [(INF,), (0,), (1,), (2,), (3,), (1.4,), (2.6,)]

    def new(self, cap=INF):
        if cap == INF:
            real = get("Stack()", self.cls)
        else:
            real = get("Stack(%r)" % cap, self.cls, cap)
        return World(real, [], round_cap(cap))

    def mutators(self, w, vals, cap):
        if len(w.model) < cap or len(w.model) >= w.cfg:
            for v in vals:
                yield ("push", v)
        yield ("pop",)
        yield ("clear",)

    def do(self, w, op):
        r, m, c = w.real, w.model, w.cfg
        what = "Stack(cap %s) holding %s: %s%r" % (c, core.show(m), op[0],
                                                   op[1:])
        if op[0] == "push":
            if len(m) >= c:
                expect(what, call(r.push, op[1]), exc=OverflowError)
                return "overflow"
            expect(what, call(r.push, op[1]), None, warns=False)
            m.append(nl(op[1]))
        elif op[0] == "pop":
            if not m:
                expect(what, call(r.pop), None, warns=True)
                return "pop-empty"
            expect(what, call(r.pop), m.pop(), warns=False)
        elif op[0] == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError(op)
        return op[0]

    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "Stack(cap %s) holding %s" % (w.cfg, core.show(m))
        self.contents(r, m, what)
        eq(what + ": is_full()", get(what, r.is_full), len(m) == w.cfg)
        if m:
            eq(what + ": peek()", get(what, r.peek), m[-1])
        else:
            expect(what + ": peek()", call(r.peek), exc=IndexError)
        if core.priv(r, "_max_capacity") is not core.MISSING:
            eqv(what + ": capacity", r._max_capacity, w.cfg)

    def drain(self, w, mode):
        while w.model:
            self.observe(w)
            self.do(w, ("pop",))
        self.observe(w)
        self.do(w, ("pop",))

    drains = ("pop",)


class QueueAdapter:
    """model[0] is the next item to leave (the oldest)."""

    kind = "Queue"

    def __init__(self):
        self.cls = extra.Queue

    def configs(self):
        return [(INF,), (0,), (1,), (2,), (3,), (1.4,), (2.6,)]

    def new(self, cap=INF):
        if cap == INF:
            real = get("Queue()", self.cls)
        else:
            real = get("Queue(%r)" % cap, self.cls, cap)
        return World(real, [], round_cap(cap))

    def mutators(self, w, vals, cap):
        if len(w.model) < cap or len(w.model) >= w.cfg:
            for v in vals:
                yield ("enqueue", v)
        yield ("dequeue",)
        yield ("clear",)

    def do(self, w, op):
        r, m, c = w.real, w.model, w.cfg
        what = "Queue(cap %s) holding %s: %s%r" % (c, core.show(m), op[0],
                                                   op[1:])
        if op[0] == "enqueue":
            full = len(m) >= c
            expect(what, call(r.enqueue, op[1]), None, warns=full)
            if full:
                del m[:1]
            if c > 0:
                m.append(nl(op[1]))
            return "evict" if full else "enqueue"
        elif op[0] == "dequeue":
            if not m:
                expect(what, call(r.dequeue), None, warns=True)
                return "dequeue-empty"
            expect(what, call(r.dequeue), m.pop(0), warns=False)
        elif op[0] == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError(op)
        return op[0]

    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "Queue(cap %s) holding %s" % (w.cfg, core.show(m))
        self.contents(r, m, what)
        eq(what + ": is_full()", get(what, r.is_full), len(m) == w.cfg)
        if m:
            eq(what + ": top()", get(what, r.top), m[0])
        else:
            expect(what + ": top()", call(r.top), exc=IndexError)
        if core.priv(r, "_max_capacity") is not core.MISSING:
            eqv(what + ": capacity", r._max_capacity, w.cfg)

    def drain(self, w, mode):
        while w.model:
            self.observe(w)
            self.do(w, ("dequeue",))
        self.observe(w)
        self.do(w, ("dequeue",))

    drains = ("dequeue",)


class DequeAdapter:
    """model is left..right."""

    kind = "Deque"

    def __init__(self):
        self.cls = extra.Deque

    def configs(self):
        return [(INF,), (0,), (1,), (2,), (3,), (1.4,), (2.6,)]

    def new(self, cap=INF):
        if cap == INF:
            real = get("Deque()", self.cls)
        else:
            real = get("Deque(%r)" % cap, self.cls, cap)
        return World(real, [], round_cap(cap))

    def mutators(self, w, vals, cap):
        if len(w.model) < cap or len(w.model) >= w.cfg:
            for v in vals:
                yield ("append_left", v)
                yield ("append_right", v)
            yield ("enqueue", vals[0])
        yield ("pop_left",)
        yield ("pop_right",)
        yield ("dequeue",)
        yield ("clear",)

    def do(self, w, op):
        r, m, c = w.real, w.model, w.cfg
        what = "Deque(cap %s) holding %s: %s%r" % (c, core.show(m), op[0],
                                                   op[1:])
        if op[0] in ("append_left", "append_right", "enqueue"):
            full = len(m) >= c
            expect(what, call(getattr(r, op[0]), op[1]), None, warns=full)
            left = op[0] != "append_right"
            if full and m:
                del m[-1 if left else 0]
            if c > 0:
                m.insert(0 if left else len(m), nl(op[1]))
            return "evict" if full else op[0]
        elif op[0] in ("pop_left", "pop_right", "dequeue"):
            if not m:
                expect(what, call(getattr(r, op[0])), None, warns=True)
                return "pop-empty"
            expect(what, call(getattr(r, op[0])),
                   m.pop(0 if op[0] == "pop_left" else -1), warns=False)
        elif op[0] == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError(op)
        return op[0]

    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "Deque(cap %s) holding %s" % (w.cfg, core.show(m))
        self.contents(r, m, what)
        eq(what + ": is_full()", get(what, r.is_full), len(m) == w.cfg)
        for nm, i in (("get_left", 0), ("get_right", -1), ("top", -1)):
            if m:
                eq("%s: %s()" % (what, nm), get(what, getattr(r, nm)), m[i])
            else:
                expect("%s: %s()" % (what, nm), call(getattr(r, nm)),
                       exc=IndexError)
        if core.priv(r, "_max_capacity") is not core.MISSING:
            eqv(what + ": capacity", r._max_capacity, w.cfg)

    def drain(self, w, mode):
        i = 0
        while w.model:
            self.observe(w)
            if mode == "alt":
                self.do(w, ("pop_left",) if i % 2 else ("pop_right",))
            else:
                self.do(w, (mode,))
            i += 1
        self.observe(w)
        self.do(w, ("pop_left",))
        self.do(w, ("pop_right",))

    drains = ("pop_left", "pop_right", "alt")


class PriorityQueueAdapter:
    """model: list of [item, priority], oldest first; items are distinct so
    that the served one can be recognised."""

    kind = "PriorityQueue"
    PRIOS = (1, 2, 3)

    def __init__(self, prios=None):
        self.cls = extra.PriorityQueue
        if prios is not None:
            self.PRIOS = prios

    def configs(self):
        return [(INF,), (0,), (1,), (2,), (3,), (2.6,)]

    def new(self, cap=INF):
        if cap == INF:
            real = get("PriorityQueue()", self.cls)
        else:
            real = get("PriorityQueue(%r)" % cap, self.cls, cap)
        w = World(real, [], round_cap(cap))
        w.aux = 0
        return w

    def mutators(self, w, vals, cap):
        if len(w.model) < cap or len(w.model) >= w.cfg:
            for p in self.PRIOS:
                yield ("enqueue", p)
        yield ("dequeue",)
        yield ("dequeue_min",)
        yield ("clear",)

    @staticmethod
    def nodes(r, limit=50):
        """Linked nodes, newest first; None if not reachable this way."""
        c = core.priv(r, "_container")
        node = core.priv(c, "_head")
        if node is core.MISSING:
            return None
        out = []
        while node is not None and len(out) <= limit:
            out.append(node)
            node = node.get_next()
        return out

    def item(self, w):
        """A label not in use (small, so that states recur)."""
        used = {x for x, _ in w.model}
        i = 0
        while i in used:
            i += 1
        return i

    def do(self, w, op):
        r, m, c = w.real, w.model, w.cfg
        what = "PriorityQueue(cap %s) holding (item, priority) %s: %s%r" % (
            c, core.show(m), op[0], op[1:])
        if op[0] in ("enqueue", "enqueue_item"):
            full = len(m) >= c
            p = op[1]
            it = self.item(w) if op[0] == "enqueue" else op[2]
            if p is None:
                core.TAPE.reset(op[2] if len(op) > 2 else ())
                o = call(r.enqueue, it)
            else:
                o = call(r.enqueue, it, p)
            expect(what, o, None, warns=full)
            if full:
                del m[:1]
            if c > 0:
                m.append([nl(it), p])
                if p is None:
                    q = self.nodes(r)[0].get_priority()
                    if type(q) is not int or not 0 <= q <= 100:
                        fail("%s: drawn priority is %r", what, q)
                    m[-1][1] = q
            return "evict" if full else "enqueue"
        elif op[0] in ("dequeue", "dequeue_min"):
            low = op[0] == "dequeue_min"
            o = call(r.dequeue, lowest_priority=True) if low else call(
                r.dequeue)
            if not m:
                expect(what, o, None, warns=True)
                return "dequeue-empty"
            got = expect(what, o, warns=False)
            best = (min if low else max)(p for _, p in m)
            ok = [x for x, p in m if p == best]
            idx = next((i for i, (x, p) in enumerate(m)
                        if same(x, got) and p == best), None)
            if idx is None:
                fail("%s: served %r; the held items of %s priority are %s",
                     what, got, "lowest" if low else "highest", ok)
            del m[idx]
        elif op[0] == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError(op)
        return op[0]

    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "PriorityQueue(cap %s) holding (item, priority) %s" % (
            w.cfg, core.show(m))
        self.contents(r, m, what)
        eq(what + ": is_full()", get(what, r.is_full), len(m) == w.cfg)
        if m:
            eq(what + ": top()", get(what, r.top), m[0][0])
            nodes = self.nodes(r, len(m))
            if nodes is not None:
                eq("%s: number of linked items" % what, len(nodes), len(m))
                for node, (x, p) in zip(nodes, reversed(m)):
                    eq("%s: held item" % what, node.get_data(), x)
                    eqv("%s: priority of item %r" % (what, x),
                        node.get_priority(), p)
        else:
            expect(what + ": top()", call(r.top), exc=IndexError)
        if core.priv(r, "_max_capacity") is not core.MISSING:
            eqv(what + ": capacity", r._max_capacity, w.cfg)

    def drain(self, w, mode):
        i = 0
        while w.model:
            if mode == "alt":
                self.do(w, ("dequeue",) if i % 2 else ("dequeue_min",))
            else:
                self.do(w, (mode,))
            i += 1
            self.observe(w)
        self.do(w, ("dequeue",))
        self.do(w, ("dequeue_min",))

    drains = ("dequeue", "dequeue_min", "alt")


class SkipListAdapter:
    """model: sorted list of numbers."""

    kind = "SkipList"
    TAPES = ((1,), (0, 1), (0, 0, 1))

    def __init__(self, tapes=None):
        self.cls = extra.SkipList
        if tapes is not None:
            self.TAPES = tapes

    def configs(self):
        return [()]

    def new(self, items=()):
        real = get("SkipList()", self.cls, list(items)) if items \
            else get("SkipList()", self.cls)
        m = []
        for x in items:
            if x not in m:
                m.append(x)
        return World(real, sorted(m))

    def mutators(self, w, vals, cap):
        for v in vals:
            if v not in w.model:
                if len(w.model) < cap:
                    for t in self.TAPES:
                        yield ("insert", v, t)
            else:
                yield ("insert", v, self.TAPES[0])
                yield ("remove", v)
        for v in vals:
            if v not in w.model:
                yield ("remove", v)
                break
        for i in range(len(w.model)):
            yield ("del", i)
        yield ("clear",)

    def do(self, w, op):
        r, m = w.real, w.model
        what = "SkipList holding %s: %s%r" % (core.show(m), op[0], op[1:])
        if op[0] == "insert":
            core.TAPE.reset(op[2] if len(op) > 2 else ())
            expect(what, call(r.insert, op[1]), None, warns=False)
            if op[1] not in m:
                m.append(op[1])
                m.sort()
                return "insert"
            return "insert-dup"
        elif op[0] == "remove":
            expect(what, call(r.remove, op[1]), None, warns=False)
            if op[1] in m:
                m.remove(op[1])
                return "remove"
            return "remove-absent"
        elif op[0] == "del":
            expect(what, call(r.__delitem__, op[1]), None, warns=False)
            del m[op[1]]
        elif op[0] == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError(op)
        return op[0]

    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)
        eqv(what + ": items", values_of(r, len(m), what), m)

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "SkipList holding %s" % core.show(m)
        self.contents(r, m, what)
        eqv(what + ": to_list()", get(what, r.to_list), m)
        for i, v in enumerate(m):
            eq("%s[%d]" % (what, i), get(what, r.__getitem__, i), v)
        expect("%s[%d]" % (what, len(m)), call(r.__getitem__, len(m)),
               exc=IndexError)
        for v in list(probes) + m + list(core.ALIENS):
            eq("%s: %r in it" % (what, v), get(what, r.__contains__, v),
               v in m)
        levels = core.priv(r, "_level_lists")
        if levels is core.MISSING:
            return
        eq(what + ": get_height()", get(what, r.get_height), len(levels))
        below = None
        for i, lv in enumerate(levels):
            items = values_of(lv, len(m) + 1, what)
            if not items or items[0] != -INF:
                fail("%s: level %d does not start with its sentinel: %s",
                     what, i, items)
            items = items[1:]
            if i == 0:
                eqv(what + ": bottom level", items, m)
            else:
                if not items:
                    fail("%s: level %d is empty", what, i)
                if any(a >= b for a, b in zip(items, items[1:])):
                    fail("%s: level %d is not ascending: %s", what, i, items)
                if not set(items) <= set(below):
                    fail("%s: level %d = %s is not part of level %d = %s",
                         what, i, items, i - 1, below)
            below = items

    def drain(self, w, mode):
        while w.model:
            n = len(w.model)
            if mode == "min":
                self.do(w, ("remove", w.model[0]))
            elif mode == "max":
                self.do(w, ("remove", w.model[-1]))
            else:
                self.do(w, ("del", n // 2))
            self.observe(w)
        self.do(w, ("remove", 1))

    drains = ("min", "max", "mid")


def list_adapters():
    return [ListAdapter("LinkedList"), ListAdapter("DoublyLinkedList"),
            ListAdapter("CircularLinkedList")]
