"""Long histories: many operations on one structure, and many items in it.

Small closed systems visit every state of a few items; what depends on how
long a structure has been used, or on a size far beyond them, shows here.
Every operation's outcome is compared with the model, the contents after each
eighth operation, everything at the steps marked `look`."""
import array
import collections

from . import core, large, registry
from .registry import CAPPED, HEAPS, LISTS, SEARCH, TRIES

INF = float("inf")


def word(x):
    """Forks, chains, shared starts; forty first letters; some long words."""
    if x % 5 == 0:
        return "ab" * (x // 5 % 40 + 1)
    if x % 5 == 1:
        return chr(0x61 + x // 5 % 40) + "c" * (x % 7)
    s, y = "", x + 7
    while y:
        s += "abc"[y % 3]
        y //= 3
    return s + "d" * (x // 130)


def zeros(x):
    return (0,) * (((x + 1) & -(x + 1)).bit_length() - 1) + (1,)


def put(kind, x, i):
    if kind in LISTS:
        return (("add_front", "add_end")[i % 2], x)
    if kind == "Stack":
        return ("push", x)
    if kind == "Queue":
        return ("enqueue", x)
    if kind == "Deque":
        return (("append_left", "append_right")[i // 2 % 2], x)
    if kind == "PriorityQueue":
        return ("enqueue", x * 7 % 11)
    if kind == "SkipList":
        return ("insert", x, zeros(x))
    if kind == "Treap":
        return ("insv", x, x * 37 % 101)
    if kind in SEARCH + HEAPS:
        return ("insv", x)
    return ("insert", word(x))


def take(kind, x, i):
    ends = {"Stack": ("pop",), "Queue": ("dequeue",),
            "Deque": ("pop_left", "pop_right"),
            "PriorityQueue": ("dequeue", "dequeue_min")}.get(kind)
    if ends:
        return (ends[i // 3 % len(ends)],)
    if kind in LISTS:
        return ("remove", x, True)
    if kind == "SkipList":
        return ("remove", x)
    if kind in TRIES:
        return ("remove", word(x))
    if kind in HEAPS and i % 4 == 3:
        return (("remove_min", "remove_max")[i // 4 % 2],)
    return ("remv", x)


def grown(kind, n, order, away):
    """n items in, then all out again."""
    for i, x in enumerate(large.orders(n)[order]):
        yield put(kind, x, i)
        if i in (n // 6, n // 3, n // 2, n - 2, n - 1) or i % 32 in (0, 31):
            yield "look"
    for i, x in enumerate(large.orders(n)[away]):
        yield take(kind, x, i)
        if i % 25 == 0 or i > n - 4:
            yield "look"
    for i in range(3):
        yield put(kind, i, i)
    yield "look"


def sliding(kind, w, steps):
    """About w items, the oldest leaving as a new one comes."""
    for x in range(w):
        yield put(kind, x, x)
    for x in range(steps):
        yield put(kind, x + w, x)
        yield take(kind, x, x)
        if x % 16 in (0, 15) or x == steps - 1:
            yield "look"


def teeth(kind, top):
    """Filled and emptied again and again, one more item every time."""
    i = 0
    for n in list(range(1, top)) + [2, 1]:
        for x in range(n):
            i += 1
            yield put(kind, x * 5 % 31, i)
        yield "look"
        for x in reversed(range(n)) if n % 2 else range(n):
            i += 1
            yield take(kind, x * 5 % 31, i)
        yield "look"


def cleared(kind, times):
    for n in range(times):
        for x in range(n % 5):
            yield put(kind, x, n)
        yield ("clear",)
        if n % 8 == 7:
            yield "look"
    for x in range(5):
        yield put(kind, x, x)
    yield "look"


def toggled(kind, w, steps):
    """The same item in and out."""
    for x in range(w):
        yield put(kind, x, x)
    for i in range(steps):
        yield put(kind, w + 1, i)
        if i % 20 == 0:
            yield "look"
        yield take(kind, w + 1, i)
        if i % 20 == 1:
            yield "look"
    yield "look"


def again(kind, w, steps):
    """The same items in over and over (refused, replaced or stacked up)."""
    for i in range(steps):
        yield put(kind, i % w, i)
        if i % 16 == 0:
            yield "look"
    for i in range(w):
        yield take(kind, i, i)
    yield "look"


def observed(kind, w, times):
    """Looked at over and over, then used on."""
    for x in range(w):
        yield put(kind, x, x)
    for _ in range(times):
        yield "look"
    for i in range(3):
        yield put(kind, w + i, i)
        yield take(kind, i, i)
        yield "look"


def cases(kind, th):
    big = (260 if th else 132) * (1 if kind in LISTS else 2)
    cfgs = ((INF,), (50,)) if kind in CAPPED else ((),)
    for cfg in cfgs:
        for order in large.orders(3):
            for away in (("zigzag", "stride") if kind in LISTS + SEARCH +
                         TRIES + HEAPS + ("SkipList",) else ("up",)):
                yield ("grown", (big, order, away), cfg)
        for w in (1, 3, 7, 12, 24):
            yield ("sliding", (w, 300 if th else 150), cfg)
        yield ("teeth", (30 if th else 20,), cfg)
        yield ("cleared", (120 if th else 60,), cfg)
        for w in (0, 1, 4, 9):
            yield ("toggled", (w, 300 if th else 150), cfg)
        for w in (1, 3):
            yield ("again", (w, 130 if th else 70), cfg)
        yield ("observed", (6, 130 if th else 70), cfg)


def run(kind, checks=None):
    # lists have the largest observation
    few = 2 if kind in LISTS else 16

    def go(case):
        what, args, cfg = case
        if kind in SEARCH:
            ad = registry.adapter(kind, checks=checks or ("set",))
        elif kind in TRIES:
            ad = registry.adapter(kind, words=[word(x) for x in (
                0, 5, 55, 95, 1, 7, 8, 23, 62)])
        else:
            ad = registry.adapter(kind)
        w = ad.new(*cfg)
        n = 0
        for op in globals()[what](kind, *args):
            if n % 8 == 0:
                core.arm()
            if op == "look":
                ad.observe(w)
            else:
                ad.do(w, op)
                n += 1
                if len(w.model) <= few:
                    ad.observe(w)
                elif n % 8 == 0:
                    ad.contents(w.real, w.model, "%s after %d operations" % (
                        kind, n))
        return (case, n)
    return go


def sizes(kind, th):
    """Every size up to a bound and some beyond, filled in several orders,
    then one operation at a place where a boundary may be."""
    for n in list(range(1, 131 if kind not in TRIES else 91)) + [
            160, 200, 255, 256, 257] + ([400, 511, 512, 513] if th else []):
        for order in ("up", "down", "zigzag", "stride"):
            for place in (0, 1, n // 2, n - 2, n - 1, "put", "put twice"):
                if type(place) is int and (
                        not 0 <= place < n or kind in CAPPED and place):
                    continue
                yield (n, order, place)


def run_sizes(kind, checks=None):
    def go(case):
        n, order, place = case
        if kind in SEARCH:
            ad = registry.adapter(kind, checks=checks or ("set",))
        elif kind in TRIES:
            ad = registry.adapter(kind, words=[word(x) for x in (
                0, 5, 55, 95, 1, 7, 8, 23, 62)])
        else:
            ad = registry.adapter(kind)
        w = ad.new(*((INF,) if kind in CAPPED else ()))
        o = large.orders(n)[order]
        for i, x in enumerate(o):
            ad.do(w, put(kind, x, i))
        if place in ("put", "put twice"):
            ad.do(w, put(kind, n + 5, 0))
            if place != "put":
                ad.do(w, put(kind, n + 5, 0))
        else:
            ad.do(w, take(kind, o[place], 0))
        ad.contents(w.real, w.model, "%s of %d items, %s, then %s" % (
            kind, n, order, place))
        if place in (0, "put") and n % (
                16 if kind in LISTS else 12 if kind == "SplayTree"
                else 4) == 1:
            ad.observe(w)
        return (case, n + 2)
    return go


SCALES = {
    "tiny": lambda x: x * 1e-13, "negative": lambda x: -x,
    "huge": lambda x: 10 ** 17 + x, "next": lambda x: 1 + x * 2.0 ** -52,
    "mixed": lambda x: float(x) if x % 2 else x,
    "fractions": lambda x: x / 8 - 1.5, "thirds": lambda x: x / 3,
    "powers": lambda x: (-10) ** x, "vast": lambda x: (x - 7) * 1e290,
    "wide": lambda x: (x - 5) * 1000003}


def other(x):
    """The same number as another type, where there is one."""
    if type(x) is float:
        return int(x) if x == int(x) else x
    return float(x) if float(x) == x else x


def scaled_cases(kind, th):
    for n in tuple(range(2, 21)) + ((33, 64) if th else (33,)):
        for order in ("up", "down", "zigzag", "stride"):
            for scale in SCALES:
                yield (n, order, scale)


def run_scaled(kind, checks=None):
    """Numbers of every magnitude; absent ones and equal ones of another
    type asked for."""
    def go(case):
        n, order, scale = case
        f = SCALES[scale]
        ad = registry.adapter(kind, checks=checks or ("set",)) \
            if kind in SEARCH else registry.adapter(kind)
        w = ad.new(*((INF,) if kind in CAPPED else ()))
        o = large.orders(n)[order]
        ops = [scale_op(f, put(kind, x, i)) for i, x in enumerate(o)]
        probes = (0, n // 2, n - 1) if n > 8 else range(n)
        if kind in SEARCH:
            for x in probes:
                ops += [("hasv", other(f(x))), ("remv", f(n + x)),
                        ("hasv", f(x)), ("hasv", f(n + 2 * x)),
                        ("insv", other(f(x)))]
        elif kind in HEAPS:
            for x in probes:
                ops += [("remv", f(n + x)), ("remv", other(f(x)))]
        elif kind == "SkipList":
            for x in probes:
                ops += [("remove", f(n + x)), ("remove", other(f(x)))]
        elif kind in LISTS:
            for x in probes:
                ops += [("remove", f(n + x), True),
                        ("remove", other(f(x)), True)]
        for i, x in enumerate(o[::2] + o[1::2]):
            ops.append(scale_op(f, take(kind, x, i)))
        for i, op in enumerate(ops):
            ad.do(w, op)
            if (i == n or i == n + 3) and (kind not in LISTS
                                           or n in (4, 17)):
                ad.observe(w)
            elif i % (1 if n < 9 else 5) == 0:
                ad.contents(w.real, w.model, "%s, scale %r, after %d "
                            "operations" % (kind, scale, i + 1))
        return (case, len(ops))
    return go


def scale_op(f, op):
    """The operation with its number scaled."""
    return (op[0], f(op[1])) + op[2:] if len(op) > 1 else op


class Bag:
    """An iterable that is neither a sequence nor an iterator."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


SOURCES = {
    "list": list, "tuple": tuple, "generator": lambda v: (x for x in v),
    "iterator": lambda v: iter(list(v)), "map": lambda v: map(int, v),
    "set": set, "frozenset": frozenset, "keys": dict.fromkeys,
    "values": lambda v: dict(enumerate(v)).values(),
    "deque": collections.deque, "array": lambda v: array.array("i", v),
    "bytes": bytes, "reversed": lambda v: reversed(list(v)), "bag": Bag,
    "LinkedList": lambda v: core.extra.LinkedList(v),
    "CircularLinkedList": lambda v: core.extra.CircularLinkedList(v),
    "MinHeap": lambda v: core.extra.MinHeap.heapify(v),
    "AVL": lambda v: core.extra.AVL(v),
    "SkipList": lambda v: core.extra.SkipList(v)}


def made_cases(th):
    for n in list(range(0, 14)) + [17, 21, 24, 33, 40, 50, 65, 101, 130]:
        for pattern in ("distinct", "dups", "runs", "one"):
            for src in SOURCES:
                if n > 1 or pattern == "distinct":
                    yield (n, pattern, src)


def run_made(kind, checks=None):
    """Made from n items of every kind of iterable there is."""
    from .props_cross import from_iterable, treap_aux, wrap

    def go(case):
        n, pattern, src = case
        if kind in SEARCH:
            ad = registry.adapter(kind, checks=checks or ("set",))
        else:
            ad = registry.adapter(kind)
        vals = {"distinct": [i * 37 % 131 for i in range(n)],
                "dups": [i * 7 % 5 for i in range(n)],
                "runs": [i // 4 for i in range(n)],
                "one": [3] * n}[pattern]
        want = list(SOURCES[src](vals))
        what = "%s made from %s of %s" % (kind, src, core.show(want))
        o = core.call(from_iterable, kind, SOURCES[src](vals))
        core.expect(what, o, warns=False if len(set(want)) == len(want)
                    or kind in LISTS + HEAPS else None)
        w = wrap(kind, o.value, want)
        if kind == "Treap":
            w.aux = treap_aux(w)
        ad.contents(w.real, w.model, what)
        if src in ("list", "tuple", "generator") and n in (1, 5, 24, 65):
            ad.observe(w)
        for i, op in enumerate((put(kind, 200, 0), take(kind, 200, 0))
                               + ((take(kind, want[n // 2], 0),)
                                  if want and len(want) == n else ())):
            ad.do(w, op)
        ad.contents(w.real, w.model, what + ", then used")
        return (case, n + 3)
    return go


def tasks(kinds, th, checks=None):
    t = []
    for k in kinds:
        if k in LISTS + SEARCH + HEAPS + ("SkipList",):
            t.append(("%s: made from every kind of iterable" % k, "sweep",
                      lambda k=k: (made_cases(th), run_made(k, checks)), 4))
        if k not in TRIES:
            t.append(("%s: numbers of every scale" % k, "sweep",
                      lambda k=k: (scaled_cases(k, th),
                                   run_scaled(k, checks)), 4))
        t.append(("%s: every size" % k, "sweep", lambda k=k: (
            sizes(k, th), run_sizes(k, checks)), 4))
        for h in ("many items", "many operations"):
            t.append(("%s: long histories, %s" % (k, h), "sweep",
                      lambda k=k, h=h: ((
                          c for c in cases(k, th)
                          if (c[0] == "grown") == (h == "many items")),
                          run(k, checks)), 4))
    return t
