"""Properties of the list-like structures (C01-C09)."""
import itertools

from . import core, lists
from .core import call, canon, eq, eqv, expect, extra, fail, get
from .props import register
from .systems import AdapterSystem

INF = float("inf")


# --------------------------------------------------------------------------
# C01-C03: sequences
# --------------------------------------------------------------------------
def big_list_cases(ad, sizes):
    """Every single operation at every index of longer lists."""
    for n in sizes:
        hi = n if not ad.ring else 2 * n + 3
        for how in ("ctor", "end", "front", "mid"):
            yield (n, how, ("observe",))
            for i in range(hi):
                if ad.ring or i <= n:
                    yield (n, how, ("insert", i, -1))
                yield (n, how, ("del", i))
                yield (n, how, ("set", i, -1))
            if not ad.ring:
                yield (n, how, ("insert", n, -1))
            for v in range(n):
                yield (n, how, ("remove", v, True))
                yield (n, how, ("remove", v, False))
            for v in range(3):
                yield (n, how, ("mod", v, True))
                yield (n, how, ("mod", v, False))
            for d in range(0, 2 * n + 2):
                yield (n, how, ("rotate_left", d))
                yield (n, how, ("rotate_right", d))
            yield (n, how, ("extend", tuple(range(100, 100 + n))))
            yield (n, how, ("extend_self",))
            yield (n, how, ("clear",))
            yield (n, how, ("add_front", -1))
            yield (n, how, ("add_end", -1))


def seq_ops(ad, n):
    hi = n + 1 if not ad.ring else 2 * n + 2
    for i in range(hi):
        yield ("del", i)
        yield ("set", i, -1)
        yield ("insert", i, -2)
    for v in range(n):
        yield ("remove", v, True)
        yield ("remove", v, False)
    yield ("remove", -1, True)
    yield ("remove", -2, False)
    yield ("add_front", -3)
    yield ("add_end", -3)
    yield ("remove_front",)
    yield ("remove_end",)
    for d in range(1, n):
        yield ("rotate_left", d)
    yield ("rotate_right", 1)
    yield ("extend", (-4, -5))
    yield ("extend_self",)
    yield ("clear",)


def seq_cases(ad, n, k):
    return ((n,) + c for c in itertools.product(list(seq_ops(ad, n)),
                                                repeat=k))


def run_seq(ad):
    def run(case):
        w = ad.new(tuple(range(case[0])))
        steps = 1
        for op in case[1:]:
            m = len(w.model)
            if op[0] in ("del", "set", "insert") and (
                    not m if ad.ring and op[0] != "insert" else
                    not ad.ring and op[1] > m - (op[0] != "insert")):
                continue
            ad.do(w, op)
            steps += 1
            ad.contents(w.real, w.model, str(case))
            ad.chain(w.real, w.model, str(case))
        ad.do(w, ("add_end", -9))
        ad.contents(w.real, w.model, str(case))
        return (case, steps + 1)
    return run


def build(ad, n, how):
    if how == "ctor":
        return ad.new(tuple(range(n)))
    w = ad.new()
    for i in range(n):
        if how == "end":
            ad.do(w, ("add_end", i))
        elif how == "front":
            ad.do(w, ("add_front", n - 1 - i))
        else:
            # middle-out
            ad.do(w, ("insert", len(w.model) // 2, i))
    return w


def run_big(ad):
    def run(case):
        n, how, op = case
        w = build(ad, n, how)
        steps = n + 1
        if op[0] == "observe":
            ad.observe(w, (-1, n))
        elif op[0] == "mod":
            # duplicates: values modulo 3, adjacent and scattered
            w = ad.new(tuple(i % 3 for i in range(n)) if how != "mid"
                       else tuple(i * 3 // max(1, n) for i in range(n)))
            ad.do(w, ("remove", op[1], op[2]))
            ad.contents(w.real, w.model, str(case))
            ad.chain(w.real, w.model, str(case))
        else:
            ad.do(w, op)
            ad.contents(w.real, w.model, str(case))
            ad.chain(w.real, w.model, str(case))
            # and go on using it
            ad.do(w, ("add_end", -7))
            ad.do(w, ("add_front", -8))
            ad.do(w, ("remove_end",))
            ad.do(w, ("del", len(w.model) // 2))
            ad.contents(w.real, w.model, str(case))
            ad.chain(w.real, w.model, str(case))
            steps += 4
        return (case, steps)
    return run


def drain_cases(ad, sizes):
    for n in sizes:
        for how in ("ctor", "end", "front", "mid"):
            for mode in ad.drains:
                yield (n, how, mode)


def run_drain(ad):
    def run(case):
        n, how, mode = case
        w = build(ad, n, how)
        ad.drain(w, mode)
        for i in range(3):
            ad.do(w, ("add_end", i))
        ad.observe(w)
        return (case, n + 5)
    return run


def every_length(ad, th):
    """Every length of a stretch and then some: every operation at the
    indices where ends, middles and wraps are."""
    for n in list(range(20, 135)) + [200, 255, 256, 257] + (
            [500, 512, 513, 1000, 1001] if th else []):
        at = sorted({0, 1, 2, n // 3, n // 2 - 1, n // 2, n // 2 + 1,
                     n - 2, n - 1})
        for i in at + [n]:
            yield (n, ("insert", i, -1))
            if i < n:
                yield (n, ("del", i))
                yield (n, ("set", i, -1))
                yield (n, ("remove", i, True))
        for op in (("add_front", -1), ("add_end", -1), ("remove_front",),
                   ("remove_end",), ("rotate_left", 1), ("rotate_right", 1),
                   ("rotate_left", n - 1), ("rotate_right", n // 2),
                   ("rotate_left", 3 * n + 2), ("extend", (-4, -5)),
                   ("extend_self",), ("extend", tuple(range(n))),
                   ("clear",)):
            yield (n, op)


def run_length(ad):
    def run(case):
        n, op = case
        w = ad.new(tuple(range(n)))
        ad.do(w, op)
        what = "after %s of %d items" % (op[:2], n)
        ad.contents(w.real, w.model, what)
        ad.chain(w.real, w.model, what)
        for op in (("add_end", -7), ("add_front", -8), ("remove_end",),
                   ("remove_front",)):
            ad.do(w, op)
        ad.contents(w.real, w.model, what)
        ad.chain(w.real, w.model, what)
        return (case, n + 5)
    return run


def sequence_tasks(kind, thorough):
    ad = lists.ListAdapter(kind)
    t = []

    def ex(label, vals, cap, weight, **kw):
        t.append(("%s histories: %s" % (kind, label), "explore",
                  lambda: AdapterSystem("%s %s" % (kind, label),
                                        lists.ListAdapter(kind), (), vals,
                                        cap, **kw), weight))

    ex("2 values, every state of <=%d items" % (10 if thorough else 8), (1, 2),
       10 if thorough else 8, 9, probes=(1, 2, 3))
    ex("3 values, every state of <=%d items" % (7 if thorough else 6),
       ("a", "b", "c"), 7 if thorough else 6, 9, probes=("a", "b", "c", "d"))
    ex("falsy containers", ([], b"", 0.0), 4 if thorough else 3, 4,
       probes=([], b"", 0, "", ()))
    ex("falsy values", (0, ""), 5 if thorough else 4, 4,
       probes=(0, "", False, None))
    ex("equal values of different types", (1, 1.0, True),
       5 if thorough else 4, 6, probes=(1, True, 1.0, 0))
    ex("nested values, equal ones among them", ((0,), (0.0,), [0]),
       4 if thorough else 3, 5, probes=((0,), [0], [False], 0))
    ex("1 value, longer", (7,), 24 if thorough else 16, 6, probes=(7, 8))
    for n in range(1, 11 if thorough else 9):
        k = 3 if n <= (6 if thorough else 4) else 2
        if thorough and n <= 2:
            k = 4
        t.append(("%s every %d operations on %d distinct items" % (
            kind, k, n), "sweep",
            lambda n=n, k=k: (seq_cases(ad, n, k), run_seq(ad)), 6 + k))
    sizes = list(range(0, 20)) + [24, 32] if not thorough else list(
        range(0, 36)) + [64]
    half = len(sizes) // 2
    for part, sz in (("small", sizes[:half]), ("large", sizes[half:])):
        t.append(("%s every operation at every index, %s" % (kind, part),
                  "sweep", lambda sz=sz: (
                      big_list_cases(ad, [x for x in sz if x]),
                      run_big(ad)), 7))
    t.append(("%s: every length" % kind, "sweep", lambda: (
        every_length(ad, thorough), run_length(ad)), 6))
    t.append(("%s draining" % kind, "sweep",
              lambda: (drain_cases(ad, sizes), run_drain(ad))))
    if kind != "CircularLinkedList":
        t.append(("%s every slice" % kind, "sweep", lambda: (
            [(n,) for n in range(0, 12 if thorough else 9)]
            + list(long_slices(thorough)),
            run_slices(ad)), 5))
    return t


def long_slices(th):
    for n in (12, 20, 33, 40, 50, 65, 101) + ((64, 130, 257) if th else ()):
        at = (None, 0, 1, n // 2, n - 1, n, n + 3, -1, -2, -n // 2, -n, -n - 1)
        for a in at:
            for b in at:
                yield (n, a, b)


def run_slices(ad):
    def run(case):
        w = ad.new(tuple(range(case[0])))
        n = case[0]
        if len(case) > 1:
            a, b = case[1:]
            for s in (None, 1, 2, 3, 5, 6, 9, 13, n // 3, n // 2, n - 1, n,
                      n + 1):
                for k in (s, -s if s else None):
                    sl = slice(a, b, k)
                    what = "%s of %d items[%s:%s:%s]" % (ad.kind, n, a, b, k)
                    got = get(what, w.real.__getitem__, sl)
                    ad.contents(got, w.model[sl], what)
                    ad.chain(got, w.model[sl], what)
            ad.contents(w.real, w.model, what)
            return (case, 26)
        ad.observe(w, (), slices="all")
        return (case, (2 * n + 6) ** 2 * 7)
    return run


@register("C01")
def c01(thorough):
    return sequence_tasks("LinkedList", thorough)


@register("C02")
def c02(thorough):
    return sequence_tasks("DoublyLinkedList", thorough)


@register("C03")
def c03(thorough):
    return sequence_tasks("CircularLinkedList", thorough)


# --------------------------------------------------------------------------
# C04: derivations
# --------------------------------------------------------------------------
def src_of(kind):
    return lists.SkipListAdapter() if kind == "SkipList" \
        else lists.ListAdapter(kind)


class PairWorld:
    __slots__ = ("a", "b")


class PairSystem(core.System):
    """Two live lists A and B; every operation on either, every way of making
    one from the other, in any order."""

    def __init__(self, name, ka, kb, vals=(1, 2), cap=3, max_depth=None,
                 muts="all"):
        self.name = name
        self.ads = (src_of(ka), src_of(kb))
        self.vals = vals
        self.cap = cap
        self.max_depth = max_depth
        self.muts = muts

    def start(self):
        return [self.ads[0].new(), self.ads[1].new()]

    def ops(self, w):
        for i in (0, 1):
            ad = self.ads[i]
            if ad.kind == "SkipList":
                ad.TAPES = ((1,), (0, 1))
            for op in ad.mutators(w[i], self.vals, self.cap):
                if op[0] in ("rotate_left", "rotate_right") and (
                        op[1] not in (0, 1, len(w[i].model))):
                    continue
                yield (i,) + op
            n = len(w[i].model)
            j = 1 - i
            same = self.ads[0].kind == self.ads[1].kind
            yield (i, "ctor_from")
            if ad.kind == "SkipList":
                continue
            yield (i, "ctor_pylist")
            if same:
                yield (i, "copy_of")
                yield (i, "reverse_of")
                m = len(w[j].model)
                for d in range(0, m + 1):
                    yield (i, "rotl_of", d)
                    yield (i, "rotr_of", d)
                    yield (i, "left_of", d)
                    yield (i, "right_of", d)
                for d in range(0, n + 1):
                    yield (i, "split_both", d)
                if not ad.ring:
                    for sl in ((None, None, None), (0, 1, None),
                               (1, None, None), (None, None, -1),
                               (None, None, 2), (0, 0, None)):
                        yield (i, "slice_of") + sl
            if self.ads[j].kind != "SkipList" and issubclass(
                    self.ads[j].cls, ad.cls):
                if n + len(w[j].model) <= self.cap:
                    yield (i, "extend_by")
            if 2 * n <= self.cap and n:
                yield (i, "extend_ring")

    def step(self, w, op):
        i, nm = op[0], op[1]
        j = 1 - i
        ad, oad = self.ads[i], self.ads[j]
        src = w[j].real
        m = list(w[j].model)
        what = "A=%s, B=%s: %s.%s%r" % (
            core.show(w[0].model), core.show(w[1].model), "AB"[i], nm, op[2:])

        def put(k, real, model):
            if type(real) is not self.ads[k].cls:
                fail("%s: gives a %s", what, type(real).__name__)
            w[k] = lists.World(real, model, w[k].cfg)

        if nm == "ctor_from":
            put(i, get(what, ad.cls, src),
                sorted(set(m)) if ad.kind == "SkipList" else m)
        elif nm == "ctor_pylist":
            base = list(m)
            put(i, get(what, ad.cls, base), m)
            base.append("later")
            base[:1] = ["gone"]
        elif nm == "copy_of":
            put(i, get(what, src.copy), m)
        elif nm == "reverse_of":
            put(i, get(what, src.reverse), m[::-1])
        elif nm in ("rotl_of", "rotr_of"):
            d = (op[2] if nm == "rotl_of" else -op[2]) % len(m) if m else 0
            f = src.rotate_left if nm == "rotl_of" else src.rotate_right
            put(i, get(what, f, op[2], inplace=False), m[d:] + m[:d])
        elif nm in ("left_of", "right_of"):
            c = op[2] % len(m) if ad.ring and m else op[2]
            l_, r_ = get(what, src.split, op[2])
            put(i, l_ if nm == "left_of" else r_,
                m[:c] if nm == "left_of" else m[c:])
        elif nm == "split_both":
            own = list(w[i].model)
            c = op[2] % len(own) if ad.ring and own else op[2]
            l_, r_ = get(what, w[i].real.split, op[2])
            put(i, l_, own[:c])
            put(j, r_, own[c:])
        elif nm == "slice_of":
            sl = slice(*op[2:5])
            put(i, get(what, src.__getitem__, sl), m[sl])
        elif nm == "extend_by":
            get(what, w[i].real.extend, src)
            w[i].model.extend(m)
        elif nm == "extend_ring":
            # extend by an equal copy, by way of a conversion
            get(what, w[i].real.extend, ad.cls(w[i].real))
            w[i].model.extend(list(w[i].model))
        else:
            nm = ad.do(w[i], (nm,) + op[2:])
        return nm

    def check(self, w):
        for i in (0, 1):
            what = "A=%s, B=%s: %s" % (core.show(w[0].model),
                                       core.show(w[1].model), "AB"[i])
            ad = self.ads[i]
            if ad.kind == "SkipList":
                ad.observe(w[i])
                continue
            ad.contents(w[i].real, w[i].model, what)
            ad.chain(w[i].real, w[i].model, what)

    def key(self, w):
        return (core.canon([w[0].real, w[1].real]), repr(w[0].model),
                repr(w[1].model))


LKINDS = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")


@register("C04", ["aliasing is judged by histories of operations on both "
                  "lists, not by inspecting nodes"])
def c04(th):
    t = []
    for ka in LKINDS:
        for kb in LKINDS + ("SkipList",):
            if LKINDS.index(ka) > (LKINDS + ("SkipList",)).index(kb):
                continue
            cap = 3 if th or ka == kb else 2
            if th and ka == kb:
                cap = 4
            t.append(("%s and %s, every history" % (ka, kb), "explore",
                      lambda ka=ka, kb=kb, cap=cap: PairSystem(
                          "%s/%s" % (ka, kb), ka, kb, (1, 2), cap), 9))
        t.append(("%s twice, distinct items, 3 operations" % ka, "sweep",
                  lambda ka=ka: (derive_cases(ka, th), run_derive(ka)), 8))
        t.append(("%s: longer ones and an operation" % ka, "sweep",
                  lambda ka=ka: (large_derive_cases(ka, th),
                                 run_derive(ka)), 8))
    t.append(("SkipList twice, every history", "explore",
              lambda: PairSystem("SkipList/SkipList", "SkipList", "SkipList",
                                 (1, 2, 3) if th else (1, 2), 3), 9))
    return t


def derivations(ring, n):
    yield ("copy_of",)
    yield ("reverse_of",)
    yield ("ctor_from",)
    yield ("ctor_pylist",)
    for d in range(0, n + 2):
        yield ("rotl_of", d)
        yield ("rotr_of", d)
    for d in range(0, n + 1):
        yield ("left_of", d)
        yield ("right_of", d)
        yield ("split", d)
    if not ring:
        for a in (None, 0, 1, n - 1, -1):
            for b in (None, 1, n, -1):
                for s in (None, 1, 2, -1):
                    yield ("slice_of", a, b, s)
    yield ("extend_by",)


def derive_cases(kind, th):
    ad = lists.ListAdapter(kind)
    for n in range(0, 7 if th else 5):
        for dv in derivations(ad.ring, n):
            for k in ((1, 2) if n <= (3 if th else 2) else (1,)):
                for ops in itertools.product(side_ops(ad, n), repeat=k):
                    yield (n, dv) + ops


def few_derivations(ring, n):
    for x in derivations(ring, n):
        if x[0] in ("rotl_of", "rotr_of", "left_of", "right_of", "split"):
            if x[1] not in (0, 1, n // 2, n - 1, n, n + 1):
                continue
        yield x


def large_derive_cases(kind, th):
    """Every derivation of a longer list, then every kind of operation on
    either side, with its first and its last argument."""
    ad = lists.ListAdapter(kind)
    for n in (6, 7, 8, 9, 12, 17, 24) + ((33,) if th else ()):
        w = ad.new(tuple(range(n)))
        from .large import some_ops
        ops = [op for op in some_ops(ad, w, n) if op[0] != "extend_self"]
        for dv in few_derivations(ad.ring, n):
            for op in ops:
                yield (n, dv, (0,) + op)
                yield (n, dv, (1,) + op)
    for n in (40, 66, 101, 130) + ((200, 257) if th else ()):
        for dv in few_derivations(ad.ring, n):
            if dv[0] == "slice_of" and (dv[1] not in (None, 1) or dv[2] not in
                                        (None, n, -1)):
                continue
            for op in (("add_front", 3), ("add_end", 3), ("remove_front",),
                       ("remove_end",), ("clear",), ("set", n // 2, 77),
                       ("insert", n // 2, 77), ("del", n // 2)):
                yield (n, dv, (0,) + op)
                yield (n, dv, (1,) + op)


def side_ops(ad, n):
    out = []
    for side in (0, 1):
        for op in seq_ops(ad, max(1, n)):
            if op[0] in ("remove", "extend_self") and op[1:2] != (0,):
                continue
            out.append((side,) + op)
    return out


def run_derive(kind):
    ps = PairSystem("x", kind, kind)

    def run(case):
        n, dv = case[0], case[1]
        ad = ps.ads[0]
        w = [ad.new(tuple(range(n))), ad.new((50, 51))]
        if dv[0] == "split":
            ps.step(w, (0, "split_both", dv[1]))
        else:
            ps.step(w, (1,) + dv)
        ps.check(w)
        for op in case[2:]:
            s = op[0]
            m = len(w[s].model)
            if op[1] in ("del", "set", "insert") and (
                    not m if ad.ring and op[1] != "insert" else
                    not ad.ring and op[2] > m - (op[1] != "insert")):
                continue
            ad.do(w[s], op[1:])
            ps.check(w)
        return (case, len(case))
    return run


# --------------------------------------------------------------------------
# C05: comparisons
# --------------------------------------------------------------------------
def ref_le(a, b):
    return len(a) <= len(b) and all(x <= y for x, y in zip(a, b))


def ref_lt(a, b):
    return ref_le(a, b) and (len(a) < len(b) or any(
        x < y for x, y in zip(a, b)))


def cmp_cases(vals, n):
    seqs = [p for k in range(n + 1)
            for p in itertools.product(vals, repeat=k)]
    for a in seqs:
        for b in seqs:
            yield (a, b)


def run_cmp(kind, how, ordered=True):
    ad = lists.ListAdapter(kind)

    def make(x):
        if how == "built":
            return ad.new(x)
        w = ad.new()
        if how == "front":
            for v in reversed(x):
                ad.do(w, ("add_front", v))
        else:
            # grown, then something removed again
            for v in x:
                ad.do(w, ("add_end", v))
                ad.do(w, ("add_end", v))
                ad.do(w, ("remove_end",))
            ad.do(w, ("add_front", 1))
            ad.do(w, ("remove_front",))
        return w

    def run(case):
        a, b = case
        wa, wb = make(a), make(b)
        steps = 0
        for x, y, p, q in ((wa, wb, a, b), (wb, wa, b, a)):
            r, s = x.real, y.real
            w = "%s: %r %%s %r" % (kind, list(p), list(q))
            for sym, fn, want in ((
                    ("==", r.__eq__, list(p) == list(q)),
                    ("!=", r.__ne__, list(p) != list(q))) + (() if not ordered
                                                             else (
                    ("<", r.__lt__, ref_lt(p, q)),
                    ("<=", r.__le__, ref_le(p, q)),
                    (">", r.__gt__, ref_lt(q, p)),
                    (">=", r.__ge__, ref_le(q, p))))):
                eq(w % sym, get(w % sym, fn, s), want)
                steps += 1
        for x in (wa, wb):
            ad.contents(x.real, x.model, "%s after comparing" % kind)
            ad.chain(x.real, x.model, "%s after comparing" % kind)
        if a == b and ordered:
            r = wa.real
            for sym, fn, want in (("==", r.__eq__, True),
                                  ("!=", r.__ne__, False),
                                  ("<", r.__lt__, False),
                                  ("<=", r.__le__, True),
                                  (">", r.__gt__, False),
                                  (">=", r.__ge__, True)):
                eq("%s %r %s itself" % (kind, list(a), sym),
                   get("%s with itself" % kind, fn, r), want)
        return (case, steps)
    return run


@register("C05", ["items within one comparison are mutually comparable"])
def c05(th):
    t = []
    for kind in LKINDS:
        for label, vals, n in (("numbers", (0, 1, 2), 4 if th else 3),
                               ("two numbers", (0, 1), 6 if th else 5),
                               ("texts", ("", "a", "ab"), 3),
                               ("floats and booleans", (-1.5, 0.0, True,
                                                        INF), 3 if th else 2),
                               ("equal numbers of different types",
                                (1, 1.0, True, 2), 3 if th else 2),
                               ("huge numbers", (10 ** 17, 10 ** 17 + 1,
                                                 1e17), 3 if th else 2),
                               ("letters of both cases", ("a", "A", "B"),
                                3 if th else 2),
                               ("nested lists", ([], [0], [0, 1], [1]), 2),
                               ("unordered items", (0, "", "0", (0,), 1j),
                                2)):
            for how in ("built", "front", "mutated"):
                if how != "built" and label not in ("numbers",):
                    continue
                t.append(("%s: all pairs of lists of <=%d %s, %s" % (
                    kind, n, label, how), "sweep",
                    lambda kind=kind, vals=vals, n=n, how=how, label=label: (
                        cmp_cases(vals, n),
                        run_cmp(kind, how, label != "unordered items")), 5))
        t.append(("%s: every pair over long lists" % kind, "sweep",
                  lambda kind=kind: (long_cmp_cases(th),
                                     run_cmp(kind, "built")), 4))
    return t


def long_cmp_cases(th):
    """One differing position, either direction, any two lengths."""
    top = 12 if th else 8
    for n in range(0, top):
        for m in range(0, top):
            base = (5,) * n, (5,) * m
            yield base
            for i in range(min(n, m)):
                for d in (4, 6):
                    yield (base[0][:i] + (d,) + base[0][i + 1:], base[1])
                    for j in range(min(n, m)):
                        yield (base[0][:i] + (d,) + base[0][i + 1:],
                               base[1][:j] + (6,) + base[1][j + 1:])
    for n in range(top, 40 if th else 27):
        for m in (2, n // 2, n - 1, n):
            a, b = (5,) * n, (5,) * m
            yield a, b
            for i in range(m):
                for d in (4, 6):
                    yield a[:i] + (d,) + a[i + 1:], b
                    for j in {0, m // 2, m - 1}:
                        yield (a[:i] + (d,) + a[i + 1:],
                               b[:j] + (6,) + b[j + 1:])
    for n in (33, 41, 50, 65, 80) + ((100, 129, 200, 300) if th else ()):
        for m in (n // 2, n - 1, n):
            a, b = (5,) * n, (5,) * m
            yield a, b
            for i in range(m):
                for d in (4, 6):
                    yield a[:i] + (d,) + a[i + 1:], b
                yield a[:i] + (4,) + a[i + 1:], b[:-1] + (6,)
    for n in (95, 101, 130, 257) + ((400, 1001) if th else ()):
        for m in (n - 1, n):
            a, b = (5,) * n, (5,) * m
            yield a, b
            for i in {0, 1, n // 2, 64, 90, m - 2, m - 1}:
                for d in (4, 6):
                    yield a[:i] + (d,) + a[i + 1:], b
                    yield a[:i] + (d,) + a[i + 1:], b[:-1] + (4,)


# --------------------------------------------------------------------------
# C06-C09
# --------------------------------------------------------------------------
# further item alphabets: falsy, of several types, unhashable, equal but of
# different types
OTHER = ((0, "", False), ((1,), "a\nb", 2.5), ([], {}, [0]), (1, 1.0, True))


def bounded_tasks(mk, vals, caps, th, big, extra_vals=(), note=""):
    t = []
    ad0 = mk()
    for cfg in ad0.configs():
        cap = caps if cfg[0] == INF else 99
        t.append(("%s(%s): every state%s" % (ad0.kind, cfg[0], note),
                  "explore",
                  lambda cfg=cfg, cap=cap: AdapterSystem(
                      "%s(%s)" % (ad0.kind, cfg[0]), mk(), cfg, vals, cap),
                  6 if cfg[0] == INF else 3))
        for ev in extra_vals:
            t.append(("%s(%s): every state over %r" % (ad0.kind, cfg[0], ev),
                      "explore", lambda cfg=cfg, cap=cap, ev=ev:
                      AdapterSystem("%s(%s)" % (ad0.kind, cfg[0]), mk(), cfg,
                                    ev, min(cap, 3)), 2))
    t.append(("%s: larger capacities" % ad0.kind, "sweep",
              lambda: (big_bounded_cases(ad0, big), run_bounded(mk)), 5))
    return t


def big_bounded_cases(ad, big):
    pq = ad.kind == "PriorityQueue"
    for c in range(9 if pq else 19, 34 if pq else 70) if len(big) > 4 else ():
        for i, k in enumerate((c, c + 2, c + 3)):
            yield (c, k, ad.drains[i % len(ad.drains)])
    for c in () if len(big) < 5 else (33, 64, 100, 129) if pq else (
            45, 57, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 1000):
        for cfg in (c, c + 0.4):
            for k in (c - 1, c, c + 1, c + 2, 2 * c):
                yield (cfg, k, ad.drains[0])
        yield (c - 0.4, c + 1, ad.drains[-1])
    for c in big:
        for cfg in (INF, c, c + 0.4, c - 0.4, c + 0.5):
            if cfg < 0:
                continue
            for k in range(0, 2 * c + 3):
                for mode in ad.drains:
                    yield (cfg, k, mode)


PRIORITIES = (lambda i: (i * 7) % 11, lambda i: i, lambda i: -i,
              lambda i: i if i % 2 else -i)


def run_bounded(mk):
    def run(case):
        cfg, k, mode = case
        pq = mk().kind == "PriorityQueue"
        n = 0
        for pr in PRIORITIES if pq else PRIORITIES[:1]:
            ad = mk()
            w = ad.new(cfg)
            ins = {"Stack": ("push",), "Queue": ("enqueue",),
                   "Deque": ("append_left", "append_right"),
                   "PriorityQueue": ("enqueue",)}[ad.kind]
            for i in range(k):
                op = ins[i % len(ins)]
                ad.do(w, (op, pr(i) if pq else i))
                if i % 3 == 0:
                    ad.observe(w)
            ad.observe(w)
            # clearing keeps the capacity
            ad.drain(w, mode)
            for i in range(min(k, 3)):
                ad.do(w, (ins[-1], i))
            ad.do(w, ("clear",))
            for i in range(k):
                ad.do(w, (ins[i % len(ins)], pr(i) if pq else i))
                if len(ins) > 1 and i % 3 == 2:
                    ad.do(w, ("pop_left",))
                if pq and i % 8 == 7:
                    ad.do(w, (("dequeue",), ("dequeue_min",))[i // 8 % 2])
            ad.observe(w)
            n += 3 * k
        return (case, n)
    return run


@register("C06")
def c06(th):
    return bounded_tasks(lists.StackAdapter, (1, 2, 3), 9 if th else 7, th,
                         range(0, 40 if th else 26),
                         OTHER)


@register("C07")
def c07(th):
    return bounded_tasks(lists.QueueAdapter, (1, 2, 3), 9 if th else 7, th,
                         range(0, 36 if th else 24),
                         OTHER) + \
        bounded_tasks(lists.DequeAdapter, (1, 2), 11 if th else 9, th,
                      range(0, 30 if th else 20),
                      OTHER)


@register("C08")
def c08(th):
    t = []
    for prios, cap in (((1, 2, 3), 6 if th else 5), ((-INF, 0, INF), 4),
                       ((0, -2.5), 6), ((100, 101, -1), 4),
                       ((1, 1.0, 2), 4), (core.CLOSE, 4),
                       (core.CLOSE2[:4], 4), (core.CLOSE3, 3)):
        t += bounded_tasks(
            lambda prios=prios: lists.PriorityQueueAdapter(prios), (), cap,
            th, (tuple(range(20 if th else 9)) + (13, 24))
            if prios == (1, 2, 3) else range(3), (), " %r" % (prios,))
    t.append(("PriorityQueue: omitted priorities, every answer", "explore",
              lambda: AdapterSystem("PriorityQueue drawn", DrawnPQ(),
                                    (INF,), (), 4 if th else 3), 6))
    t.append(("PriorityQueue(2): omitted priorities, every answer",
              "explore", lambda: AdapterSystem(
                  "PriorityQueue(2) drawn", DrawnPQ(), (2,), (), 4), 6))
    t.append(("PriorityQueue: items of every type", "sweep", lambda: (
        pq_item_cases(), run_pq_items), 4))
    return t


class DrawnPQ(lists.PriorityQueueAdapter):
    ANSWERS = ((0,), (1,), (50,), (100,))

    def mutators(self, w, vals, cap):
        if len(w.model) < cap or len(w.model) >= w.cfg:
            for a in self.ANSWERS:
                yield ("enqueue", None, a)
            yield ("enqueue", 50)
        yield ("dequeue",)
        yield ("dequeue_min",)

    def item(self, w):
        return lists.PriorityQueueAdapter.item(self, w)


ITEMS = (0, "", False, 1.5, (1, 2), "a\nb", -3, True, "x", 10 ** 30)


def pq_item_cases():
    for items in itertools.permutations(ITEMS, 3):
        for pr in itertools.product((1, 2), repeat=3):
            for mode in ("dequeue", "dequeue_min", "alt"):
                yield (items, pr, mode)


def run_pq_items(case):
    items, pr, mode = case
    ad = lists.PriorityQueueAdapter()
    w = ad.new()
    for it, p in zip(items, pr):
        ad.do(w, ("enqueue_item", p, it))
    ad.observe(w)
    ad.drain(w, mode)
    return (case, 8)


@register("C09", ["coin flips are answered by the explorer: every promotion "
                  "height up to the stated one, at every insertion"])
def c09(th):
    SL = lists.SkipListAdapter
    t = []
    T4 = ((1,), (0, 1), (0, 0, 1), (0, 0, 0, 1))
    for vals, tapes, cap in (
            ((1, 2), T4 + ((0, 0, 0, 0, 1),), 2),
            ((1, 2, 3), T4, 3),
            ((1, 2, 3, 4), T4, 4),
            ((1, 2, 3, 4, 5), T4[:3], 5),
            ((-INF, 0, INF), T4[:3], 3),
            ((1, 1.0, 2.0, 2, 3), T4[:3], 3),
            ((2, 2.5, 3, 2.75), T4[:3] if th else T4[:2], 4),
            ((-INF, -1, 0.5, 10 ** 20), T4[:3] if th else T4[:2], 4),
            (core.CLOSE, T4[:2], 4), (core.CLOSE2, T4[:2], 4),
            (core.CLOSE3, T4[:2], 4)):
        if th and len(vals) == 5:
            tapes = T4
        t.append(("SkipList: every state over %r, promotions up to %d" % (
            vals, len(tapes) - 1), "explore",
            lambda vals=vals, tapes=tapes, cap=cap: AdapterSystem(
                "SkipList %r" % (vals,), SL(tapes), (), vals, cap,
                probes=("x", 2.5, INF, -INF, [1])), 9))
    for n, k in (((6, 3), (8, 2)) if th else ((7, 2),)):
        t.append(("SkipList: every state over %d keys, promotions up to %d" %
                  (n, k - 1), "explore", lambda n=n, k=k: AdapterSystem(
                      "SkipList %d" % n, SL(T4[:k]), (),
                      tuple(range(1, n + 1)), n), 9))
    n = 7 if th else 6
    t.append(("SkipList: every tape of %d insertions, every removal order" %
              n, "sweep", lambda: (skip_cases(n), run_skip), 8))
    t.append(("SkipList: larger lists, every height family", "sweep",
              lambda: (skip_big_cases(th), run_skip_big), 6))
    t.append(("SkipList: construction", "sweep",
              lambda: (skip_ctor_cases(), run_skip_ctor), 5))
    return t


def skip_cases(n):
    for hs in itertools.product(range(3), repeat=n - 1):
        for order in (tuple(range(n - 1)), tuple(range(n - 1))[::-1],
                      tuple(i * (2 if n % 2 == 0 else 5) % (n - 1)
                            for i in range(n - 1))):
            yield (order, hs, "asc")
            yield (order, hs, "desc")
            yield (order, hs, "index")


def tape_of(h):
    return (0,) * h + (1,)


def run_skip(case):
    order, hs, mode = case
    ad = lists.SkipListAdapter()
    w = ad.new()
    for v, h in zip(order, hs):
        ad.do(w, ("insert", v, tape_of(h)))
    ad.observe(w, (-1, 0.5, 99))
    while w.model:
        if mode == "asc":
            ad.do(w, ("remove", w.model[0]))
        elif mode == "desc":
            ad.do(w, ("remove", w.model[-1]))
        else:
            ad.do(w, ("del", len(w.model) // 2))
        ad.observe(w)
    ad.do(w, ("insert", 7, (0, 1)))
    ad.observe(w)
    return (case, 2 * len(order) + 1)


HEIGHTS = {
    "flat": lambda i: 0,
    "ruler": lambda i: ((i + 1) & -(i + 1)).bit_length() - 1,
    "alternate": lambda i: i % 2,
    "tower": lambda i: 6 if i == 3 else 0,
    "rising": lambda i: i // 3,
    "mixed": lambda i: (i * 5 + 1) % 4,
}


def skip_big_cases(th):
    for n in list(range(1, 18)) + [33] + ([64, 100] if th else []):
        for h in sorted(HEIGHTS):
            for order in ("asc", "desc", "zig", "stride"):
                for d in ("each", "at", "asc", "desc", "mid"):
                    yield (n, h, order, d)


def run_skip_big(case):
    n, h, order, d = case
    base = list(range(n))
    if order == "desc":
        base.reverse()
    elif order == "zig":
        base = base[::2] + base[1::2][::-1]
    elif order == "stride":
        k = next(k for k in (7, 5, 3, 1) if n % k or k == 1)
        base = [i * k % n for i in range(n)]
    ad = lists.SkipListAdapter()

    def make():
        w = ad.new()
        for i, v in enumerate(base):
            ad.do(w, ("insert", v, tape_of(HEIGHTS[h](i))))
        return w

    w = make()
    ad.observe(w, (-1, n, 0.5))
    steps = n
    if d in ("each", "at"):
        for v in range(n) if n < 18 else (0, 1, n // 2, n - 2, n - 1):
            w = make()
            ad.do(w, ("remove" if d == "each" else "del", v))
            ad.observe(w)
            ad.do(w, ("insert", v, tape_of(1)))
            ad.observe(w)
            steps += n + 2
    else:
        while w.model:
            m = w.model
            ad.do(w, ("remove", m[0] if d == "asc" else m[-1]
                      if d == "desc" else m[len(m) // 2]))
            steps += 1
            if len(m) % 3 == 0:
                ad.observe(w)
        ad.observe(w)
    return (case, steps)


def skip_ctor_cases():
    for k in range(0, 5):
        for p in itertools.product((1, 2, 3, -1.5), repeat=k):
            yield (p,)


def run_skip_ctor(case):
    p = case[0]
    ad = lists.SkipListAdapter()
    for src in (list(p), tuple(p), iter(p), set(p)):
        o = call(extra.SkipList, src)
        expect("SkipList(%r)" % (p,), o)
        ad.observe(lists.World(o.value, sorted(set(p))))
    return (case, 4 * len(p) + 1)
