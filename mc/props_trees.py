"""Properties of search trees and heaps (C10-C15)."""
import itertools

from . import core, shape as sh, trees
from .core import call, eq, expect, extra, fail, get
from .props import register
from .systems import AdapterSystem

INF = float("inf")
BA = trees.BSTAdapter
HA = trees.HeapAdapter


# --------------------------------------------------------------------------
# families of insertion orders for larger trees
# --------------------------------------------------------------------------
def orders(n):
    base = list(range(n))
    out = [base, base[::-1]]
    zig = []
    lo, hi = 0, n - 1
    while lo <= hi:
        zig.append(lo)
        lo += 1
        if lo <= hi:
            zig.append(hi)
            hi -= 1
    out += [zig, zig[::-1]]
    out.append(sorted(base, key=lambda i: int(format(i, "08b")[::-1], 2)))
    for k in (3, 5, 7, 11):
        if n % k:
            out.append([i * k % n for i in range(n)])
    out.append(base[n // 2:] + base[:n // 2])
    out.append([x for p in zip(base[n // 2:], base[:n // 2]) for x in p]
               + ([base[-1]] if n % 2 else []))

    def mids(a):
        if not a:
            return []
        k = len(a) // 2
        rows, q = [], [a]
        while q:
            nxt = []
            for x in q:
                if x:
                    c = len(x) // 2
                    rows.append(x[c])
                    nxt += [x[:c], x[c + 1:]]
            q = nxt
        return rows
    out.append(mids(base))
    uniq = []
    for o in out:
        if o not in uniq:
            uniq.append(o)
    return uniq


def big_cases(sizes, drains, singles=True):
    for n in sizes:
        for oi in range(len(orders(n))):
            if singles:
                for i in range(n):
                    yield (n, oi, "remove", i)
            for d in drains:
                yield (n, oi, d, 0)


def drain_order(n, mode, order):
    base = list(range(n))
    if mode == "min":
        return base
    if mode == "max":
        return base[::-1]
    if mode == "same":
        return order
    if mode == "rev":
        return order[::-1]
    if mode == "mid":
        return sorted(base, key=lambda i: abs(i - n // 2))
    if mode == "out":
        return sorted(base, key=lambda i: -abs(i - n // 2))
    if mode == "evens":
        return base[::2] + base[1::2]
    if mode == "stride":
        k = next(k for k in (7, 5, 3, 11, 13, 1) if n % k or n == 1)
        return [i * k % n for i in range(n)]
    raise core.HarnessError(mode)


DRAINS = ("min", "max", "same", "rev", "mid", "out", "evens", "stride")


def run_big(kind, checks, prio=None):
    def run(case):
        n, oi, mode, i = case
        ad = BA(kind, checks)
        order = orders(n)[oi]
        w = ad.new()
        steps = 0
        for k, v in enumerate(order):
            ad.do(w, ("insv", v) if prio is None else
                  ("insv", v, prio(k, v, n)))
            steps += 1
            if mode == "remove" and i == 0 and k % 3 == 0:
                ad.observe(w)
                w = rebuild(ad, order[:k + 1], prio, n)
        if mode == "remove":
            ad.do(w, ("remv", order[i]))
            steps += 1
            light(ad, w)
            ad.do(w, ("insv", order[i]) if prio is None else
                  ("insv", order[i], prio(i, order[i], n)))
            light(ad, w)
        else:
            for v in drain_order(n, mode, order):
                ad.do(w, ("remv", v))
                steps += 1
                light(ad, w)
            ad.do(w, ("insv", 1) if prio is None else ("insv", 1, 1))
            ad.observe(w)
        return (case, steps)
    return run


def rebuild(ad, vals, prio, n):
    w = ad.new()
    for k, v in enumerate(vals):
        ad.do(w, ("insv", v) if prio is None else ("insv", v, prio(k, v, n)))
    return w


def light(ad, w):
    """Invariants without the quadratic membership part."""
    save = ad.checks
    ad.checks = tuple(c for c in save if c not in ("set", "measure"))
    try:
        ad.observe(w)
    finally:
        ad.checks = save


PRIOS = {
    "rising": lambda k, v, n: v,
    "falling": lambda k, v, n: -v,
    "scattered": lambda k, v, n: (v * 7 + 3) % 11,
    "insertion": lambda k, v, n: k,
}


def tree_tasks(kind, checks, ranked_cap, fixed, sizes, w=5, prios=(1, 2, 3),
               singles=True, drains=DRAINS):
    t = []
    t.append(("%s: every reachable shape of <=%d keys" % (kind, ranked_cap),
              "explore", lambda: AdapterSystem(
                  kind + " shapes", BA(kind, checks, prios), (), (),
                  ranked_cap), w + 4))
    for vals in fixed:
        t.append(("%s: every state over keys %s" % (kind, list(vals)),
                  "explore", lambda vals=vals: AdapterSystem(
                      kind + " over " + repr(vals),
                      BA(kind, checks, prios), (), vals, len(vals),
                      probes=("x", None, 1.5, [1])), w + 2))
    for part, sz in chunks(sizes):
        if kind == "Treap":
            for pn in sorted(PRIOS):
                t.append(("%s: families of %s keys, %s priorities" % (
                    kind, part, pn), "sweep", lambda sz=sz, pn=pn: (
                        big_cases(sz, drains, singles),
                        run_big(kind, checks, PRIOS[pn])), w + 1))
        else:
            t.append(("%s: families of %s keys" % (kind, part), "sweep",
                      lambda sz=sz: (big_cases(sz, drains, singles),
                                     run_big(kind, checks)), w + 1))
    return t


def chunks(sizes):
    out = []
    for s in sizes:
        s = list(s) if not isinstance(s, int) else [s]
        out.append(("%d" % s[0] if len(s) == 1 else "%d..%d" % (s[0], s[-1]),
                    s))
    return out


TYPED = (1, 1.0, 2.0, 2, 3)
UNUSUAL = [TYPED, core.CLOSE, core.CLOSE2, core.CLOSE3, core.TINY, core.HUGE]
MIX = (-2, 0, 0.5, 3, 10 ** 9)


@register("C10", ["shapes deeper than the interpreter's recursion limit "
                  "(about 1000 levels) are outside the bound",
                  "BST.invert() is not an insertion or removal and is not "
                  "part of the histories"])
def c10(th):
    t = []
    ck = ("set",)
    caps = dict(BST=9, AVL=13, RedBlackTree=11, SplayTree=7, Treap=5)
    if th:
        caps = dict(BST=10, AVL=15, RedBlackTree=13, SplayTree=8, Treap=6)
    for kind in trees.SEARCH_TREES:
        fixed = [(1, 2, 3, 4, 5, 6) if kind != "Treap" else (1, 2, 3, 4),
                 MIX]
        if th:
            fixed[0] = tuple(range(1, 8)) if kind != "Treap" else (1, 2, 3, 4, 5)
        if kind == "Treap":
            fixed[1] = MIX if th else MIX[:4]
        fixed.append((1, 1.0, 2.0, 2, 3) if kind != "Treap"
                     else (1, 1.0, 2.0, 2))
        fixed += [core.CLOSE, core.CLOSE2[:4] if kind == "Treap"
                  else core.CLOSE2,
                  core.CLOSE3[:4] if kind == "Treap" else core.CLOSE3]
        if kind != "Treap":
            few = 7 if th or kind in ("AVL", "RedBlackTree") else 6
            fixed += [core.TINY[:few], core.HUGE[:few]]
        t += tree_tasks(kind, ck, caps[kind], fixed,
                        [range(1, 20), (24, 31, 40)] if not th else
                        [range(1, 20), range(20, 34), (64,), (100,)])
    t.append(("construction from every order", "sweep", lambda: (
        ctor_cases(8 if th else 7), run_ctor(ck)), 9))
    return t


def ctor_cases(n):
    for kind in trees.SEARCH_TREES:
        for k in range(n + 1):
            for p in itertools.permutations(range(k)):
                yield (kind, p, "list" if k % 2 else "tuple")
        for p in itertools.product(range(3), repeat=4):
            yield (kind, p, "generator")


def run_ctor(ck):
    def run(case):
        kind, p, how = case
        ad = BA(kind, ck)
        src = list(p) if how == "list" else tuple(p) if how == "tuple" \
            else (x for x in p)
        o = call(ad.cls, src)
        what = "%s(%r)" % (kind, p)
        expect(what, o)
        w = trees.World(o.value, sorted(set(p)))
        w.aux = {}
        ad.observe(w)
        return (case, len(p) + 1)
    return run


@register("C11", ["shapes deeper than the recursion limit are outside the "
                  "bound"])
def c11(th):
    ck = ("avl",)
    return tree_tasks("AVL", ck, 16 if th else 13,
                      [tuple(range(1, 9)) if not th else
                       tuple(range(1, 11))] + UNUSUAL,
                      [range(1, 20), (20, 21, 22, 23), (24, 26, 28),
                       (31, 32), (33,), (40,), (54,)]
                      + ([(64,), (88,), (100,), (128,)] if th else [])) + [
        ("AVL: every insertion order of <=%d keys" % (9 if th else 8),
         "sweep", lambda: (perm_cases(9 if th else 8), run_perm("AVL", ck)),
         9)]


def perm_cases(n):
    return (p for p in itertools.permutations(range(n)))


def run_perm(kind, ck):
    def run(case):
        ad = BA(kind, ck)
        w = ad.new()
        for v in case:
            ad.do(w, ("insv", v))
            light(ad, w)
        return (case, len(case))
    return run


@register("C12", ["shapes deeper than the recursion limit are outside the "
                  "bound"])
def c12(th):
    ck = ("rb",)
    return tree_tasks("RedBlackTree", ck, 14 if th else 11,
                      [tuple(range(1, 8)) if not th else
                       tuple(range(1, 10))] + UNUSUAL,
                      [range(1, 20), (20, 21, 22, 23), (24, 26, 28),
                       (31, 32), (33,), (40,), (54,)]
                      + ([(64,), (88,), (100,), (128,)] if th else [])) + [
        ("RedBlackTree: every insertion order of <=%d keys" % (9 if th else 8),
         "sweep", lambda: (perm_cases(9 if th else 8),
                           run_perm("RedBlackTree", ck)), 9)]


@register("C13", ["shapes deeper than the recursion limit are outside the "
                  "bound"])
def c13(th):
    ck = ("splay",)
    t = tree_tasks("SplayTree", ck, 9 if th else 8,
                   [tuple(range(1, 8)) if th else tuple(range(1, 7)), MIX]
                   + [u[:7 if th else 6] for u in UNUSUAL],
                   [range(1, 20), range(20, 28), (31, 40)] + ([(64,), (100,)] if th else []))
    t.append(("SplayTree: every pair of accesses to larger trees", "sweep",
              lambda: (splay_cases(tuple(range(6, 18)) + (24,) if not th else
                                   tuple(range(6, 33)) + (48,)), run_splay), 6))
    return t


def splay_cases(sizes):
    for n in sizes:
        for oi in range(len(orders(n))):
            for i in range(n):
                yield (n, oi, i)


def run_splay(case):
    n, oi, i = case
    ad = BA("SplayTree", ("splay",))
    w = ad.new()
    for v in orders(n)[oi]:
        ad.do(w, ("insv", v))
    ad.do(w, ("hasv", i))
    for v in (i - 0.5, (i * 5 + 2) % n, n + 1, -1, i):
        ad.do(w, ("hasv", v))
    ad.do(w, ("insv", i))
    ad.do(w, ("insv", i + 0.25))
    ad.observe(w)
    return (case, n + 9)


@register("C14", ["'the same seed and insertions' means building one treap "
                  "after the other: the seed re-seeds the module-wide "
                  "random source"])
def c14(th):
    ck = ("treap",)
    t = []
    for prios, cap in (((1, 2, 3), 6),
                       ((-3, 0, 2.5, 7), 5),
                       ((-INF, -1, INF), 5 if th else 4),
                       ((1, 1.25, 1.5), 5 if th else 4),
                       ((1, 1.0, 2), 4 if th else 3),
                       ((10 ** 17, 10 ** 17 + 1, 1e308), 5 if th else 4),
                       (core.CLOSE[1:], 4), (core.CLOSE2[:3], 4),
                       (core.CLOSE3[:4], 4),
                       ((10 ** 20, 10 ** 20 + 1, INF), 4),
                       (core.TINY[:3], 4), ((-INF, -10 ** 20, -1e300), 4),
                       ((5,), 10 if th else 9)):
        t.append(("Treap: every state of <=%d keys with priorities %s" % (
            cap, list(prios)), "explore", lambda p=prios, c=cap:
            AdapterSystem("Treap priorities %r" % (p,), BA("Treap", ck, p),
                          (), (), c), 9))
    t.append(("Treap: every insertion order with distinct priorities",
              "sweep", lambda: (distinct_cases(5 if not th else 6),
                                run_distinct), 9))
    t.append(("Treap: drawn priorities, every answer", "explore",
              lambda: AdapterSystem(
                  "Treap drawn", DrawnTreap(), (), (), 4 if th else 3), 7))
    t.append(("Treap: seeds", "sweep", lambda: (
        [(s, n, how) for s in (0, 1, 2, 7, 42, 123456789, "text", -5, 1.5)
         for n in range(1, 12) for how in ("ctor", "insert")],
        run_seed)))
    for part, sz in chunks([range(1, 20), (24, 31)] + (
            [(40,), (64,)] if th else [])):
        for pn in sorted(PRIOS):
            t.append(("Treap: families of %s keys, %s priorities" % (
                part, pn), "sweep", lambda sz=sz, pn=pn: (
                    big_cases(sz, DRAINS),
                    run_big("Treap", ck, PRIOS[pn])), 6))
    return t


class DrawnTreap(BA):
    """Every insertion omits the priority; the explorer answers the draw."""

    def __init__(self):
        BA.__init__(self, "Treap", ("treap",), ())

    ANSWERS = ((0,), (1,), (50,), (100,))

    def mutators(self, w, vals, cap):
        m = w.model
        if len(m) < cap:
            for g in range(len(m) + 1):
                for a in self.ANSWERS:
                    yield ("ins", g, "draw", a)
        for i in range(len(m)):
            yield ("rem", i)
            yield ("dup", i)


def distinct_cases(n):
    """All insertion orders x all priority orders x all removals."""
    for k in range(1, n + 1):
        for order in itertools.permutations(range(k)):
            for pr in itertools.permutations(range(k)):
                yield (order, pr)


def run_distinct(case):
    order, pr = case
    steps = 0
    ad = BA("Treap", ("treap",))
    for d in range(-1, len(order)):
        if d >= 0 and len(order) > 4 and d % 2:
            continue
        w = ad.new()
        for v in order:
            ad.do(w, ("insv", v, pr[v]))
            steps += 1
        if d >= 0:
            ad.do(w, ("remv", d))
            steps += 1
        light(ad, w)
    return (case, steps)


def run_seed(case):
    seed, n, how = case
    core.TAPE.mode = "pass"
    got = []
    for _ in range(3):
        if how == "ctor":
            t = get("Treap(seed)", extra.Treap, list(range(n)), seed=seed)
        else:
            t = get("Treap(seed)", extra.Treap, seed=seed)
            for v in range(n):
                get("insert", t.insert, v)
        nodes = sh.binary_nodes(t._root)
        for x in nodes:
            p = x.get_priority()
            if type(p) is not int or not 0 <= p <= 100:
                fail("drawn priority is %r", p)
        got.append((sh.binary_shape(t._root, n),
                    [x.get_priority() for x in nodes]))
    if got[0] != got[1] or got[0] != got[2]:
        fail("Treap with seed %r and the same %d insertions: %s, then %s",
             seed, n, got[0], got[1])
    return (repr((case, got[0])).encode()[:4000], 3 * n)


# --------------------------------------------------------------------------
class DistinctHeap(HA):
    dups = False


@register("C15")
def c15(th):
    t = []
    for kind in ("MinHeap", "MaxHeap"):
        t.append(("%s: every arrangement of <=%d numbers with repeats" % (
            kind, 7 if th else 6), "explore", lambda k=kind: AdapterSystem(
                k + " arrangements", HA(k), (), (), 7 if th else 6), 9))
        t.append(("%s: every arrangement of <=%d distinct numbers" % (
            kind, 10 if th else 9), "explore", lambda k=kind: AdapterSystem(
                k + " distinct", DistinctHeap(k), (), (), 10 if th else 9),
            9))
        t.append(("%s: every state over -inf, 0, inf" % kind, "explore",
                  lambda k=kind: AdapterSystem(
                      k + " infinities", HA(k), (), (-INF, 0, INF), 6), 5))
        t.append(("%s: every state over 1, 1.0, 2.0" % kind, "explore",
                  lambda k=kind: AdapterSystem(
                      k + " equal numbers", HA(k), (), (1, 1.0, 2.0),
                      6 if th else 5), 5))
        for nums in (core.CLOSE, core.CLOSE2, core.CLOSE3):
            t.append(("%s: every state over %r" % (kind, nums), "explore",
                      lambda k=kind, nums=nums: AdapterSystem(
                          k + " close numbers", HA(k), (), nums,
                          5 if th else 4), 5))
        t.append(("%s: every state over 1, 2" % kind, "explore",
                  lambda k=kind: AdapterSystem(
                      k + " two values", HA(k), (), (1, 2), 11 if th else 9,
                      ), 6))
        t.append(("%s: heapify every sequence" % kind, "sweep",
                  lambda k=kind: (heapify_cases(8 if th else 7),
                                  run_heapify(k)), 7))
        t.append(("%s: families of larger heaps" % kind, "sweep",
                  lambda k=kind: (heap_big_cases(
                      list(range(1, 50)) + [63, 64, 65, 100] if th else
                      list(range(1, 34))), run_heap_big(k)), 7))
    return t


def heapify_cases(n):
    for k in range(n + 1):
        for p in itertools.product(range(min(k, 4) or 1), repeat=k):
            yield (p, k % 2)
    for p in itertools.permutations(range(7)):
        yield (p, 1)


def run_heapify(kind):
    def run(case):
        p, aslist = case
        ad = HA(kind)
        w = ad.new(list(p) if aslist else p)
        a = ad.contents(w.real, w.model, kind)
        for i in range(1, len(a)):
            q = a[(i - 1) // 2]
            if (a[i] < q) if ad.low else (a[i] > q):
                fail("%s.heapify(%r): %r at %d is beyond its parent %r",
                     kind, p, a[i], i, q)
        for m in ("remove_min", "remove_max")[aslist:aslist + 1]:
            while w.model:
                x = w.real.get_min() if m == "remove_min" \
                    else w.real.get_max()
                eq("%s.heapify(%r) draining: next" % (kind, p), x,
                   w.model[0 if m == "remove_min" else -1])
                ad.do(w, (m,))
                ad.contents(w.real, w.model, kind)
        return (case, 2 * len(p) + 1)
    return run


def heap_big_cases(sizes):
    for n in sizes:
        for oi in range(len(orders(n))):
            for div in (1, 2, 3):
                for d in ("remove_min", "remove_max", "mid", "alt"):
                    yield (n, oi, div, d)
                if n < 33:
                    yield (n, oi, div, "each")


def run_heap_big(kind):
    def run(case):
        n, oi, div, d = case
        ad = HA(kind)
        vals = [v // div for v in orders(n)[oi]]
        if d == "each":
            for v in sorted(set(vals)):
                w = ad.new(vals)
                ad.do(w, ("remv", v))
                ad.observe(w)
            return (case, len(vals) ** 2)
        w = ad.new(vals)
        i = 0
        while w.model:
            if d == "alt":
                ad.do(w, ("remove_min",) if i % 2 else ("remove_max",))
            elif d == "mid":
                ad.do(w, ("remv", w.model[len(w.model) // 2]))
            else:
                ad.do(w, (d,))
            i += 1
            if i % 4 == 1:
                ad.observe(w)
            else:
                ad.contents(w.real, w.model, kind)
        return (case, 2 * n)
    return run


@register("C27", ["shapes deeper than the recursion limit are outside the "
                  "bound"])
def c27(th):
    t = []
    caps = dict(BST=9, AVL=13, RedBlackTree=12, SplayTree=8, Treap=6)
    if th:
        caps = dict(BST=10, AVL=16, RedBlackTree=14, SplayTree=9, Treap=6)
    for kind in trees.SEARCH_TREES:
        fixed = [(1, 2, 3, 4, 5, 6) if kind != "Treap" else (1, 2, 3, 4)]
        if th:
            fixed = [tuple(range(1, 8)) if kind != "Treap" else (1, 2, 3, 4)]
        t += tree_tasks(kind, ("links",), caps[kind], fixed,
                        [range(1, 20), (24, 31)] if not th else
                        [range(1, 20), (31, 32), (33, 40), (64,)])
    return t
