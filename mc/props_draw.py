"""C24: printed drawings."""
import itertools

from . import core, drawings, lists, registry, shape as sh, statics, tries
from . import trees
from .core import extra, get
from .props import register
from .registry import CAPPED, HEAPS, LISTS, SEARCH, TRIES
from .systems import AdapterSystem
from .lists import World

INF = float("inf")


class DrawSystem(AdapterSystem):
    """Every reachable state is drawn and the drawing is judged."""

    show_priority = False

    def start(self):
        if self.show_priority:
            switch()
        return AdapterSystem.start(self)

    def check(self, w):
        drawings.check(self.ad, w)


def switch():
    extra.PriorityQueue.SHOW_PRIORITY = True
    extra.Treap.SHOW_PRIORITY = True


def system(name, show, *a, **k):
    s = DrawSystem(name, *a, **k)
    s.show_priority = show
    return s


# ---- list-like: every sequence of items of different widths ----------------
WIDE = (7, "", "seven w", (1, "x"), -12.5)
WIDTHS = ("", "x", "four", "a much longer item here")
BREAKS = ("x\ny", "\n", "\\n", "a\nb\nc")


def seq_cases(th):
    for n in range(0, 6 if th else 5):
        for t in itertools.product(WIDTHS, repeat=n):
            yield t
    for n in range(1, 4 if th else 3):
        for t in itertools.product(WIDE, repeat=n):
            yield t
        for t in itertools.product(BREAKS, repeat=n):
            yield t
    for n in (7, 12, 25, 60):
        yield tuple(i * i for i in range(n))
        yield tuple("x" * (i % 5) for i in range(n))
        yield tuple(10 ** (i % 12) for i in range(n))
    for x in (True, False, 0, None.__class__.__name__, [], {}, 1e300, INF,
              -INF, 10 ** 30, frozenset(), ("a", ["b"])):
        yield (x,)
        yield (x, 1, x)


def draw_lists(items):
    n = 0
    for kind in LISTS:
        ad = registry.adapter(kind)
        w = ad.new(items)
        drawings.check(ad, w)
        for x in items[:1]:
            ad.do(w, ("remove_front",))
            drawings.check(ad, w)
        n += 2
    for kind, put in (("Stack", ("push",)), ("Queue", ("enqueue",)),
                      ("Deque", ("append_left",)),
                      ("Deque", ("append_right",)),
                      ("PriorityQueue", ("enqueue_item",))):
        for cap in (INF, max(1, len(items) - 1)):
            if kind == "Stack" and cap < len(items):
                continue
            ad = registry.adapter(kind)
            w = ad.new(cap)
            for i, x in enumerate(items):
                ad.do(w, put + ((10 ** (i % 4), x)
                                if kind == "PriorityQueue" else (x,)))
            drawings.check(ad, w)
            n += 1
            if kind == "PriorityQueue":
                switch()
                drawings.check(ad, w)
                extra.PriorityQueue.SHOW_PRIORITY = False
                drawings.check(ad, w)
    return (("seq", items), n)


# ---- skip lists ------------------------------------------------------------
NUMS = (-INF, -3, 0, 1.5, 20, 10 ** 9, INF)


def skip_cases(th):
    hs = (0, 1, 2)
    for k in range(0, 5 if th else 4):
        for pick in itertools.combinations(NUMS, k):
            for heights in itertools.product(hs, repeat=k):
                yield pick, heights
    for n in (8, 20):
        yield tuple(range(n)), tuple(i % 4 for i in range(n))
        yield tuple(10 ** i for i in range(n)), tuple(
            (i * 7) % 3 for i in range(n))


def draw_skip(case):
    pick, heights = case
    ad = lists.SkipListAdapter()
    w = ad.new()
    for x, h in zip(pick, heights):
        ad.do(w, ("insert", x, (0,) * h + (1,)))
    drawings.check(ad, w)
    return (case, len(pick) + 1)


# ---- binary drawings: every shape with labels of every mix of widths -------
SHORT, LONG = "5", "123456"


def shape_cases(th):
    for n in range(0, 7 if not th else 8):
        for s in sh.binary_shapes(n):
            for ws in itertools.product((1, 6), repeat=n):
                yield s, ws
    for n in range(1, 6 if not th else 7):
        for s in sh.binary_shapes(n):
            for ws in itertools.product((1, 2, 5), repeat=n):
                yield s, ws
    for n in range(1, 5):
        for s in sh.binary_shapes(n):
            for ws in itertools.product((1, 20, 23, 64), repeat=n):
                yield s, ws
    for n in range(7, 11 if th else 9):
        for s in sh.binary_shapes(n):
            yield s, tuple(1 + (i * 3) % 5 for i in range(n))
            yield s, (1,) * n


def widths_to_labels(ws):
    return [chr(97 + i % 26) * w for i, w in enumerate(ws)]


def draw_shape(case):
    s, ws = case
    full = sh.label(s, widths_to_labels(ws)) if s is not None else None
    t = statics.build_binary(full)
    drawings.check_binary(t, "BinaryTree %s" % core.show(full),
                          drawings.plain)
    # a search tree of the same shape whose numbers have these widths
    if s is not None and max(ws) < 7:
        keys = {1: lambda i: i, 2: lambda i: 10 + i,
                3: lambda i: 100 + i, 4: lambda i: i + .25,
                5: lambda i: i + .125, 6: lambda i: i + .0625}
        base = [keys[w](i) if w not in (2, 3) else i + .5
                for i, w in enumerate(ws)]
        lab = sh.label(s, list(range(len(ws))))
        order = sh.preorder(rank_inorder(lab))
        for kind in ("BST", "Treap"):
            ad = trees.BSTAdapter(kind)
            w = ad.new()
            n = len(order)
            for d, i in enumerate(order):
                ad.do(w, ("insv", base[i], 10 ** (n - d))
                      if kind == "Treap" else ("insv", base[i]))
            drawings.check(ad, w)
            if kind == "Treap":
                switch()
                drawings.check(ad, w)
    return (case, len(ws) + 1)


def rank_inorder(s):
    """The same shape with nodes numbered in in-order."""
    it = iter(range(sh.size(s)))

    def go(x):
        if x is None:
            return None
        left = go(x[1])
        i = next(it)
        return (i, left, go(x[2]))
    return go(s)


def heap_cases(th):
    for n in range(0, 9 if th else 8):
        for ws in itertools.product((1, 6), repeat=n):
            yield ws
    for n in (9, 15, 16, 31, 40):
        yield tuple(1 + (i * 3) % 5 for i in range(n))
        yield (1,) * n


def draw_heap(ws):
    vals = [10 ** (w - 1) + i for i, w in enumerate(ws)]
    for kind in HEAPS:
        ad = registry.adapter(kind)
        drawings.check(ad, ad.new(vals))
        w = ad.new()
        for v in vals[::-1]:
            ad.do(w, ("insv", v))
        drawings.check(ad, w)
    return (ws, len(ws) * 2)


# ---- general drawings ------------------------------------------------------
def general_cases(th):
    for n in range(0, 9 if th else 8):
        for g in ([None] if n == 0 else sh.general_shapes(n)):
            yield g, tuple(1 + (i * 3) % 5 for i in range(n))
    for n in range(1, 6 if th else 5):
        for g in sh.general_shapes(n):
            for ws in itertools.product((0, 3), repeat=n):
                yield g, ws
    for n in range(1, 4):
        for g in sh.general_shapes(n):
            for ws in itertools.product((1, 24, 70), repeat=n):
                yield g, ws


def draw_general(case):
    g, ws = case
    full = sh.glabel(g, widths_to_labels(ws)) if g is not None else None
    t = statics.build_general(full)
    drawings.check_general(t, "Tree %s" % core.show(full), drawings.plain)
    return (case, len(ws) + 1)


ODD = (" a ", "  ", "a  b", " ", "\t", "--", "-- ", "└─ x", "│ ", "None", "[]",
       "'q'", '"', "\\", "%s", "{}", "é", "e\u0301", "日本", "😀", "\u200b",
       "0", 0, -0.0, 1.0, True, False, (), (1,), [], [1, [2]], {}, {"k": 1},
       1e300, 1e-7, INF, -INF, 10 ** 40, b"x", frozenset((1,)), 2 + 3j,
       range(3), Ellipsis)


def odd_cases(th):
    for x in ODD:
        for g in sh.general_shapes(1):
            yield g, (x,)
        for g in sh.general_shapes(3):
            yield g, (x, "m", x)
            yield g, ("m", x, "m")
    for x, y in itertools.product(ODD, repeat=2):
        for g in sh.general_shapes(2):
            yield g, (x, y)


def draw_odd(case):
    g, labels = case
    full = sh.glabel(g, list(labels))
    t = statics.build_general(full)
    drawings.check_general(t, "Tree %s" % core.show(full), drawings.plain)
    n = 1
    if len(labels) < 3:
        texts = [x if type(x) is str else repr(x) for x in labels]
        if all(x.strip() for x in texts):
            draw_words(tuple(dict.fromkeys(texts)))
            n += 6
        if type(labels[0]) is str and labels[0].strip():
            n += draw_text(labels[0])[1]
    if len(labels) == 2:
        n += draw_lists(tuple(labels))[1]
    return (core.show(case), n + len(labels))


PRECISE = (0.1 + 0.2, -1234567.890625, 1e-300, 10 ** 40, -5e-324, 1e22, 7,
           -0.0, 123456789012, INF, -INF)


def precise_cases(th):
    for n in (1, 2, 3, 5, 8, len(PRECISE)):
        for k in range(len(PRECISE)):
            yield tuple((PRECISE * 2)[k:k + n])
    for n in (12, 30, 45, 60, 90):
        yield tuple(range(n))
        yield tuple(range(n, 0, -1))
    for n in (30, 100, 130, 257):
        yield tuple(i * 37 % 1031 - 500 for i in range(n))


def draw_precise(vals):
    """Numbers with long texts, and structures of many lines."""
    n = 0
    for kind in SEARCH + HEAPS + ("SkipList", "PriorityQueue"):
        if kind in ("BST", "SplayTree") and n > 60:
            continue
        ad = registry.adapter(kind)
        w = ad.new(*((INF,) if kind == "PriorityQueue" else ()))
        for i, v in enumerate(vals):
            ad.do(w, ("insv", v, 10 ** (i % 13)) if kind == "Treap" else
                  ("insert", v, (0,) * (i % 3) + (1,)) if kind == "SkipList"
                  else ("enqueue", v) if kind == "PriorityQueue" else
                  ("insv", v))
        for show in (False, True) if kind in ("Treap", "PriorityQueue") \
                else (False,):
            extra.PriorityQueue.SHOW_PRIORITY = show
            extra.Treap.SHOW_PRIORITY = show
            drawings.check(ad, w)
        extra.PriorityQueue.SHOW_PRIORITY = False
        extra.Treap.SHOW_PRIORITY = False
        n += len(vals)
    if vals == tuple(range(len(vals))):
        for how in (0, 1):
            s = g = None
            for i in vals:
                s = (i, s, None) if how else (i, None, s)
                g = (i, [g, (0, [])] if g else [])
            t = statics.build_binary(s)
            drawings.check_binary(t, "chain of %d" % len(vals),
                                  drawings.plain)
            t = statics.build_general(g)
            drawings.check_general(t, "chain of %d" % len(vals),
                                   drawings.plain)
    return (vals, n)


def word_cases(th):
    words = tries.words_over("ab", 3)
    for k in range(0, 4 if not th else 5):
        for c in itertools.combinations(words, k):
            yield c
    fam = ("to", "tea", "ted", "ten", "inn", "in", "A b", "x y z", "é")
    for k in (1, 2, 3, len(fam)):
        for c in itertools.combinations(fam, k):
            yield c


def draw_words(case):
    for kind in TRIES:
        ad = registry.adapter(kind, words=case)
        w = ad.new()
        for x in case:
            ad.do(w, ("insert", x))
        drawings.check(ad, w)
        for x in case[:1]:
            ad.do(w, ("remove", x))
            drawings.check(ad, w)
    return (case, len(case) * 2 + 2)


def text_cases(th):
    yield from tries.words_over("ab", 7 if th else 6)
    yield from tries.words_over("abc", 5 if th else 4)
    yield "banana"
    yield "mississippi"


def draw_text(text):
    ad = statics.SuffixTrieAdapter()
    drawings.check(ad, ad.new(text))
    return (text, 1)


# ---- larger structures ------------------------------------------------------
def larger_cases(th):
    from . import large
    for kind in registry.ALL:
        for n, lab, cfg, ops in large.states(kind, large.sizes(th)):
            for wide in (0, 1):
                yield (kind, n, lab, cfg, ops, wide)


def draw_larger(case):
    from . import large
    kind, n, lab, cfg, ops, wide = case
    ad = large.adapter(kind)
    grow = wide and kind not in registry.STATIC + registry.TRIES

    def widen(op):
        if grow and len(op) > 1 and op[0] not in ("rotate_left",
                                                  "rotate_right"):
            return (op[0], op[1] ** 3 - 40) + op[2:]
        return op

    def draw(w):
        for show in ((False, True) if kind in ("PriorityQueue", "Treap")
                     else (False,)):
            extra.PriorityQueue.SHOW_PRIORITY = show
            extra.Treap.SHOW_PRIORITY = show
            drawings.check(ad, w)
        if kind in ("PriorityQueue", "Treap"):
            extra.PriorityQueue.SHOW_PRIORITY = False
            extra.Treap.SHOW_PRIORITY = False

    tr = 0
    w = large.alone(lambda: large.rebuilt(ad, cfg, [widen(o) for o in ops]))
    draw(w)
    if kind in registry.STATIC:
        return (case, n)
    for how, e in large.large_empty(kind, n):
        w = large.alone(lambda: large.rebuilt(
            ad, cfg, [widen(o) for o in ops]))
        for i, op in enumerate(e):
            large.alone(lambda: ad.do(w, widen(op)))
            if i % 5 == 4 or i == len(e) - 1:
                draw(w)
            tr += 1
    return (case, n + tr)


# ---- the switch for priorities is the user's alone -------------------------
def show_cases(th):
    for kind in ("PriorityQueue", "Treap"):
        for pq, tr in itertools.product((False, True), repeat=2):
            for made in ("before", "after"):
                yield kind, pq, tr, made


def draw_show(case):
    """Whatever is created and done, priorities are drawn as the user has
    switched them on or off, separately for the two kinds that have any."""
    kind, pq, tr, made = case

    def switches():
        extra.PriorityQueue.SHOW_PRIORITY = pq
        extra.Treap.SHOW_PRIORITY = tr

    ad = registry.adapter(kind)
    n = [0]

    def judge(w, after):
        n[0] += 1
        core.arm()
        first = str(w.real)
        switches()
        if str(w.real) != first:
            core.fail("%s holding %s, with PriorityQueue.SHOW_PRIORITY set to "
                      "%r and Treap.SHOW_PRIORITY to %r: after %s it is "
                      "printed as\n%s", kind, core.show(w.model), pq, tr,
                      after, first)
        drawings.check(ad, w)

    def fill(kind2):
        a = registry.adapter(kind2)
        w = a.new(*((2,) if kind2 in CAPPED else ()))
        for i, v in enumerate((4, 2, 6)):
            a.do(w, ("insv", v, 10 * i) if kind2 == "Treap" else
                 ("enqueue", v, 10 * i) if kind2 == "PriorityQueue" else
                 ("insert", v, (1,)) if kind2 == "SkipList" else
                 ("insv", v) if kind2 in SEARCH + HEAPS else
                 ("push", v) if kind2 == "Stack" else
                 ("append_left", v) if kind2 == "Deque" else
                 ("enqueue", v) if kind2 == "Queue" else
                 ("add_end", v) if kind2 in LISTS else ("insert", "ab"))
        return a, w

    try:
        core.fresh_world()
        if made == "before":
            switches()
            _a, w = fill(kind)
        else:
            extra.PriorityQueue.SHOW_PRIORITY = False
            extra.Treap.SHOW_PRIORITY = False
            _a, w = fill(kind)
            switches()
        judge(w, "being filled")
        for other in registry.MUTABLE:
            a2, w2 = fill(other)
            judge(w, "filling a %s" % other)
            str(w2.real), repr(w2.real), len(w2.real)
            if other not in CAPPED:
                list(w2.real)
            judge(w, "reading a %s" % other)
            w2.real.clear()
            judge(w, "clearing a %s" % other)
            if other == kind:
                a2, w2 = fill(other)
                judge(w2, "filling a second one")
        for other in registry.STATIC:
            getattr(extra, other)(*(("abab",) if other == "SuffixTrie"
                                    else ()))
            judge(w, "making a %s" % other)
        for op in ((("dequeue",), ("enqueue", 7, 3), ("dequeue", True))
                   if kind == "PriorityQueue" else
                   (("delv", 2), ("insv", 7, 3), ("delv", 77))):
            name = {"delv": "remove", "insv": "insert"}.get(op[0], op[0])
            with core.warnings.catch_warnings():
                core.warnings.simplefilter("ignore")
                if op[0] == "insv":
                    w.real.insert(op[1], op[2])
                else:
                    getattr(w.real, name)(*op[1:])
            core.arm()
            first = str(w.real)
            switches()
            if str(w.real) != first:
                core.fail("%s, with PriorityQueue.SHOW_PRIORITY set to %r and "
                          "Treap.SHOW_PRIORITY to %r: after %s%r it is "
                          "printed as\n%s", kind, pq, tr, name, op[1:], first)
            n[0] += 1
    finally:
        extra.PriorityQueue.SHOW_PRIORITY = False
        extra.Treap.SHOW_PRIORITY = False
    return (case, n[0])


@register("C24", ["labels of decoded binary drawings hold no blanks, "
                  "underscores or slashes",
                  "blanks at line ends are not judged"])
def c24(th):
    t = []
    for kind in registry.ALL:
        if kind in registry.STATIC:
            continue
        ad, cfgs, vals, cap = registry.small(kind, 1)
        if kind in LISTS:
            vals, cap = ("x", "long item", ""), 4 if th else 3
        elif kind in CAPPED:
            vals, cap = ("x", "long item", ""), 4
            if kind == "PriorityQueue":
                vals, cap = (1, 2), 4 if th else 3
        elif kind == "SkipList":
            vals = (-5, 1, 22, 333.5)
            cap = 4 if th else 3
        elif kind in SEARCH:
            cap = {"BST": 6, "AVL": 8, "RedBlackTree": 8, "SplayTree": 5,
                   "Treap": 4}[kind] + th
        for cfg in cfgs:
            for show in ((False, True) if kind in ("PriorityQueue", "Treap")
                         else (False,)):
                t.append(("%s%r: every drawn state%s" % (
                    kind, cfg, ", with priorities" if show else ""),
                    "explore",
                    lambda k=kind, cfg=cfg, v=vals, c=cap, s=show: system(
                        k, s, registry.small(k, 1)[0], cfg, v, c), 8))
    for name, cases, fn, wt in (
            ("item sequences of every mix of widths", seq_cases, draw_lists,
             7),
            ("skip lists of every level profile", skip_cases, draw_skip, 5),
            ("binary drawings of every shape and mix of widths", shape_cases,
             draw_shape, 9),
            ("heaps of every mix of widths", heap_cases, draw_heap, 4),
            ("general drawings of every shape", general_cases, draw_general,
             5),
            ("long numbers and deep structures", precise_cases, draw_precise,
             6),
            ("unusual labels", odd_cases, draw_odd, 4),
            ("priorities shown as switched", show_cases, draw_show, 3),
            ("tries of every small word set", word_cases, draw_words, 5),
            ("suffix tries of every short text", text_cases, draw_text, 5),
            ("larger structures", larger_cases, draw_larger, 8)):
        t.append((name, "sweep", lambda c=cases, f=fn: (c(th), f), wt))
    return t
