"""C21: rejected operations raise the documented kind and change nothing."""
import warnings  # noqa: F401

from . import core, large, registry, statics
from .core import MISSING, call, expect, extra, fail, get
from .props import register
from .registry import (ALL, CAPPED, HEAPS, LISTS, SEARCH, TRIES)
from .systems import AdapterSystem

INF = float("inf")
WARN = "a UserWarning"
SILENT = "no exception"


def structure():
    return extra.Stack()


def judge(what, o, want):
    """want: tuple of exception kinds, WARN and SILENT, any of which is
    right."""
    excs = tuple(x for x in want if isinstance(x, type))
    if o.exc is not None:
        if not (excs and issubclass(o.exc, excs)):
            fail("%s: expected %s, but got %s", what, names(want), o.msg)
        return
    if WARN in want and any(issubclass(x, UserWarning) for x in o.warns):
        return
    if SILENT in want:
        return
    fail("%s: expected %s, but it returned %s%s", what, names(want),
         core.show(o.value), " with a warning" if o.warns else "")


def names(want):
    return " or ".join(x if isinstance(x, str) else x.__name__
                       for x in want)


NOT_INT = (None, 1.0, "0", True, [0], (1,))
NOT_BOOL = (None, 1, 0, "yes")
NOT_NUM = ("1", None, True, [1], (1,), 1j)
T, V, I, O = TypeError, ValueError, IndexError, OverflowError


def list_rejects(ad, w):
    r, m = w.real, w.model
    n = len(m)
    bad_items = ((None, V), (structure(), T))
    for x, e in bad_items:
        yield "add_front", (x,), {}, (e,)
        yield "add_end", (x,), {}, (e,)
        for i in sorted({0, n // 2, n}):
            yield "insert", (i, x), {}, (e,)
        for i in range(n):
            yield "__setitem__", (i, x), {}, (e,)
        yield "remove", (x,), {}, (e,)
        yield "remove", (x, False), {}, (e,)
    # indices
    over = () if ad.ring else (n + 1, n + 2, 10 ** 6)
    for i in (-1, -2, -n - 1, slice(0, 1), slice(None)) + over:
        yield "insert", (i, 1), {}, (I,)
        yield "split", (i,), {}, (I,)
    for i in (-1, -n, -n - 1, slice(0, 1), slice(None)) + (
            () if ad.ring else (n, n + 1, 10 ** 6)):
        if i == 0 and type(i) is int:
            i = -1
        yield "__setitem__", (i, 1), {}, (I,)
        yield "__delitem__", (i,), {}, (I,)
    for i in NOT_INT:
        yield "insert", (i, 1), {}, (T,)
        yield "__setitem__", (i, 1), {}, (T,)
        yield "__delitem__", (i,), {}, (T,)
        yield "__getitem__", (i,), {}, (T,)
        yield "split", (i,), {}, (T,)
    if ad.ring:
        if not n:
            for i in (0, 1, 5):
                yield "__getitem__", (i,), {}, (I,)
                yield "__setitem__", (i, 1), {}, (I,)
        for i in (-1, slice(0, 1)):
            yield "__getitem__", (i,), {}, (I,)
    else:
        for i in (n, n + 1, -n - 1, -n - 2):
            yield "__getitem__", (i,), {}, (I,)
    # two faults at once: either documented kind
    yield "insert", (-1, None), {}, (I, V)
    yield "insert", ("0", None), {}, (T, V)
    yield "__setitem__", (-1, None), {}, (I, V)
    for f in ("rotate_left", "rotate_right"):
        for d in (-1, -5):
            yield f, (d,), {}, (V,)
            yield f, (d,), {"inplace": False}, (V,)
        for d in NOT_INT:
            yield f, (d,), {}, (T,)
        for b in NOT_BOOL:
            yield f, (1,), {"inplace": b}, (T,)
    for b in NOT_BOOL:
        yield "remove", (1,), {"all": b}, (T,)
    for x in (None, 1, [1, 2], (1,), "ab", structure(), extra.SkipList([1])):
        yield "extend", (x,), {}, (T,)
    others = [extra.CircularLinkedList([1]), extra.DoublyLinkedList([1]),
              extra.LinkedList([1])]
    for x in others:
        if not isinstance(x, ad.cls):
            yield "extend", (x,), {}, (T,)
    for op in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        for x in (None, 1, [1, 2], structure()) + tuple(
                y for y in others if not isinstance(y, ad.cls)):
            yield op, (x,), {}, (T,)
        if op[2:4] in ("lt", "le", "gt", "ge") and n:
            yield op, (ad.cls(["x"]),), {}, (T,)
    yield "ctor", (5,), {}, (T,)
    yield "ctor", ([1, None],), {}, (V,)
    yield "ctor", ([1, structure()],), {}, (T,)
    if ad.cls is extra.LinkedList:
        yield "ctor", (1.5,), {}, (T,)


def capped_rejects(ad, w):
    m = w.model
    full = len(m) >= w.cfg
    puts = {"Stack": ("push",), "Queue": ("enqueue",),
            "Deque": ("append_left", "append_right", "enqueue"),
            "PriorityQueue": ("enqueue",)}[ad.kind]
    for f in puts:
        for x, e in ((None, V), (structure(), T)):
            yield f, (x,), {}, (e, O) if ad.kind == "Stack" and full \
                else (e,)
    if ad.kind == "PriorityQueue":
        for p in ("1", True, [1], (1,), 1j):
            yield "enqueue", (1, p), {}, (T,)
        yield "enqueue", (None, "1"), {}, (T, V)
        yield "enqueue", (None, 1), {}, (V,)
        yield "enqueue", (structure(), 1), {}, (T,)
    if ad.kind == "Stack" and full:
        yield "push", (1,), {}, (O,)
    if not m:
        for f in {"Stack": ("peek",), "Queue": ("top",), "Deque": (
                "get_left", "get_right", "top"),
                "PriorityQueue": ("top",)}[ad.kind]:
            yield f, (), {}, (I,)
        for f in {"Stack": ("pop",), "Queue": ("dequeue",), "Deque": (
                "pop_left", "pop_right", "dequeue"),
                "PriorityQueue": ("dequeue",)}[ad.kind]:
            yield f, (), {}, (WARN,)
        if ad.kind == "PriorityQueue":
            yield "dequeue", (True,), {}, (WARN,)
    for c in NOT_NUM:
        yield "ctor", (c,), {}, (T,)
    for c in (-1, -0.5, -INF, -10 ** 30):
        yield "ctor", (c,), {}, (V,)


def skip_rejects(ad, w):
    n = len(w.model)
    yield "insert", (None,), {}, (V,)
    for x in ("1", True, [1], structure()):
        yield "insert", (x,), {}, (T,)
    for f in ("__getitem__", "__delitem__"):
        for i in (-1, -n - 1, n, n + 1, 10 ** 6, slice(0, 1), slice(None)):
            yield f, (i,), {}, (I,)
        for i in NOT_INT:
            yield f, (i,), {}, (T,)
    for x in ("1", None, [1], structure()):
        yield "remove", (x,), {}, (T, V, WARN, SILENT)
    yield "__contains__", (None,), {}, (V, SILENT)
    yield "ctor", (5,), {}, (T,)
    yield "ctor", ([1, None],), {}, (V,)
    for x in ("1", True, structure()):
        yield "ctor", ([1, x],), {}, (T,)


def tree_rejects(ad, w):
    m = w.model
    yield "insert", (None,), {}, (V,)
    for x in ("1", True, [1], (1,), 1j, structure()):
        yield "insert", (x,), {}, (T,)
    if ad.kind == "Treap":
        for p in ("1", True, [1], 1j):
            yield "insert", (0.25, p), {}, (T,)
            if m:
                yield "insert", (m[0], p), {}, (T,)
        yield "insert", (None, 1), {}, (V,)
        yield "insert", (None, "1"), {}, (V, T)
    absent = ad.gap(m, len(m) // 2) if m else 0.5
    for x in (absent, "1", None, [1], structure()):
        yield "remove", (x,), {}, (WARN,)
    if not m:
        yield "get_min", (), {}, (I,)
        yield "get_max", (), {}, (I,)
        for f in ("is_balanced", "is_perfect", "is_strict"):
            yield f, (), {}, (WARN,)
    for x in ("x", "", "in order", "level"):
        yield "traverse", (x,), {}, (V,)
    for x in (5, None, ["inorder"], b"inorder", True):
        yield "traverse", (x,), {}, (T,)
    yield "ctor", (5,), {}, (T,)
    yield "ctor", ([1, None],), {}, (V,)
    for x in ("1", True, structure()):
        yield "ctor", ([1, x],), {}, (T,)


def heap_rejects(ad, w):
    m = w.model
    yield "insert", (None,), {}, (V,)
    for x in ("1", True, [1], 1j, structure()):
        yield "insert", (x,), {}, (T,)
    absent = ad_gap(m)
    for x in (absent, "1", None, [1], structure()):
        yield "remove", (x,), {}, (WARN,)
    if not m:
        yield "get_min", (), {}, (I,)
        yield "get_max", (), {}, (I,)
        yield "remove_min", (), {}, (WARN, I)
        yield "remove_max", (), {}, (WARN, I)
    yield "heapify", (5,), {}, (T,)
    yield "heapify", (None,), {}, (T,)
    yield "heapify", ([1, None],), {}, (V,)
    for x in ("1", True, structure()):
        yield "heapify", ([1, x],), {}, (T,)


def ad_gap(m):
    return (max(m) if m else 0) + 7.5


def trie_rejects(ad, w):
    m = w.model
    yield "insert", (None,), {}, (V,)
    for x in (1, True, ["a"], b"a", structure()):
        yield "insert", (x,), {}, (T,)
    for x in ("", " ", "  \t", "\n"):
        yield "insert", (x,), {}, (V,)
    for x in (1, None, ["a"], structure(), "zz", " ", "abcz", "z"):
        yield "remove", (x,), {}, (WARN,)
    for x in ("a", "ab", "abc"):
        if x not in m:
            yield "remove", (x,), {}, (WARN,)
    yield "remove", ("",), {}, (WARN, SILENT)
    yield "auto_complete", (None,), {}, (V,)
    for x in (1, ["a"], structure()):
        yield "auto_complete", (x,), {}, (T,)


def suffix_rejects(ad, w):
    n = len(w.model)
    for x in (None, ""):
        yield "ctor", (x,), {}, (V,)
    for x in (5, ["a"], b"a", True, structure()):
        yield "ctor", (x,), {}, (T,)
    f = "get_lowest_common_ancestor"
    for x in (None, 0.0, "0", True, [0]):
        yield f, (0, x), {}, (T,)
        yield f, (x, 0), {}, (T,)
    for x in (-1, n + 1, n + 5):
        yield f, (0, x), {}, (V,)
        yield f, (x, 0), {}, (V,)
        yield f, (x, x), {}, (V,)
    yield f, (-1, "0"), {}, (T, V)


def general_rejects(ad, w):
    yield "root.set_child", (5,), {}, (T,)
    yield "root.set_child", (None,), {}, (T,)
    yield "root.set_child", (structure(),), {}, (T,)
    yield "root.set_children", (5,), {}, (T,)
    yield "root.set_children", ([statics.tree_node(8), 5],), {}, (T,)
    yield "root.set_children", ([statics.tree_node(8), None],), {}, (T,)
    yield "root.swap", (statics.tree_node(8), 5), {}, (T,)
    yield "root.swap", (None, statics.tree_node(8)), {}, (T,)
    yield "root.swap_with", (5,), {}, (T,)
    yield "node", (None,), {}, (V,)
    yield "node", (structure(),), {}, (T,)
    yield "from_path", (5,), {}, (T,)
    yield "from_path", (None,), {}, (T,)
    yield "from_path", ("no/such/path/for/sure",), {}, (V,)


def binary_rejects(ad, w):
    for f in ("root.set_left", "root.set_right"):
        for x in (5, None, structure(), statics.tree_node(8)):
            yield f, (x,), {}, (T,)
    yield "root.set_children", ([],), {}, (NotImplementedError,)
    yield "root.set_children", ([statics.binary_node(8)],), {}, (
        NotImplementedError,)
    yield "root.swap_with", (5,), {}, (T,)
    yield "node", (None,), {}, (V,)
    yield "node", (structure(),), {}, (T,)
    if w.model is None:
        for f in ("is_balanced", "is_perfect", "is_strict"):
            yield f, (), {}, (WARN,)
    for x in ("x", "", "in order", "level"):
        yield "traverse", (x,), {}, (V,)
    for x in (5, None, ["inorder"], b"inorder", True):
        yield "traverse", (x,), {}, (T,)
    for x in (5, None, "ab", {1}):
        yield "parse", (x,), {}, (T,)
    for x in ([], (), [1, []], [1, 2, 3, 4], [None], [1, None], [1, 2, None],
              [1, [2, [3, 4, 5, 6]]]):
        yield "parse", (x,), {}, (V,)
    yield "parse", ([structure()],), {}, (T,)
    yield "parse", ([1, structure()],), {}, (T,)


def rejects(ad, w):
    k = ad.kind
    f = (list_rejects if k in LISTS else capped_rejects if k in CAPPED else
         skip_rejects if k == "SkipList" else tree_rejects if k in SEARCH
         else heap_rejects if k in HEAPS else trie_rejects if k in TRIES
         else suffix_rejects if k == "SuffixTrie" else general_rejects
         if k == "Tree" else binary_rejects)
    return [x for x in f(ad, w) if not (
        x[0].startswith("root.") and w.model is None)]


def attempt(ad, w, entry):
    """Runs one operation that must be rejected."""
    name, args, kw, want = entry
    r = w.real
    if name == "ctor":
        fn = ad.cls
    elif name == "node":
        fn = statics.tree_node if ad.kind == "Tree" else statics.binary_node
        mod = statics.module("tree" if ad.kind == "Tree" else "binary_tree")
        fn = mod.TreeNode if ad.kind == "Tree" else mod.BinaryTreeNode
    elif name == "root.swap_with":
        node = r._root
        fn = lambda x: type(node).swap(node, x)  # noqa: E731
    elif name.startswith("root."):
        fn = getattr(r._root, name[5:])
    else:
        fn = getattr(r, name)
    o = call(fn, *args, **kw)
    shown = ", ".join([brief(a) for a in args] + [
        "%s=%s" % (k, brief(v)) for k, v in kw.items()])
    judge("%s holding %s: %s(%s)" % (
        ad.kind, core.show(w.model), name, shown), o, want)
    return o.exc.__name__ if o.exc else "warning"


def brief(a):
    return core.show(a)


class RejectSystem(AdapterSystem):
    """Ordinary histories with a rejected operation possible at every
    point."""

    def ops(self, w):
        for op in AdapterSystem.ops(self, w):
            yield op
        for i in range(len(rejects(self.ad, w))):
            yield ("rejected", i)

    def step(self, w, op):
        if op[0] == "rejected":
            return attempt(self.ad, w, rejects(self.ad, w)[op[1]])
        return AdapterSystem.step(self, w, op)


def bursts(case):
    """Many different rejected operations in a row, then normal use."""
    kind, cfg, k, th = case
    ad, _c, vals, cap = registry.small(kind)
    base = AdapterSystem("", ad, cfg, vals, cap)
    w = base.start()
    steps = 0
    # a deterministic walk to a representative state
    for _ in range(k):
        ops = [o for o in base.ops(w) if o[0] not in (
            "clear", "remove", "rem", "remv", "remove_min", "remove_max",
            "miss", "pop", "dequeue", "del", "dequeue_min", "pop_left",
            "pop_right", "remove_front", "remove_end", "extend_self")]
        if not ops:
            break
        base.step(w, ops[(k * 3 + _) % len(ops)])
    n = len(rejects(ad, w))
    before = core.canon([w.real])
    for rounds in range(2):
        for i in range(n):
            attempt(ad, w, rejects(ad, w)[i])
            steps += 1
            if i % 7 == 0:
                what = "%s after %d rejected operations" % (kind, steps)
                ad.contents(w.real, w.model, what)
    if core.canon([w.real]) != before or True:
        ad.observe(w)
    w2 = base.start()
    del w2
    for op in list(base.ops(w))[::3]:
        if op[0] == "clear":
            continue
        # the list of enabled operations changes with the state
        if op in list(base.ops(w)):
            base.step(w, op)
            ad.contents(w.real, w.model, "%s after %d rejected operations "
                        "and %r" % (kind, steps, op))
            steps += 1
    return (case, steps)


@register("C21", ["where the documentation names no error kind (removing a "
                  "non-number from a skip list, removing the empty word) any "
                  "rejection is accepted",
                  "with two faults in one call, the documented kind of either "
                  "is accepted",
                  "removing an extreme of an empty heap may warn or raise "
                  "IndexError"])
def c21(th):
    t = []
    for kind in ALL:
        ad, cfgs, vals, cap = registry.small(kind, 2 if th else 1)
        if kind in registry.STATIC:
            for cfg in cfgs:
                t.append(("%s %r" % (kind, cfg), "explore",
                          lambda k=kind, cfg=cfg, th=th: RejectSystem(
                              "%s %r" % (k, cfg),
                              registry.small(k, 2 if th else 1)[0], cfg), 1))
            continue
        for cfg in cfgs:
            t.append(("%s%r: rejected operations at every state" % (
                kind, cfg), "explore", lambda k=kind, cfg=cfg, v=vals, c=cap:
                RejectSystem("%s%r" % (k, cfg),
                             registry.small(k, 2 if th else 1)[0], cfg, v, c,
                             max_states=40000), 8))
        t.append(("%s: bursts of rejected operations" % kind, "sweep",
                  lambda k=kind, cfgs=cfgs: (
                      [(k, cfg, i, th) for cfg in cfgs for i in range(8)],
                      bursts), 3))
    for kind in ALL:
        t.append(("%s: larger ones" % kind, "sweep",
                  lambda k=kind: (large.states(k, large.sizes(th)),
                                  large.run_rejects(k)),
                  20 if kind in LISTS else 4))
        t.append(("%s: much larger ones" % kind, "sweep",
                  lambda k=kind: (large.big_states(k, th, True),
                                  large.run_rejects(k)),
                  20 if kind in LISTS else 4))
    return t
