"""Adapters for the search trees and heaps."""
import math

from . import core, shape as sh
from .core import MISSING, call, eq, eqv, expect, extra, fail, get
from .lists import World, values_of

INF = float("inf")


def color_name(node):
    c = node.get_color()
    return getattr(c, "name", str(c)).upper()


def check_traversals(t, s, what):
    """Every traversal against the linked shape."""
    n = sh.size(s)
    eq(what + ": preorder", get(what, t.preorder_traverse), sh.preorder(s))
    eq(what + ": depth-first", get(what, t.depth_first_traverse),
       sh.preorder(s))
    eq(what + ": inorder", get(what, t.inorder_traverse), sh.inorder(s))
    eq(what + ": postorder", get(what, t.postorder_traverse),
       sh.postorder(s))
    eq(what + ": breadth-first", get(what, t.breadth_first_traverse),
       sh.bfs(s))
    eq(what + ": iteration", values_of(t, n, what), sh.bfs(s))
    eq(what + ": to_list()", get(what, t.to_list), sh.bfs(s))
    eq(what + ": traverse()", get(what, t.traverse), sh.inorder(s))
    for name, f in (("inorder", sh.inorder), ("postorder", sh.postorder),
                    ("preorder", sh.preorder), ("depth-first", sh.preorder),
                    ("breadth-first", sh.bfs)):
        for m in (name, name.upper()):
            eq("%s: traverse(%r)" % (what, m), get(what, t.traverse, m),
               f(s))


def check_measures(t, s, what, node_count=True, binary=True):
    """Counts, heights and per-level listing of a binary tree."""
    h = max(0, sh.height(s))
    if node_count:
        eq(what + ": len()", get(what, len, t), sh.size(s))
    eq(what + ": is_empty()", get(what, t.is_empty), s is None)
    eq(what + ": count_leaf_nodes()", get(what, t.count_leaf_nodes),
       sh.leaves(s))
    eq(what + ": get_height()", get(what, t.get_height), h)
    eq(what + ": get_depth()", get(what, t.get_depth), 0)
    eq(what + ": get_nodes_per_level()", get(what, t.get_nodes_per_level),
       sh.levels(s))
    for nm, f in (("is_balanced", sh.balanced_root),
                  ("is_perfect", sh.perfect), ("is_strict", sh.strict)):
        expect("%s: %s()" % (what, nm), call(getattr(t, nm)), f(s),
               warns=s is None)
    rows = sh.levels(s)
    eq(what + ": get_leftside_view()", get(what, t.get_leftside_view),
       [r[0] for r in rows])
    eq(what + ": get_rightside_view()", get(what, t.get_rightside_view),
       [r[-1] for r in rows])


def check_links(tree, limit, what):
    """Parent/child relations of a search tree and the derived answers."""
    root = sh.root_of(tree)
    if root is MISSING or root is None:
        return
    nodes = sh.binary_nodes(root, limit)
    ids = {id(n) for n in nodes}
    parent = {id(root): (None, None)}
    for n in nodes:
        for c, side in ((n.get_left(), "L"), (n.get_right(), "R")):
            if c is not None:
                parent[id(c)] = (n, side)
    for n in nodes:
        w = "%s: node %r" % (what, n.get_data())
        p, side = parent[id(n)]
        if get(w, n.get_parent) is not p:
            q = n.get_parent()
            fail("%s: get_parent() is %s, but the node that has it as a "
                 "child is %s", w, _nm(q), _nm(p))
        l_, r_ = n.get_left(), n.get_right()
        eq(w + ": is_leaf()", get(w, n.is_leaf), l_ is None and r_ is None)
        eq(w + ": has_one_child()", get(w, n.has_one_child),
           (l_ is None) != (r_ is None))
        kids = get(w, n.get_children)
        if [id(c) for c in kids] != [id(c) for c in (l_, r_)
                                     if c is not None]:
            fail("%s: get_children() is wrong", w)
        gp = parent[id(p)][0] if p is not None else None
        if get(w, n.get_grand_parent) is not gp:
            fail("%s: get_grand_parent() is %s, expected %s", w,
                 _nm(n.get_grand_parent()), _nm(gp))
        sib = None
        if p is not None:
            sib = p.get_right() if side == "L" else p.get_left()
            eq(w + ": is_left_child()", get(w, n.is_left_child),
               side == "L")
        if get(w, n.get_sibling) is not sib:
            fail("%s: get_sibling() is %s, expected %s", w,
                 _nm(n.get_sibling()), _nm(sib))
        unc = None
        if gp is not None:
            unc = gp.get_right() if parent[id(p)][1] == "L" \
                else gp.get_left()
        if get(w, n.get_uncle) is not unc:
            fail("%s: get_uncle() is %s, expected %s", w,
                 _nm(n.get_uncle()), _nm(unc))
        # nothing outside the tree is reachable from a node of the tree
        for v in vars(n).values():
            if hasattr(v, "get_left") and id(v) not in ids:
                fail("%s: keeps a link to a node outside the tree (%s)", w,
                     _nm(v))


def _nm(n):
    if n is None:
        return "no node"
    try:
        return "node %r" % (n.get_data(),)
    except Exception:  # noqa: BLE001
        return "an object of type " + type(n).__name__


class BSTAdapter:
    """BST / AVL / RedBlackTree / SplayTree / Treap.

    model: ascending list of keys; aux: for treaps {key: priority}.
    Operations name keys by rank or gap so that order-isomorphic histories
    coincide: ("ins", g) inserts a new key in gap g, ("dup", i) inserts the
    i-th key again, ("rem", i) removes it, ("miss", g) removes an absent key,
    ("has", i) / ("hasnt", g) look keys up.  ("insv", v) etc. use literal
    values.
    """

    def __init__(self, kind, checks=("set",), prios=(1, 2, 3), lookups=None):
        self.kind = kind
        self.cls = getattr(extra, kind)
        self.checks = checks
        self.treap = kind == "Treap"
        self.splaying = kind == "SplayTree"
        self.prios = prios
        self.lookups = self.splaying if lookups is None else lookups

    def configs(self):
        return [()]

    def new(self, items=None):
        if items is None:
            real = get("%s()" % self.kind, self.cls)
            w = World(real, [])
        else:
            o = call(self.cls, list(items))
            expect("%s(%r)" % (self.kind, items), o)
            w = World(o.value, sorted(set(items)))
        w.aux = {}
        return w

    # ---- keys -------------------------------------------------------------
    @staticmethod
    def gap(m, g):
        if not m:
            return 0.5
        if g == 0:
            return m[0] - 1.0
        if g == len(m):
            return m[-1] + 1.0
        k = (m[g - 1] + m[g]) / 2
        if not m[g - 1] < k < m[g]:
            raise core.HarnessError("keys exhausted")
        return k

    @staticmethod
    def absent(m, g):
        """A number missing at that position of the sorted m, if any."""
        lo = m[g - 1] if g else None
        hi = m[g] if g < len(m) else None
        if lo is None:
            k = 0.5 if hi is None else hi - 1.0
        else:
            k = lo + 1.0 if hi is None else (lo + hi) / 2
        if (lo is None or lo < k) and (hi is None or k < hi):
            return k
        k = int(lo) + 1 if lo is not None else int(hi) - 1
        if (lo is None or lo < k) and (hi is None or k < hi):
            return k
        return None

    def rank(self, w):
        return {k: i for i, k in enumerate(w.model)}

    def auxkey(self, w):
        return [w.aux.get(k) for k in w.model]

    def mutators(self, w, vals, cap):
        m = w.model
        n = len(m)
        if vals:
            for v in vals:
                if v not in m:
                    if n < cap:
                        for p in (self.prios if self.treap else (None,)):
                            yield ("insv", v) if p is None else (
                                "insv", v, p)
                else:
                    yield ("insv", v)
                yield ("remv", v)
                if self.lookups:
                    yield ("hasv", v)
        else:
            if n < cap:
                for g in range(n + 1):
                    if self.treap:
                        for p in self.prios:
                            yield ("ins", g, p)
                    else:
                        yield ("ins", g)
            for i in range(n):
                yield ("dup", i)
                yield ("rem", i)
                if self.lookups:
                    yield ("has", i)
            for g in sorted({0, n // 2, n}) if not self.splaying \
                    else range(n + 1):
                yield ("miss", g)
                if self.lookups:
                    yield ("hasnt", g)
        yield ("clear",)

    def do(self, w, op):
        r, m = w.real, w.model
        nm = op[0]
        if nm in ("ins", "miss", "hasnt"):
            key = self.gap(m, op[1])
        elif nm in ("dup", "rem", "has"):
            key = m[op[1]]
        elif nm in ("insv", "remv", "hasv"):
            key = op[1]
        what = "%s holding %s (after %d operations): %s(%s)" % (
            self.kind, core.show(m), 0, nm,
            "" if nm == "clear" else ", ".join(map(repr, (key,) + op[2:])))
        what = what.replace(" (after 0 operations)", "")
        before = None
        if self.splaying and "splay" in self.checks and m:
            before = sh.binary_shape(sh.root_of(r), len(m), what)
        if nm in ("ins", "dup", "insv"):
            new = key not in m
            if self.treap and len(op) > 2:
                if op[2] == "draw":
                    core.TAPE.reset(op[3] if len(op) > 3 else ())
                    o = call(r.insert, key)
                else:
                    o = call(r.insert, key, op[2])
            else:
                o = call(r.insert, key)
            expect(what, o, None, warns=not new)
            if new:
                m.append(key)
                m.sort()
                if self.treap:
                    if len(op) > 2 and op[2] != "draw":
                        w.aux[key] = op[2]
                    else:
                        w.aux[key] = self.drawn(r, key, what)
            if before is not None or (new and len(m) == 1 and self.splaying):
                self.splayed(r, sh.bst_insert(before, key), key, what)
            out = "insert" if new else "insert-dup"
        elif nm in ("rem", "miss", "remv"):
            there = key in m
            expect(what, call(r.remove, key), None, warns=not there)
            if there:
                m.remove(key)
                w.aux.pop(key, None)
            elif before is not None:
                self.splayed(r, before, sh.last_visited(before, key), what)
            out = "remove" if there else "remove-absent"
        elif nm in ("has", "hasnt", "hasv"):
            eq(what, get(what, r.__contains__, key), key in m)
            if before is not None:
                self.splayed(r, before, sh.last_visited(before, key), what)
            out = "lookup"
        elif nm == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
            w.aux.clear()
            out = "clear"
        else:
            raise core.HarnessError("unknown op %r" % (op,))
        return out

    def drawn(self, r, key, what):
        root = sh.root_of(r)
        if root is MISSING:
            return None
        for n in sh.binary_nodes(root, 10000):
            if n.get_data() == key:
                p = n.get_priority()
                if type(p) is not int or not 0 <= p <= 100:
                    fail("%s: the drawn priority is %r", what, p)
                return p
        fail("%s: the inserted value is not in the tree", what)

    def splayed(self, r, before, x, what):
        if "splay" not in self.checks:
            return
        want = sh.splay(before, x)
        got = sh.binary_shape(sh.root_of(r), sh.size(want), what)
        if got != want:
            fail("%s: the tree should be %s, but is %s", what,
                 core.show(want), core.show(got))

    # ---- observation ------------------------------------------------------
    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)
        eq(what + ": inorder listing", get(what, r.inorder_traverse), m)

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "%s holding %s" % (self.kind, core.show(m))
        self.contents(r, m, what)
        root = sh.root_of(r)
        s = MISSING
        if root is not MISSING:
            s = sh.binary_shape(root, len(m), what)
            eq(what + ": linked values in search order", sh.inorder(s), m)
        ck = self.checks
        if "avl" in ck and s is not MISSING:
            self.avl(s, what)
            eq(what + ": get_height()", get(what, r.get_height),
               max(0, sh.height(s)))
            eq(what + ": is_balanced()", expect(what, call(r.is_balanced)),
               True)
        if "rb" in ck and s is not MISSING:
            self.rb(r, root, m, what)
        if "treap" in ck and s is not MISSING:
            self.treap_order(root, s, w, what)
        if "set" in ck:
            if m:
                eq(what + ": get_min()", get(what, r.get_min), m[0])
                eq(what + ": get_max()", get(what, r.get_max), m[-1])
            else:
                expect(what + ": get_min()", call(r.get_min),
                       exc=IndexError)
                expect(what + ": get_max()", call(r.get_max),
                       exc=IndexError)
            if s is not MISSING:
                check_traversals(r, s, what)
        if "measure" in ck and s is not MISSING:
            check_measures(r, s, what)
        if "links" in ck:
            check_links(r, len(m), what)
        if "set" in ck:
            # last, since lookups reshape splay trees
            for g in range(len(m) + 1):
                k = self.absent(m, g)
                if k is not None:
                    eq("%s: %r in it" % (what, k),
                       get(what, r.__contains__, k), False)
                if g < len(m):
                    eq("%s: %r in it" % (what, m[g]),
                       get(what, r.__contains__, m[g]), True)
            for p in list(probes) + list(core.ALIENS):
                eq("%s: %r in it" % (what, p), get(what, r.__contains__, p),
                   p in m)
            eq(what + ": inorder listing after lookups",
               get(what, r.inorder_traverse), m)
            eq(what + ": len() after lookups", get(what, len, r), len(m))

    def avl(self, s, what):
        def go(x):
            if x is None:
                return -1
            a, b = go(x[1]), go(x[2])
            if abs(a - b) > 1:
                fail("%s: the subtrees of %r have heights %d and %d (shape "
                     "%s)", what, x[0], a, b, core.show(s))
            return 1 + max(a, b)
        h = go(s)
        n = sh.size(s)
        if n and h > 1.4405 * math.log2(n + 2):
            fail("%s: height %d with %d items", what, h, n)

    def rb(self, r, root, m, what):
        if root is None:
            eq(what + ": get_black_height()", get(what, r.get_black_height),
               0)
            return
        if color_name(root) != "BLACK":
            fail("%s: the root is red", what)

        def go(n):
            if n is None:
                return 1
            red = color_name(n) == "RED"
            for c in (n.get_left(), n.get_right()):
                if red and c is not None and color_name(c) == "RED":
                    fail("%s: red %r has a red child %r", what, n.get_data(),
                         c.get_data())
            a, b = go(n.get_left()), go(n.get_right())
            if a != b:
                fail("%s: below %r the black node counts are %d and %d",
                     what, n.get_data(), a, b)
            return a + (not red)

        h = go(root)
        eq(what + ": get_black_height()", get(what, r.get_black_height),
           h - 1)
        s = sh.binary_shape(root, len(m))
        if sh.height(s) > 2 * math.log2(len(m) + 1):
            fail("%s: height %d with %d items", what, sh.height(s), len(m))

    def treap_order(self, root, s, w, what):
        m = w.model
        for n in sh.binary_nodes(root, len(m)) if root is not None else ():
            p = n.get_priority()
            eqv("%s: priority of %r" % (what, n.get_data()), p,
                w.aux[n.get_data()])
            for c in (n.get_left(), n.get_right()):
                if c is not None and c.get_priority() > p:
                    fail("%s: %r with priority %r is below %r with "
                         "priority %r", what, c.get_data(),
                         c.get_priority(), n.get_data(), p)
        if len(set(w.aux.values())) == len(m):
            want = sh.cartesian([(k, w.aux[k]) for k in m])
            if want != s:
                fail("%s with priorities %s: the tree should be %s, but is "
                     "%s", what, core.show(w.aux), core.show(want),
                     core.show(s))

    def drain(self, w, mode):
        i = 0
        while w.model:
            n = len(w.model)
            self.do(w, ("rem", {"min": 0, "max": n - 1, "mid": n // 2,
                                "alt": 0 if i % 2 else n - 1}[mode]))
            i += 1
        self.observe(w)

    drains = ("min", "max", "mid", "alt")


SEARCH_TREES = ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap")


def by_type(x):
    """Orders equal numbers of different types."""
    return x, repr(x)


class HeapAdapter:
    """MinHeap / MaxHeap; model: ascending list (a multiset)."""

    def __init__(self, kind):
        self.kind = kind
        self.cls = getattr(extra, kind)
        self.low = kind == "MinHeap"

    def configs(self):
        return [()]

    def new(self, items=None):
        if items is None:
            return World(get("%s()" % self.kind, self.cls), [])
        r = get("%s.heapify(%r)" % (self.kind, items), self.cls.heapify,
                items)
        return World(r, sorted(items))

    def rank(self, w):
        return {k: i for i, k in enumerate(sorted(set(w.model)))}

    def mutators(self, w, vals, cap):
        m = w.model
        n = len(m)
        if vals:
            for v in vals:
                if n < cap:
                    yield ("insv", v)
                yield ("remv", v)
        else:
            d = sorted(set(m))
            for g in range(len(d) + 1):
                if n < cap:
                    yield ("ins", g)
                if g < len(d):
                    if n < cap and self.dups:
                        yield ("dup", g)
                    yield ("rem", g)
            yield ("miss", 0)
        yield ("remove_min",)
        yield ("remove_max",)
        yield ("clear",)

    dups = True

    def do(self, w, op):
        r, m = w.real, w.model
        nm = op[0]
        d = sorted(set(m))
        if nm in ("ins", "miss"):
            key = BSTAdapter.gap(d, op[1])
        elif nm in ("dup", "rem"):
            key = d[op[1]]
        elif nm in ("insv", "remv"):
            key = op[1]
        else:
            key = None
        what = "%s with array %s: %s(%s)" % (
            self.kind, core.show(r.to_list()), nm,
            "" if key is None else repr(key))
        if nm in ("ins", "dup", "insv"):
            expect(what, call(r.insert, key), None, warns=False)
            m.append(key)
            m.sort()
        elif nm in ("rem", "miss", "remv"):
            there = key in m
            expect(what, call(r.remove, key), None, warns=not there)
            if there:
                self.gone(r, m, key)
            return "remove" if there else "remove-absent"
        elif nm in ("remove_min", "remove_max"):
            o = call(getattr(r, nm))
            if not m:
                if o.exc is not None:
                    expect(what, o, exc=IndexError)
                return nm + "-empty"
            expect(what, o, None, warns=False)
            self.gone(r, m, m[0 if nm == "remove_min" else -1])
        elif nm == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
        else:
            raise core.HarnessError("unknown op %r" % (op,))
        return nm

    @staticmethod
    def gone(r, m, key):
        """Drop one number equal to `key` from the model. Which one of several
        equal numbers of different types leaves is up to the heap."""
        equal = {repr(x): i for i, x in enumerate(m) if x == key}
        if len(equal) > 1:
            left = sorted(map(repr, r.to_list()))
            for i in equal.values():
                if sorted(map(repr, m[:i] + m[i + 1:])) == left:
                    del m[i]
                    return
        m.remove(key)

    def contents(self, r, m, what):
        eq(what + ": len()", get(what, len, r), len(m))
        eq(what + ": is_empty()", get(what, r.is_empty), not m)
        a = get(what + ": to_list()", r.to_list)
        eq(what + ": held numbers", sorted(a, key=by_type),
           sorted(m, key=by_type))
        return a

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "%s holding %s" % (self.kind, core.show(m))
        a = self.contents(r, m, what)
        for i in range(1, len(a)):
            p = a[(i - 1) // 2]
            if (a[i] < p) if self.low else (a[i] > p):
                fail("%s: position %d (%r) is beyond its parent %r in %s",
                     what, i, a[i], p, a)
        eq(what + ": iteration", values_of(r, len(m), what), a)
        if m:
            eqv(what + ": get_min()", get(what, r.get_min), m[0])
            eqv(what + ": get_max()", get(what, r.get_max), m[-1])
        else:
            expect(what + ": get_min()", call(r.get_min), exc=IndexError)
            expect(what + ": get_max()", call(r.get_max), exc=IndexError)
        for p in core.ALIENS:
            eq("%s: %r in it" % (what, p), get(what, r.__contains__, p),
               False)
        d = sorted(set(m))
        for g in range(len(d) + 1):
            if not any(abs(x) == INF for x in d):
                k = BSTAdapter.absent(d, g)
                if k is not None:
                    eq("%s: %r in it" % (what, k),
                       get(what, r.__contains__, k), False)
            if g < len(d):
                eq("%s: %r in it" % (what, d[g]),
                   get(what, r.__contains__, d[g]), True)

    def drain(self, w, mode):
        i = 0
        while w.model:
            if mode == "alt":
                self.do(w, ("remove_min",) if i % 2 else ("remove_max",))
            elif mode == "mid":
                self.do(w, ("remv", w.model[len(w.model) // 2]))
            else:
                self.do(w, (mode,))
            i += 1
            self.observe(w)

    drains = ("remove_min", "remove_max", "mid", "alt")
