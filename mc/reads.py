"""Reading operations as steps of their own.

`reads(adapter, world)` is the complete reading alphabet of a structure in its
current state.  In `ReadSystem` every one of them is a transition: it is called
on the real object, its outcome is compared with the outcome of the same call
on a fresh object with the same history *without any reads*, the containers it
returned are scribbled over, and it is called again.  A read that changes
anything reachable (an answer kept for later, say) leads to a new state that is
explored like any other.
"""
import operator

from . import core
from .core import OBSERVE, call, canon, extra, extra_base, fail, fresh_world
from .systems import AdapterSystem

LIMIT = 1500
COMPARE = ("eq", "ne", "lt", "le", "gt", "ge")
LISTS = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")
TRAVERSALS = ("inorder", "preorder", "postorder", "breadth-first",
              "depth-first")


def reads(ad, w, vals=(), probes=()):
    """Reading operations (name, args...) of this structure in this state,
    with arguments of the kind it holds and of other kinds."""
    out = own_reads(ad, w, vals, probes)
    for f in ("has_prefix", "has_substring", "count_pattern_occurrences"):
        if hasattr(ad.cls, f):
            out.append((f, 5))
    if hasattr(ad.cls, "__contains__"):
        out += [("in", 5) if ad.kind in ("Trie", "RadixTrie") else
                ("in", "zz"), ("in", None)]
    return out


def own_reads(ad, w, vals, probes):
    kind, m = ad.kind, w.model
    out = [("repr",), ("str",), ("len",)]
    if hasattr(ad.cls, "is_empty"):
        out.append(("is_empty",))
    if hasattr(ad.cls, "__iter__"):
        out += [("iter",), ("half",), ("to_list",)]
    if kind in LISTS:
        n = len(m)
        out += [("copy",), ("reverse",)]
        for v in tuple(vals) + (77,):
            out += [("in", v), ("count", v)]
        idx = range(0, 2 * n + 2) if ad.ring else range(-n - 1, n + 1)
        out += [("getitem", i) for i in idx]
        if not ad.ring:
            for s in ((None, None, None), (None, None, -1), (1, None, None),
                      (None, -1, None), (0, 1, None), (None, None, 2)):
                out.append(("slice",) + s)
        out += [("split", i) for i in range(n + 1)]
        for d in range(n + 2):
            out += [("rotate_left", d, False), ("rotate_right", d, False)]
        for c in COMPARE:
            out += [("cmp", c, "self"), ("cmp", c, ()), ("cmp", c, (1,)),
                    ("cmp", c, (1, 2)), ("cmp", c, tuple(m))]
        return out
    if kind in ("Stack", "Queue", "Deque", "PriorityQueue"):
        out.append(("is_full",))
        out += [(f,) for f in ("peek", "top", "get_left", "get_right")
                if hasattr(ad.cls, f)]
        return out
    if kind == "SkipList":
        for v in tuple(vals) + (77, -1):
            out.append(("in", v))
        out += [("getitem", i) for i in range(-1, len(m) + 1)]
        out.append(("get_height",))
        return out
    if kind == "SuffixTrie":
        pats = sorted({m[i:j] for i in range(len(m))
                       for j in range(i, len(m) + 1)} | {"z", m + "a"})
        for p in pats:
            out += [("has_substring", p), ("count_pattern_occurrences", p)]
        out += [(f,) for f in (
            "to_suffix_array", "get_longest_common_substring",
            "get_longest_repeated_substring", "get_height", "get_depth",
            "count_leaf_nodes")]
        n = len(m)
        out += [("get_lowest_common_ancestor", i, j) for i in range(n)
                for j in range(i, n)]
        return out
    # trees, heaps, tries
    for f in ("get_min", "get_max", "get_height", "get_depth",
              "count_leaf_nodes", "get_nodes_per_level", "is_balanced",
              "is_perfect", "is_strict", "get_leftside_view",
              "get_rightside_view", "preorder_traverse", "inorder_traverse",
              "postorder_traverse", "depth_first_traverse",
              "breadth_first_traverse", "get_black_height"):
        if hasattr(ad.cls, f):
            out.append((f,))
    if hasattr(ad.cls, "traverse"):
        out += [("traverse",)] + [("traverse", t) for t in TRAVERSALS]
    if kind in ("Trie", "RadixTrie"):
        for p in ad.probes:
            out += [("in", p), ("has_prefix", p), ("auto_complete", p)]
        out.append(("auto_complete",))
    elif kind != "SplayTree":       # its lookups are steps of the base system
        for v in held(ad, w) + tuple(probes):
            out.append(("in", v))
    return out


def held(ad, w):
    """A few values to look up."""
    from . import shape as sh
    if ad.kind == "Tree":
        vs = [x for r in sh.glevels(w.model) for x in r]
    elif ad.kind == "BinaryTree":
        vs = sh.bfs(w.model)
    else:
        vs = list(w.model)
    out = []
    for v in vs + [77, -5, 0.5]:
        if v not in out:
            out.append(v)
    return tuple(out)


def items(obj, limit=LIMIT):
    out = []
    for x in obj:
        out.append(x)
        if len(out) > limit:
            fail("iterating a %s yields more than %d items",
                 type(obj).__name__, limit)
    return out


def perform(real, op):
    name, args = op[0], op[1:]
    if name == "repr":
        return repr(real)
    if name == "str":
        return str(real)
    if name == "len":
        return len(real)
    if name == "iter":
        return items(real)
    if name == "half":
        # an iteration that is abandoned
        it = iter(real)
        return [x for x, _ in zip(it, range(1))]
    if name == "in":
        return args[0] in real
    if name == "getitem":
        return real[args[0]]
    if name == "slice":
        return real[slice(*args)]
    if name == "cmp":
        other = real if args[1] == "self" else type(real)(list(args[1]))
        return getattr(operator, args[0])(real, other)
    if name in ("rotate_left", "rotate_right"):
        return getattr(real, name)(args[0], inplace=args[1])
    return getattr(real, name)(*args)


def normal(v):
    """The observable value of an answer."""
    if isinstance(v, extra_base()):
        try:
            return (type(v).__name__, repr(v), tuple(
                normal(x) for x in items(v)))
        except TypeError:
            return (type(v).__name__, repr(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(normal(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((normal(a), normal(b))
                                 for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__,) + tuple(sorted(map(repr, v)))
    return (type(v).__name__, v)


def outcome(real, op):
    """(normalised outcome, returned object)"""
    o = call(perform, real, op)
    if o.exc is not None:
        return ("raises", o.exc.__name__), None
    return ("returns", normal(o.value),
            tuple(sorted(x.__name__ for x in o.warns))), o.value


def scribble(v, seen=None):
    """Modify everything modifiable in a returned answer."""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, extra.LinkedList):
        for f, a in (("add_front", (98,)), ("add_end", (99,)),
                     ("remove_front", ()), ("rotate_left", (1,)),
                     ("__setitem__", (0, 97)), ("clear", ()),
                     ("add_end", (96,))):
            call(getattr(v, f), *a)
    elif isinstance(v, list):
        for x in list(v):
            scribble(x, seen)
        v.append(99)
        v.insert(0, 98)
        v.reverse()
        del v[1:]
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, seen)
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, seen)
        v.clear()
    elif isinstance(v, set):
        v.clear()


class ReadSystem(AdapterSystem):
    """The histories of the base system with reads inserted anywhere."""

    def __init__(self, *a, **k):
        self.only = k.pop("only", None)
        # alone: only what the reads change is judged here
        self.alone = k.pop("alone", False)
        AdapterSystem.__init__(self, *a, **k)
        self.hist = []
        self.memo = {}
        # splay-tree lookups, part of the observation, reshape the tree
        self.observing = self.ad.kind != "SplayTree"

    def replay(self, history):
        fresh_world()
        w = self.start()
        self.hist = []
        for op in history:
            if op == OBSERVE:
                self.check(w)
                self.hist.append(op)
            else:
                self.step(w, op)
        return w

    def ops(self, w):
        for op in AdapterSystem.ops(self, w):
            yield op
        for r in reads(self.ad, w, self.vals, self.probes):
            if self.only is None or r[0] in self.only:
                yield ("read",) + r

    def base(self):
        return tuple(o for o in self.hist
                     if o != OBSERVE and o[0] != "read")

    def reference(self, w, op):
        base = self.base()
        ref = self.memo.get((base, op))
        if ref is None:
            full = list(self.hist)
            fresh_world()
            v = AdapterSystem.start(self)
            for b in base:
                AdapterSystem.step(self, v, b)
            ref = outcome(v.real, op[1:])[0]
            if len(self.memo) > 200000:
                self.memo.clear()
            self.memo[base, op] = ref
            v = self.replay(full)
            w.real, w.model, w.aux = v.real, v.model, v.aux
        return ref

    def step(self, w, op):
        if op[0] != "read":
            self.hist.append(op)
            try:
                return AdapterSystem.step(self, w, op)
            except core.Violation:
                if self.alone:
                    self.same_without(self.base())
                raise
        ref = self.reference(w, op)
        what = "%s, configuration %s: %s%r" % (
            self.ad.kind, core.show(self.cfg), op[1], op[2:])
        got, value = outcome(w.real, op[1:])
        if got != ref:
            fail("%s after reading: %s, but without the reads it gives %s",
                 what, core.show(got), core.show(ref))
        scribble(value)
        again = outcome(w.real, op[1:])[0]
        if again != ref:
            fail("%s called again, after the first answer was modified: %s "
                 "instead of %s", what, core.show(again), core.show(ref))
        self.hist.append(op)
        return "read " + op[1]


    def same_without(self, base):
        """Prune if the history goes wrong without any reads as well."""
        fresh_world()
        try:
            v = AdapterSystem.start(self)
            for b in base:
                AdapterSystem.step(self, v, b)
        except core.Violation as e:
            raise core.Prune(str(e))
        try:
            AdapterSystem.check(self, v)
        except core.Violation as e:
            # the check itself reads: is it the reading that spoils it?
            self.judge_reads(base)
            raise core.Prune(str(e))

    def judge_reads(self, base):
        def make():
            fresh_world()
            v = AdapterSystem.start(self)
            for b in base:
                AdapterSystem.step(self, v, b)
            return v

        try:
            rs = reads(self.ad, make(), self.vals, self.probes)
            ref = {r: outcome(make().real, r)[0] for r in rs}
            v = make()
        except core.Violation as e:
            raise core.Prune(str(e))
        for r in rs + rs[::-1]:
            got, value = outcome(v.real, r)
            if got != ref[r]:
                fail("%s, configuration %s: %s%r after reading: %s, but "
                     "without the reads it gives %s", self.ad.kind,
                     core.show(self.cfg), r[0], r[1:], core.show(got),
                     core.show(ref[r]))
            scribble(value)

    def check(self, w):
        try:
            AdapterSystem.check(self, w)
        except core.Violation:
            if self.alone:
                self.same_without(self.base())
            raise


def signature(ad, w, vals=(), probes=()):
    """Every answer of the structure (for comparing two of them)."""
    return [(r, outcome(w.real, r)[0]) for r in reads(ad, w, vals, probes)]


def tasks(kinds, bump=0, tag="reads", only=None, weight=0, checks=None,
          alone=False):
    """ReadSystem tasks for the given kinds at their small bounds."""
    out = []
    for kind in kinds:
        cfgs = small(kind, bump, checks)[1]
        for i, cfg in enumerate(cfgs):
            name = "%s %s %s" % (kind, tag, core.show(cfg)[:60])

            def make(kind=kind, i=i, name=name):
                a, cs, vs, cp = small(kind, bump, checks)
                return ReadSystem(name, a, cs[i], vs, cp, only=only,
                                  alone=alone, max_states=4000)
            out.append((name, "explore", make, weight))
    return out


def small(kind, bump=0, checks=None):
    from . import registry
    ad, cfgs, vals, cap = registry.small(kind)
    if kind in registry.SEARCH:
        ad = registry.adapter(kind, checks=checks or ("set",))
    if kind in registry.STATIC:
        if kind != "SuffixTrie":
            ad = registry.adapter(kind, n=3 + bump)
        return ad, ad.configs(), (), 0
    return ad, cfgs, vals, cap + bump
