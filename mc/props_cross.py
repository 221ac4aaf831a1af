"""C22 (pure observers), C23 (emptied = new), C26 (isolation), C28 (values),
and the reading steps added to the per-structure properties."""
import collections
import itertools

from . import core, reads, registry, shape as sh, statics
from .core import (OBSERVE, HarnessError, call, canon, digest, eq, expect,
                   extra, fail, fresh_world, get)
from .large import large_empty, large_fill
from . import large
from .lists import World
from .props import register
from .registry import ALL, CAPPED, HEAPS, LISTS, MUTABLE, SEARCH, STATIC, TRIES
from .systems import AdapterSystem

INF = float("inf")


# --------------------------------------------------------------------------
# every distinct state of a small system, as histories
# --------------------------------------------------------------------------
def reachable(ad, cfg, vals, cap, limit=3000):
    """One shortest history per distinct state."""
    s = AdapterSystem("reach", ad, cfg, vals, cap)
    seen = set()
    out = []
    todo = collections.deque([()])
    seen.add(digest(s.key(s.replay(()))))
    while todo and len(out) < limit:
        h = todo.popleft()
        out.append(h)
        for op in list(s.ops(s.replay(h))):
            w = s.replay(h)
            try:
                s.step(w, op)
            except core.Violation:
                continue        # the base system reports it
            k = digest(s.key(w))
            if k not in seen:
                seen.add(k)
                todo.append(h + (op,))
    return out


def rebuilt(ad, cfg, h):
    fresh_world()
    w = ad.new(*cfg)
    for op in h:
        ad.do(w, op)
    return w


def bad(ad, cfg, h):
    """Does this history go wrong all by itself?"""
    try:
        w = rebuilt(ad, cfg, h)
        ad.observe(w)
    except core.Violation:
        return True
    return False


# --------------------------------------------------------------------------
# C22
# --------------------------------------------------------------------------
def merges(a, b):
    """All interleavings of a steps of one iterator and b of the other."""
    for c in itertools.combinations(range(a + b), a):
        s = set(c)
        yield tuple(0 if i in s else 1 for i in range(a + b))


def iter_cases(kind, bump):
    ad, cfgs, vals, cap = reads.small(kind, bump)
    if not hasattr(ad.cls, "__iter__"):
        return
    for ci, cfg in enumerate(cfgs):
        for h in reachable(ad, cfg, vals, cap):
            yield ("two", ci, h)
            yield ("three", ci, h)
            yield ("between", ci, h)
            yield ("dropped", ci, h)


def run_iters(kind, bump):
    ad, cfgs, vals, cap = reads.small(kind, bump)

    def pull(it, want, pos, what):
        """One step of an iterator that must now yield want[pos]."""
        o = call(next, it)
        if pos < len(want):
            expect("%s, item %d" % (what, pos), o)
            if not core.same(o.value, want[pos]):
                fail("%s: item %d is %s instead of %s", what, pos,
                     core.show(o.value), core.show(want[pos]))
        elif o.exc is not StopIteration:
            fail("%s: does not stop after %d items (%s)", what, len(want),
                 o.msg or core.show(o.value))

    def run(case):
        mode, ci, h = case
        cfg = cfgs[ci]
        w = rebuilt(ad, cfg, h)
        want = call(reads.items, w.real)
        expect("%s: iteration" % kind, want)
        want = want.value
        n = len(want)
        what = "%s holding %s: iteration" % (kind, core.show(want))
        tr = 0
        if mode == "two":
            k = min(n + 1, 5)
            for m in merges(k, k):
                w = rebuilt(ad, cfg, h)
                its = [iter(w.real), iter(w.real)]
                pos = [0, 0]
                for i in m:
                    pull(its[i], want, pos[i], "%s, two iterators "
                         "interleaved as %s" % (what, m))
                    pos[i] += 1
                tr += len(m)
        elif mode == "three":
            # the second and third start at every point of the first
            for a in range(n + 1):
                for b in range(a, n + 1):
                    w = rebuilt(ad, cfg, h)
                    lab = "%s, further iterations run at its steps %d and " \
                        "%d" % (what, a, b)
                    it = iter(w.real)
                    for i in range(n + 1):
                        for c in (a, b):
                            if c == i:
                                jt = iter(w.real)
                                for j in range(n + 1):
                                    pull(jt, want, j, lab + ", inner")
                                tr += n
                        pull(it, want, i, lab)
                    tr += n
        elif mode == "between":
            for r in reads.reads(ad, w, vals):
                for at in range(n + 1):
                    w = rebuilt(ad, cfg, h)
                    ref = reads.outcome(rebuilt(ad, cfg, h).real, r)[0]
                    w = rebuilt(ad, cfg, h)
                    lab = "%s with %s%r before step %d" % (what, r[0], r[1:],
                                                           at)
                    it = iter(w.real)
                    for i in range(n + 1):
                        if i == at:
                            got, v = reads.outcome(w.real, r)
                            if got != ref:
                                fail("%s: %s instead of %s", lab,
                                     core.show(got), core.show(ref))
                            reads.scribble(v)
                        pull(it, want, i, lab)
                    tr += n + 2
        else:
            # iterations that are abandoned half way
            for at in range(n + 1):
                w = rebuilt(ad, cfg, h)
                it = iter(w.real)
                for i in range(at):
                    pull(it, want, i, what)
                del it
                it = iter(w.real)
                lab = what + " after one that was dropped at step %d" % at
                for i in range(n + 1):
                    pull(it, want, i, lab)
                if kind != "SplayTree":
                    try:
                        ad.observe(w)
                    except core.Violation:
                        if bad(ad, cfg, h):
                            raise core.Prune(lab)
                        raise
                tr += n + at
        return (case, tr)
    return run


@register("C22", ["answers are compared by value and kind; the exception to "
                  "purity is a splay-tree lookup, which is a step of its "
                  "own"])
def c22(th):
    t = []
    for kind in ALL:
        bump = 2 if th else 1
        if kind in TRIES or kind == "PriorityQueue":
            bump -= 1
        t += reads.tasks([kind], bump, "reading anywhere", weight=6,
                         alone=True)
        b = bump if kind not in ("AVL", "RedBlackTree", "BinaryTree") \
            else bump - 1
        t.append(("%s: every interleaving of iterations" % kind, "sweep",
                  lambda k=kind, b=b: (iter_cases(k, b), run_iters(k, b)),
                  5))
        t.append(("%s: larger ones read" % kind, "sweep",
                  lambda k=kind: (large.states(k, large.sizes(th)),
                                  large.run_reads(k)), 5))
        t.append(("%s: much larger ones read" % kind, "sweep",
                  lambda k=kind: (large.big_states(k, th),
                                  large.run_reads(k)), 5))
    return [x for x in t if not (
        "interleaving" in x[0] and not hasattr(
            getattr(extra, x[0].split(":")[0]), "__iter__"))]


# --------------------------------------------------------------------------
# C23
# --------------------------------------------------------------------------
class EmptySystem(AdapterSystem):
    """Histories of the structure; wherever it is empty it must be
    indistinguishable from a new one: bisimulation by exhaustive pairs of
    runs up to `depth` further operations (or until the complete states of
    the two coincide, after which nothing can tell them apart)."""

    def __init__(self, *a, **k):
        self.depth = k.pop("depth", 3)
        AdapterSystem.__init__(self, *a, **k)
        self.observing = False
        self.hist = ()
        self.memo = {}
        self.pairs = 0
        self.met = 0

    def replay(self, history):
        self.hist = []
        return AdapterSystem.replay(self, history)

    def step(self, w, op):
        self.hist.append(op)
        try:
            return AdapterSystem.step(self, w, op)
        except core.Violation as e:
            raise core.Prune(str(e))

    def run(self, ops):
        fresh_world()
        w = self.start()
        for op in ops:
            AdapterSystem.step(self, w, op)
        return w

    def new_instance(self, tail):
        """State and answers of a new structure after `tail`; None, None if
        the operations after it."""
        key = tuple(tail)
        if key not in self.memo:
            fresh_world()
            w = self.blank()
            try:
                for op in tail:
                    self.ad.do(w, op)
            except core.Violation:
                self.memo[key] = None
                return None
            k = digest(canon([w.real]))
            sig = reads.signature(self.ad, w, self.vals, self.probes)
            ops = list(self.ops(w)) if len(tail) < self.depth else ()
            self.memo[key] = (k, sig, ops)
        return self.memo[key]

    def blank(self):
        if self.ad.kind in ("Tree", "BinaryTree"):
            return self.ad.new(None)
        return self.ad.new(*self.cfg)

    def empty(self, w):
        return w.model is None or len(w.model) == 0

    def check(self, w):
        if not self.empty(w):
            return
        h = tuple(self.hist)
        todo = collections.deque([()])
        while todo:
            tail = todo.popleft()
            new = self.new_instance(tail)
            if new is None:
                continue        # a new one breaks: another property
            try:
                w = self.run(h)
                for op in tail:
                    # the model comparison inside judges the outcome of
                    # every operation
                    AdapterSystem.step(self, w, op)
            except core.Violation as e:
                fail("emptied by %s, then %s: %s; a new one does it right",
                     show_ops(h), show_ops(tail), e)
            self.pairs += 1
            k = digest(canon([w.real]))
            sig = reads.signature(self.ad, w, self.vals, self.probes)
            if sig != new[1]:
                for (r, a), (_r, b) in zip(sig, new[1]):
                    if a != b:
                        fail("emptied by %s, then %s: %s%r gives %s, a new "
                             "one gives %s", show_ops(h), show_ops(tail),
                             r[0], r[1:], core.show(a), core.show(b))
                fail("emptied by %s, then %s: differs from a new one",
                     show_ops(h), show_ops(tail))
            if k == new[0]:
                self.met += 1
                continue
            if len(tail) < self.depth:
                for op in new[2]:
                    todo.append(tail + (op,))

    def ops(self, w):
        return AdapterSystem.ops(self, w)


def show_ops(h):
    return "; ".join("%s%r" % (o[0], o[1:]) for o in h) or "nothing"


@register("C23", ["random draws after emptying are the explorer's answers, "
                  "the same for both structures",
                  "two structures whose complete object graphs coincide are "
                  "not told apart further"])
def c23(th):
    t = []
    for kind in MUTABLE + ("Tree", "BinaryTree"):
        bump = (3 if th else 2) - (kind in TRIES + ("PriorityQueue",))
        depth = 4
        if kind in TRIES + LISTS + ("PriorityQueue", "Deque"):
            depth = 3
        cfgs = list(reads.small(kind, bump)[1])
        if kind in CAPPED:
            # a cleared structure keeps its (rounded) capacity
            cfgs += [(1,), (3,), (1.4,), (2.6,)]
        for i, cfg in enumerate(cfgs):
            if kind in STATIC and cfg == (None,):
                continue
            name = "%s %s: emptied against new" % (kind,
                                                   core.show(cfg)[:60])

            def make(kind=kind, cfg=cfg, i=i, name=name, bump=bump,
                     depth=depth):
                a, cs, vs, cp = reads.small(kind, bump)
                return EmptySystem(name, a, (list(cs) + [cfg])[
                    i if i < len(cs) else -1], vs, cp, depth=depth + th)
            t.append((name, "explore", make, 5))
        if kind in MUTABLE:
            t.append(("%s: every way of emptying" % kind, "sweep",
                      lambda k=kind: (emptying_cases(k, True),
                                      run_emptying(k)), 6))
            t.append(("%s: large ones emptied" % kind, "sweep",
                      lambda k=kind: (large_cases(k, th), run_large(k)), 6))
    t.append(("Tree and BinaryTree: large ones cleared", "sweep", lambda: (
        static_cases(th), run_static), 4))
    return t


def static_cases(th):
    from . import large
    for n in list(range(1, 42)) + [65, 100, 130, 200, 257]:
        for kind in ("Tree", "BinaryTree"):
            for lab, _c in large.large_static(kind, n):
                for reads_first in (False, True):
                    yield kind, n, lab, reads_first


def run_static(case):
    """Cleared, a tree is what a new one is; linked again, it is that tree."""
    from . import large, statics
    kind, n, lab, reads_first = case
    s = dict(large.large_static(kind, n))[lab]
    what = "%s of %d nodes, %s, cleared" % (kind, n, lab)
    s = (sh.glabel if kind == "Tree" else sh.label)(s, range(n))
    build, check = ((statics.build_general, statics.check_general)
                    if kind == "Tree" else
                    (statics.build_binary, statics.check_binary))
    t = build(s)
    if reads_first:
        check(t, s, what[:-9])
    expect(what, call(t.clear), warns=False)
    check(t, None, what)
    other = build(s)
    if hasattr(t, "_root"):
        t._root = other._root
        check(t, s, what + ", then linked again")
    return (case, 3)


def filling(kind, n):
    """Operation sequences that fill a structure with n items."""
    if kind in LISTS:
        for how in itertools.product(("add_front", "add_end"), repeat=n):
            yield tuple((f, i) for i, f in enumerate(how))
    elif kind == "Stack":
        yield tuple(("push", i) for i in range(n))
    elif kind == "Queue":
        yield tuple(("enqueue", i) for i in range(n))
    elif kind == "Deque":
        for how in itertools.product(("append_left", "append_right"),
                                     repeat=n):
            yield tuple((f, i) for i, f in enumerate(how))
    elif kind == "PriorityQueue":
        for how in itertools.product((1, 2, 3), repeat=n):
            yield tuple(("enqueue", p) for p in how)
    elif kind == "SkipList":
        for how in itertools.product(((1,), (0, 1), (0, 0, 1)), repeat=n):
            yield tuple(("insert", i, t) for i, t in enumerate(how))
    elif kind in SEARCH:
        for p in itertools.permutations(range(n)):
            if kind == "Treap":
                yield tuple(("insv", x, 5 + (x * 7) % 5) for x in p)
            else:
                yield tuple(("insv", x) for x in p)
    elif kind in HEAPS:
        for p in itertools.permutations(range(n)):
            yield tuple(("insv", x) for x in p)
    else:
        words = ("a", "ab", "abc", "b", "ba", "abd")[:n]
        for p in itertools.permutations(words):
            yield tuple(("insert", x) for x in p)


def emptying(kind, n):
    """Every order of removing n items."""
    yield "clear"
    if kind in LISTS:
        ways = (("remove_front",), ("remove_end",), ("del", 0))
        for how in itertools.product(range(3), repeat=n):
            yield tuple(ways[i] for i in how)
        for p in itertools.permutations(range(n)):
            yield tuple(("remove", x, True) for x in p)
    elif kind == "Stack":
        yield (("pop",),) * n
    elif kind == "Queue":
        yield (("dequeue",),) * n
    elif kind == "Deque":
        for how in itertools.product(("pop_left", "pop_right"), repeat=n):
            yield tuple((f,) for f in how)
    elif kind == "PriorityQueue":
        for how in itertools.product(("dequeue", "dequeue_min"), repeat=n):
            yield tuple((f,) for f in how)
    elif kind == "SkipList":
        for p in itertools.permutations(range(n)):
            yield tuple(("remove", x) for x in p)
        for p in itertools.product(range(2), repeat=n):
            yield tuple(("del", min(i, n - 1 - k))
                        for k, i in enumerate(p))
    elif kind in SEARCH:
        for p in itertools.permutations(range(n)):
            yield tuple(("remv", x) for x in p)
    elif kind in HEAPS:
        for how in itertools.product(("remove_min", "remove_max"),
                                     repeat=n):
            yield tuple((f,) for f in how)
        for p in itertools.permutations(range(n)):
            yield tuple(("remv", x) for x in p)
    else:
        words = ("a", "ab", "abc", "b", "ba", "abd")[:n]
        for p in itertools.permutations(words):
            yield tuple(("remove", x) for x in p)


SIZES = {"BST": 5, "AVL": 5, "RedBlackTree": 5, "SplayTree": 4, "Treap": 5,
         "MinHeap": 5, "MaxHeap": 5, "Trie": 5, "RadixTrie": 5}


def emptying_cases(kind, th):
    hi = SIZES.get(kind, 4) - (not th and kind not in ())
    for n in range(1, hi + 1):
        for f in filling(kind, n):
            yield (f, n)


def refills(kind):
    """Follow-up histories on the emptied structure."""
    for n in (1, 3):
        yield list(filling(kind, n))[-1]
    yield list(filling(kind, 2))[0]


def run_emptying(kind):
    ad = registry.adapter(kind, words=("a", "ab", "abc", "b", "ba", "abd"))
    memo = {}

    def after(ops):
        return rebuilt(ad, (), ops)

    def new(ops):
        if ops not in memo:
            w = after(ops)
            memo[ops] = (canon([w.real]), reads.signature(ad, w))
        return memo[ops]

    def run(case):
        fill, n = case
        tr = 0
        for e in emptying(kind, n):
            ops = fill + ((("clear",),) if e == "clear" else e)
            follow = list(refills(kind))
            k0, s0 = new(())
            w = after(ops)
            if w.model:
                raise HarnessError("not emptied: %r" % (ops,))
            tr += len(ops)
            if canon([w.real]) == k0:
                continue
            for f in [()] + follow:
                w = after(ops + f)
                sig = reads.signature(ad, w)
                _k, want = new(f)
                tr += len(f)
                for (r, a), (_r, b) in zip(sig, want):
                    if a != b:
                        fail("%s emptied by %s, then %s: %s%r gives %s, a "
                             "new one gives %s", kind, show_ops(ops),
                             show_ops(f), r[0], r[1:], core.show(a),
                             core.show(b))
        return (case, tr)
    return run


def large_cases(kind, th):
    for n in (0, 5, 6, 7, 8, 9, 12, 17, 24, 33) + ((48, 65) if th else ()):
        for lab, f in large_fill(kind, n) if n else [("none", ())]:
            yield (n, lab)
    for n in (41, 50, 65, 66, 101, 130, 257):
        yield (n, "up")
        yield (n, "stride")


def run_large(kind):
    def run(case):
        n, lab = case
        ad = registry.adapter(kind, words=("a", "ab", "abc", "b", "ba",
                                           "abd"))
        fill = dict(large_fill(kind, n))[lab] if n else ()
        follow = [()] + list(refills(kind))
        new = []
        for f in follow:
            w = rebuilt(ad, (), f)
            new.append((canon([w.real]), reads.signature(ad, w)))
        tr = 0
        for _how, e in large_empty(kind, n):
            ops = fill + e
            w = rebuilt(ad, (), ops)
            if w.model:
                raise HarnessError("not emptied: %r" % (ops,))
            tr += len(ops)
            if canon([w.real]) == new[0][0]:
                continue
            for f, (_k, want) in zip(follow, new):
                w = rebuilt(ad, (), ops + f)
                tr += len(ops) + len(f)
                for (r, a), (_r, b) in zip(reads.signature(ad, w), want):
                    if a != b:
                        fail("%s emptied by %s, then %s: %s%r gives %s, a "
                             "new one gives %s", kind, show_ops(ops),
                             show_ops(f), r[0], r[1:], core.show(a),
                             core.show(b))
        return (case, tr)
    return run


# --------------------------------------------------------------------------
# C26
# --------------------------------------------------------------------------
def pair_ops(ad, w, vals, cap, per_name=2):
    """Every kind of operation, with its first and its last argument."""
    by = collections.OrderedDict()
    for op in ad.mutators(w, vals, cap):
        by.setdefault(op[0], []).append(op)
    for ops in by.values():
        yield ops[0]
        if len(ops) > 1 and per_name > 1:
            yield ops[-1]


PAIR = {
    "LinkedList": ((1,), 2), "DoublyLinkedList": ((1,), 2),
    "CircularLinkedList": ((1,), 2), "Stack": ((1,), 2), "Queue": ((1,), 2),
    "Deque": ((1,), 2), "PriorityQueue": ((1, 2), 2),
    "SkipList": ((1, 2), 2), "BST": ((1, 2), 2), "AVL": ((1, 2, 3), 3),
    "RedBlackTree": ((1, 2), 2), "SplayTree": ((1, 2), 2),
    "Treap": ((1, 2), 2), "MinHeap": ((1, 2), 2), "MaxHeap": ((1, 2), 2),
    "Trie": ((), 2), "RadixTrie": ((), 2)}


def pair_adapter(kind):
    if kind == "PriorityQueue":
        return registry.adapter(kind)
    if kind == "SkipList":
        from . import lists
        return lists.SkipListAdapter(((1,), (0, 1)))
    if kind == "Treap":
        return registry.adapter(kind, checks=("set",), prios=(1, 2))
    if kind in SEARCH:
        return registry.adapter(kind, checks=("set",))
    return registry.adapter(kind, words=("ab", "a", "b")) \
        if kind in TRIES else registry.adapter(kind)


def pair_cfg(kind, which):
    if kind == "Tree":
        return (((1, [(2, []), (3, [])]),),
                ((5, [(6, [(7, [])])]),))[which]
    if kind == "BinaryTree":
        return (((1, (2, None, None), (3, None, None)),),
                ((5, (6, (7, None, None), None), None),))[which]
    if kind == "SuffixTrie":
        return (("aba",), ("abb",))[which]
    if kind in CAPPED:
        return ((INF,), (2,))[which]
    return ()


class PairSystem(core.System):
    """Two structures used alternately; both are observed completely in every
    joint state, and new ones are created in every joint state."""

    max_states = 20000

    def __init__(self, name, a, b, bump=0, cfgs=None):
        self.name = name
        self.hist = []
        self.cfgs = cfgs or (pair_cfg(a, 0), pair_cfg(b, 1))
        self.kinds = (a, b)
        self.ads = (pair_adapter(a), pair_adapter(b))
        self.bump = bump

    def start(self):
        self.hist = []
        return [ad.new(*c) for c, ad in zip(self.cfgs, self.ads)]

    def alone(self, i, e):
        """Prune if structure i goes wrong without the other one, too."""
        fresh_world()
        try:
            w = self.ads[i].new(*self.cfgs[i])
            self.ads[i].observe(w)
            for op in self.hist:
                if op[0] == i:
                    if op[1] == "extend_other":
                        return
                    self.ads[i].do(w, op[1:])
                    self.ads[i].observe(w)
        except core.Violation:
            raise core.Prune(str(e))

    def ops(self, ws):
        for i, w in enumerate(ws):
            vals, cap = PAIR.get(self.kinds[i], ((), 0))
            for op in pair_ops(self.ads[i], w, vals, cap + self.bump):
                yield (i,) + op
        if self.kinds[0] == self.kinds[1] and self.kinds[0] in LISTS \
                and len(ws[0].model) + len(ws[1].model) <= 3 + self.bump:
            yield (0, "extend_other")
            yield (1, "extend_other")

    def step(self, ws, op):
        i = op[0]
        other = ws[1 - i]
        self.hist.append(op)
        if op[1] == "extend_other":
            o = call(ws[i].real.extend, other.real)
            if o.exc is not None:
                raise core.Prune(o.msg)
            ws[i].model.extend(other.model)
            return "extend"
        try:
            out = self.ads[i].do(ws[i], op[1:])
        except core.Violation as e:
            self.alone(i, e)
            fail("next to a %s: %s", self.kinds[1 - i], e)
        # an immediate look at the other one
        try:
            self.ads[1 - i].contents(other.real, other.model,
                                     "%s" % self.kinds[1 - i])
        except core.Violation as e:
            self.alone(1 - i, e)
            fail("%s%r on a %s changed the other structure: %s", op[1],
                 op[2:], self.kinds[i], e)
        return out

    def check(self, ws):
        for i in (0, 1):
            try:
                self.ads[i].observe(ws[i])
            except core.Violation as e:
                self.alone(i, e)
                fail("with a %s alongside: %s", self.kinds[1 - i], e)
        # new ones, of both kinds
        for i in (0, 1):
            try:
                self.newborn(i)
            except core.Violation as e:
                fresh_world()
                try:
                    self.newborn(i)
                except core.Violation:
                    raise core.Prune(str(e))
                fail("a new %s created next to others: %s", self.kinds[i], e)
        for i in (0, 1):
            try:
                self.ads[i].observe(ws[i])
            except core.Violation as e:
                self.alone(i, e)
                fail("after new structures were created: %s", e)

    def newborn(self, i):
        ad = self.ads[i]
        v = ad.new(*self.cfgs[i])
        ad.observe(v)
        if self.kinds[i] not in STATIC:
            vals, cap = PAIR[self.kinds[i]]
            ad.do(v, next(iter(pair_ops(ad, v, vals, cap))))
            ad.observe(v)

    def key(self, ws):
        return (canon([w.real for w in ws]),
                [repr(w.model) for w in ws], [repr(w.aux) for w in ws])


def node_classes():
    """Every node class of the package, by its constructor arguments."""
    from importlib import import_module as im
    T, L = "extra.trees.", "extra.lists."
    out = []
    for mod, name, args in (
            (L + "linked_list", "Node", (1,)),
            (L + "doubly_linked_list", "DoublyNode", (1,)),
            (L + "priority_queue", "PriorityNode", (1, 2)),
            (L + "skip_list", "SkipNode", (1,)),
            (T + "tree", "TreeNode", (1,)),
            (T + "binary_tree", "BinaryTreeNode", (1,)),
            (T + "bst", "BSTNode", (1,)), (T + "avl", "AVLNode", (1,)),
            (T + "red_black_tree", "RedBlackNode", (1,)),
            (T + "treap", "TreapNode", (1, 2)),
            (T + "_heap", "HeapNode", (1,)),
            (T + "trie", "TrieNode", ("a",))):
        try:
            c = getattr(im(mod), name)
            c(*args)
        except Exception:  # noqa: BLE001
            continue        # the class is not public API everywhere
        out.append((name, c, args))
    return out


def black():
    from importlib import import_module
    return import_module("extra.trees.red_black_tree").Color.BLACK


def setters(c, args):
    """Public one-argument modifiers of a node class and an argument."""
    text = type(args[0]) is str

    def mk(i):
        return c(*((chr(98 + i) if text else 10 + 10 * i,) + args[1:]))

    for f, a in (("set_next", lambda: (mk(0),)), ("set_prev", lambda: (mk(0),)),
                 ("set_down", lambda: (mk(0),)),
                 ("set_left", lambda: (c(*((-5,) + args[1:])),)),
                 ("set_right", lambda: (mk(0),)),
                 ("set_parent", lambda: (mk(0),)),
                 ("set_data", lambda: (2,)), ("set_priority", lambda: (9,)),
                 ("set_height", lambda: (3,)),
                 ("set_color", lambda: (black(),)),
                 ("set_children", lambda: ([mk(0), mk(1)],)),
                 ("set_child", lambda: ("b", mk(0)) if text else (mk(0),))):
        if hasattr(c, f):
            yield f, a


def node_look(n):
    """Everything the getters of a node answer (nodes by their data)."""
    out = []
    for f in sorted(dir(n)):
        if not f.startswith(("get_", "is_")):
            continue
        o = call(getattr(n, f))
        out.append((f, o.exc, thin(o.value)))
    o = call(repr, n)
    return out + [("repr", o.exc, o.value)]


def thin(v):
    if type(v) in (list, tuple):
        return [thin(x) for x in v]
    if hasattr(v, "get_data"):
        return "node %r" % (v.get_data(),)
    return v if type(v) in (int, str, bool, float, type(None)) else repr(v)


def node_pairs():
    cs = node_classes()
    for i in range(len(cs)):
        for j in range(len(cs)):
            for ops in itertools.product(range(len(list(
                    setters(*cs[i][1:])))), repeat=2):
                yield (i, j, ops)


def run_node_pair(case):
    """A node is modified twice; another one made before, between or after
    is as new."""
    i, j, ops = case
    cs = node_classes()
    _n, c, args = cs[i]
    name, d, dargs = cs[j]
    fresh_world()
    want = node_look(d(*dargs))
    fresh_world()
    sets = list(setters(c, args))
    others = [("before", d(*dargs))]
    a = c(*args)
    for k in ops:
        f, arg = sets[k]
        call(getattr(a, f), *arg())
        others.append(("after", d(*dargs)))
    for when, o in others:
        got = node_look(o)
        for x, y in zip(got, want):
            if x != y:
                fail("a %s made %s %s on a %s: %s gives %s, a new one gives "
                     "%s", name, when, ", ".join(sets[k][0] for k in ops),
                     _n, x[0], core.show(x[1:]), core.show(y[1:]))
    return (case, 4)


ITERABLES = LISTS + ("SkipList",) + SEARCH + HEAPS


def from_iterable(kind, seq):
    if kind in HEAPS:
        return getattr(extra, kind).heapify(seq)
    return getattr(extra, kind)(seq)


def shared_cases(th):
    """Two structures made from one Python container, then one is used."""
    for a in ITERABLES:
        for b in ITERABLES:
            for vals in ([2, 1, 3], [1], []):
                for src in ("list", "tuple", "deque"):
                    yield (a, b, tuple(vals), src)


CONT = {"list": list, "tuple": tuple, "deque": collections.deque}


def wrap(kind, real, vals):
    """World over an already built structure."""
    m = list(vals)
    if kind not in LISTS:
        m = sorted(m) if kind in HEAPS else sorted(set(m))
    w = World(real, m)
    if kind in SEARCH:
        w.aux = {}
    return w


def plain_ad(kind):
    if kind in SEARCH:
        return registry.adapter(kind, checks=("set",))
    return registry.adapter(kind)


def run_shared(case):
    a, b, vals, src = case
    tr = 0
    if src != "list" and a in LISTS + ("SkipList",) + SEARCH + HEAPS:
        # only containers the constructor accepts
        o = call(from_iterable, a, CONT[src](vals))
        p = call(from_iterable, b, CONT[src](vals))
        if o.exc or p.exc:
            return None
    ad, bd = plain_ad(a), plain_ad(b)
    w = wrap(a, from_iterable(a, list(vals)), vals)
    alphabet = {"SkipList": (1, 2, 9)}.get(a, (1, 9) if a in LISTS else ())
    cap = len(vals) + 1
    ops_a = list(ad.mutators(w, alphabet, cap))
    for op in ops_a:
        try:
            fresh_world()
            x = wrap_new(a, vals)
            ad.do(x, op)
            ad.observe(x)
            fresh_world()
            bd.observe(wrap_new(b, vals))
        except core.Violation as e:
            raise core.Prune(str(e))    # goes wrong all by itself
        fresh_world()
        source = CONT[src](vals)
        keep = CONT[src](vals)
        x = wrap(a, get(a, from_iterable, a, source), vals)
        y = wrap(b, get(b, from_iterable, b, source), vals)
        what = "%s and %s made from the %s %s" % (a, b, src, list(vals))
        if a == "Treap":
            x.aux = treap_aux(x)
        if b == "Treap":
            y.aux = treap_aux(y)
        ad.do(x, op)
        if source != keep:
            fail("%s: %s%r on the %s changed the %s it was made from to %s",
                 what, op[0], op[1:], a, src, source)
        try:
            bd.observe(y)
        except core.Violation as e:
            fail("%s: %s%r on the %s changed the %s: %s", what, op[0],
                 op[1:], a, b, e)
        if src != "tuple":
            # and the other way round: the container is used on
            source.append(55)
            source.reverse()
            try:
                ad.observe(x)
                bd.observe(y)
            except core.Violation as e:
                fail("%s: modifying the %s changed it: %s", what, src, e)
        tr += 3
    return (case, tr)


def wrap_new(kind, vals):
    w = wrap(kind, get(kind, from_iterable, kind, list(vals)), vals)
    if kind == "Treap":
        w.aux = treap_aux(w)
    return w


def treap_aux(w):
    root = sh.root_of(w.real)
    if root is core.MISSING or root is None:
        return {}
    return {n.get_data(): n.get_priority()
            for n in sh.binary_nodes(root, 5000)}


@register("C26", ["the stored item objects themselves may be shared"])
def c26(th):
    t = []
    for i, a in enumerate(ALL):
        for b in ALL[i:]:
            name = "%s beside %s" % (a, b)
            t.append((name, "explore",
                      lambda a=a, b=b, n=name: PairSystem(n, a, b, 1 if th else 0),
                      3))
    same = [(k, k, c, c) for k in CAPPED for c in ((INF,), (2,), (1.4,))]
    same += [(a, b, c, c) for a, b in itertools.combinations(CAPPED, 2)
             for c in ((2,), (1.4,))]
    same += [(k, k, (0,), (2,)) for k in CAPPED]
    same += [(k, k, pair_cfg(k, 0), pair_cfg(k, 0)) for k in STATIC]
    same.append(("SuffixTrie", "SuffixTrie", ("ab",), ("cdcd",)))
    for a, b, c, d in same:
        name = "%s%r beside %s%r" % (a, c, b, d)
        t.append((name, "explore", lambda a=a, b=b, c=c, d=d, n=name:
                  PairSystem(n, a, b, 1 if th else 0, (c, d)), 3))
    for kind in ALL:
        t.append(("%s: larger ones side by side" % kind, "sweep",
                  lambda k=kind: (large.pair_cases(k, large.sizes(th)),
                                  large.run_pairs(k)), 8))
        t.append(("%s: much larger ones side by side" % kind, "sweep",
                  lambda k=kind: (large.pair_cases(k, big=th + 1),
                                  large.run_pairs(k)), 8))
    t.append(("nodes beside nodes", "sweep", lambda: (
        node_pairs(), run_node_pair), 1))
    t.append(("structures made from one container", "sweep",
              lambda: (shared_cases(th), run_shared), 9))
    return t
