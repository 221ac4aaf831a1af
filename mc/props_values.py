"""C28: every supported value is stored faithfully."""
import itertools

from . import core, drawings, large, lists, registry, shape as sh, statics
from .core import call, eq, expect, extra, fail, get, same
from .lists import World, nl
from .props import register
from .registry import HEAPS, LISTS, SEARCH, TRIES
from .systems import AdapterSystem

INF = float("inf")

# What lists, stacks, queues, deques, priority queues and tree nodes accept.
VALUES = (0, "", False, (), [], {}, 0.0, b"", True, 1, -3, 1.5, 10 ** 30,
          1e308, INF, -INF, "a\nb", "\n", "\\n", " x ", "é∞", (0,), [0, [""]],
          ("a\nb",), {"k": [1]}, frozenset(), 1j, "a\r\nb\u2028", "\t\\t\x0c")
NUMBERS = (0, -1, 1.5, -0.5, 10 ** 30, -10 ** 30, 1e308, 5e-324, INF, -INF,
           0.0, 7)
TEXTS = ("0", "a\nb", "\\n", "é", "ab c", "False", "✓", "a",
         "a\rb", "x\u2028y")


def untouched(what, snap, vals):
    """The stored objects are the caller's: nobody may modify them."""
    for v, s in zip(vals, snap):
        if repr(v) != s:
            fail("%s: the stored object became %r (was %s)", what, v, s)


def printed(ad, w, what):
    drawings.check(ad, w, what)


class ValueSystem(AdapterSystem):
    """All histories over two particular values."""

    observing = False

    def check(self, w):
        AdapterSystem.check(self, w)
        printed(self.ad, w, "%s holding %s" % (self.ad.kind,
                                               core.show(w.model)))
        if w.model:
            untouched(self.ad.kind, [repr(nl(v)) for v in self.vals],
                      [nl(v) for v in self.vals])


def pairs(vals):
    """Every unordered pair, plus each value alone with itself."""
    return list(itertools.combinations(vals, 2)) + [(v, v) for v in vals]


def value_cases(kind, th):
    vs = VALUES
    for a, b in pairs(range(len(vs))):
        yield (a, b)


def run_values(kind, cap):
    """One case = the complete reachable state space over two values."""

    def run(case):
        sane(kind, lambda c: judge(c, c), ("p", "q"), ("p", "p"))
        return judge(case, (VALUES[case[0]], VALUES[case[1]]))

    def judge(case, ab):
        a, b = ab
        snap = [repr(v) for v in VALUES]
        ad = registry.adapter(kind)
        vals = (a,) if a is b else (a, b)
        if kind == "PriorityQueue":
            return run_pq(vals, case)
        s = ValueSystem("%s of %r" % (kind, vals), ad, (), vals, cap,
                        probes=vals + ("zz",))
        if kind in LISTS:
            s.opfilter = few(a, b)
        res = core.Result(s.name)
        run_inner(s, res)
        if kind in LISTS:
            for items in ((a,), (a, b), (b, a, b)):
                core.fresh_world()
                w = ad.new(items)
                ad.observe(w, vals + ("zz",))
                printed(ad, w, "%s(%r)" % (kind, items))
                res.transitions += len(items)
        untouched(kind, snap, VALUES)
        return (case, res.transitions)
    return run


def sane(kind, fn, *cases):
    """Do plain values of the same number work at all?  If not, what is wrong
    is not the storing of particular values."""
    key = kind
    if key not in _SANE:
        _SANE[key] = ""
        for c in cases:
            try:
                fn(c)
            except core.Violation as e:
                _SANE[key] = str(e)
                break
            finally:
                core.fresh_world()
    if _SANE[key]:
        raise core.Prune(_SANE[key])


_SANE = {}


def few(a, b):
    def ok(op):
        if op[0] in ("rotate_left", "rotate_right"):
            return op[1] == 1
        return op[0] != "extend_self"
    return ok


def run_inner(s, res):
    """Breadth first search inside one case; violations propagate."""
    seen = {core.digest(s.key(s.replay(())))}
    s.check(s.replay(()))
    todo = [()]
    while todo:
        nxt = []
        for h in todo:
            for op in list(s.ops(s.replay(h))):
                w = s.replay(h)
                s.step(w, op)
                res.transitions += 1
                k = core.digest(s.key(w))
                if k not in seen:
                    seen.add(k)
                    s.check(w)
                    nxt.append(h + (op,))
        todo = nxt
    res.states = len(seen)


def run_pq(vals, case):
    """Priority queues: items are told apart by their value and type."""
    tr = 0
    ad = lists.PriorityQueueAdapter()
    for n in (1, 2, 3):
        for items in itertools.product(vals, repeat=n):
            for prios in itertools.product((1, 2, 0, -1.5), repeat=n):
                if n == 3 and max(prios) > 1:
                    continue
                # equal items of equal priority cannot be told apart
                if any(same([nl(x), p], [nl(y), q])
                       for (x, p), (y, q) in itertools.combinations(
                           list(zip(items, prios)), 2)):
                    continue
                core.fresh_world()
                w = ad.new()
                for it, p in zip(items, prios):
                    ad.do(w, ("enqueue_item", p, it))
                    ad.observe(w)
                    tr += 1
                printed(ad, w, "PriorityQueue")
                i = 0
                while w.model:
                    ad.do(w, ("dequeue",) if i % 2 else ("dequeue_min",))
                    ad.observe(w)
                    i += 1
                    tr += 1
    return (case, tr)


# ---- numbers ---------------------------------------------------------------
def number_cases(kind, th):
    for k in (1, 2, 3):
        for c in itertools.combinations(range(len(NUMBERS)), k):
            vs = [NUMBERS[i] for i in c]
            # in a multiset, which of two equal numbers goes is open
            if kind in HEAPS and len(set(vs)) < k:
                continue
            yield c


def run_numbers(kind):
    def run(case):
        sane(kind, judge, (11, 12, 13), (11, 12), (11,))
        return (case, judge(tuple(NUMBERS[i] for i in case)))

    def judge(vals):
        tr = 0
        for order in itertools.permutations(vals):
            for away in itertools.permutations(order):
                core.fresh_world()
                ad, w = start(kind)
                for i, v in enumerate(order):
                    put(kind, ad, w, v, i)
                    tr += 1
                if away == order:
                    look(kind, ad, w, vals)
                for v in away:
                    take(kind, ad, w, v)
                    tr += 1
                    look(kind, ad, w, vals)
        return tr
    return run


def start(kind):
    if kind in SEARCH:
        ad = registry.adapter(kind, checks=("links",))
    else:
        ad = registry.adapter(kind)
    w = ad.new()
    return ad, w


def put(kind, ad, w, v, i):
    if kind == "SkipList":
        ad.do(w, ("insert", v, ((1,), (0, 1))[i % 2]))
    elif kind == "Treap":
        ad.do(w, ("insv", v, (5, 3, 9, 7, 1, 8)[i % 6]) if v not in w.model
              else ("insv", v))
    else:
        ad.do(w, ("insv", v))


def take(kind, ad, w, v):
    ad.do(w, ("remove", v) if kind == "SkipList" else ("remv", v))


def kept(what, got, want):
    """Same numbers, and of the same type."""
    if len(got) != len(want) or not all(
            type(a) is type(b) and a == b for a, b in zip(got, want)):
        fail("%s: %s instead of %s", what, core.show(got), core.show(want))


def look(kind, ad, w, vals):
    r, m = w.real, w.model
    what = "%s holding %s" % (kind, core.show(m))
    eq(what + ": len()", get(what, len, r), len(m))
    eq(what + ": is_empty()", get(what, r.is_empty), not m)
    if kind == "SkipList":
        kept(what + ": to_list()", get(what, r.to_list), m)
        kept(what + ": indexing", [get(what, r.__getitem__, i)
                                   for i in range(len(m))], m)
    elif kind in SEARCH:
        kept(what + ": inorder", get(what, r.inorder_traverse), m)
    else:
        got = sorted(get(what, r.to_list))
        if sorted(map(repr, got)) != sorted(map(repr, m)):
            fail("%s: to_list() has %s", what, core.show(got))
    if m and kind != "SkipList":
        for nm, i in (("get_min", 0), ("get_max", -1)):
            got = get(what, getattr(r, nm))
            if got != m[i] or not any(got == x and type(got) is type(x)
                                      for x in m):
                fail("%s: %s() is %r", what, nm, got)
    for v in vals:
        eq("%s: %r in it" % (what, v), get(what, r.__contains__, v), v in m)
    text = get(what + ": repr()", repr, r)
    for v in m:
        t = drawings.num(v) if kind == "SkipList" else str(v)
        if t not in text:
            fail("%s: %r is not in the drawing\n%s", what, v, text)
    if kind == "SkipList":
        # the values inside keep their type
        for x in get(what, list, r):
            if not any(same(x, y) for y in m):
                fail("%s: iteration yields %r", what, x)


# ---- many different values in one structure --------------------------------
def window(vals, start, n):
    return tuple(vals[(start + i) % len(vals)] for i in range(n))


def many_cases(kind, th):
    vals = (TEXTS if kind in TRIES else NUMBERS
            if kind in SEARCH + HEAPS + ("SkipList",) else VALUES)
    for n in range(4, len(vals) + 1, 1 if len(vals) < 13 or th else 5):
        for i in range(len(vals)):
            yield (n, i)


def run_many(kind):
    """One structure holding n different values, filled and emptied in
    several orders."""
    def plain(n):
        if kind in TRIES:
            return ["w%d" % i for i in range(n)]
        return list(range(10, 10 + n)) if kind in SEARCH + HEAPS + (
            "SkipList",) else ["v%d" % i for i in range(n)]

    def run(case):
        n, i = case
        sane((kind, n), judge, plain(n))
        vals = TEXTS if kind in TRIES else NUMBERS if kind in SEARCH \
            + HEAPS + ("SkipList",) else VALUES
        return (case, judge(window(vals, i, n)))

    def judge(vals):
        n = len(vals)
        tr = 0
        snap = [repr(v) for v in vals]
        for o in large.orders(n).values():
            for away in ("up", "down", "stride"):
                core.fresh_world()
                seq = [vals[i] for i in o]
                out = [vals[i] for i in large.orders(n)[away]]
                if kind in TRIES:
                    tr += words_through(seq, out)
                elif kind in SEARCH + HEAPS + ("SkipList",):
                    tr += numbers_through(seq, out)
                else:
                    tr += items_through(seq, out)
        untouched(kind, snap, vals)
        return tr

    def words_through(seq, out):
        from . import tries
        ad = tries.TrieAdapter(kind, seq)
        w = ad.new()
        for x in seq:
            ad.do(w, ("insert", x))
        ad.observe(w)
        for k, x in enumerate(out):
            ad.do(w, ("remove", x))
            if k % 3 == 0:
                ad.observe(w)
        return 2 * len(seq)

    def numbers_through(seq, out):
        if kind in HEAPS:
            seq = [x for i, x in enumerate(seq) if x not in seq[:i]]
            out = [x for i, x in enumerate(out) if x not in out[:i]]
        ad, w = start(kind)
        for i, v in enumerate(seq):
            put(kind, ad, w, v, i)
        look(kind, ad, w, seq)
        for k, v in enumerate(out):
            take(kind, ad, w, v)
            if k % 3 == 0 or not w.model:
                look(kind, ad, w, seq)
        return 2 * len(seq)

    def items_through(seq, out):
        ad = registry.adapter(kind)
        w = ad.new() if kind in LISTS else ad.new(INF)
        n = len(seq)
        for i, v in enumerate(seq):
            if kind in LISTS:
                ad.do(w, ("add_front", v) if i % 3 == 1 else
                      ("insert", i // 2, v) if i % 3 == 2 else
                      ("add_end", v))
            elif kind == "Deque":
                ad.do(w, ("append_left" if i % 3 == 1 else "append_right",
                          v))
            elif kind == "PriorityQueue":
                ad.do(w, ("enqueue_item", (i * 5) % n, v))
            else:
                ad.do(w, ("push" if kind == "Stack" else "enqueue", v))
        what = "%s holding %s" % (kind, core.show(w.model))

        def inspect():
            if kind in LISTS:
                ad.contents(w.real, w.model, what)
                ad.chain(w.real, w.model, what)
            else:
                ad.observe(w)
            printed(ad, w, what)

        inspect()
        if kind in LISTS:
            for op in (("rotate_left", 2, True), ("rotate_right", n // 2,
                                                  True)):
                ad.do(w, op)
                inspect()
            made = get(what + ": reverse()", w.real.reverse)
            ad.contents(made, w.model[::-1], what + " reversed")
            made = get(what + ": copy()", w.real.copy)
            ad.contents(made, w.model, what + " copied")
        ends = {"Stack": ("pop",), "Queue": ("dequeue",),
                "Deque": ("pop_left", "pop_right", "pop_right"),
                "PriorityQueue": ("dequeue", "dequeue_min")}.get(kind)
        for k, v in enumerate(out):
            if kind in LISTS:
                if k % 2:
                    ad.do(w, ("remove_front",) if k % 4 == 1 else
                          ("remove_end",))
                else:
                    ad.do(w, ("remove", v, False))
            else:
                ad.do(w, (ends[k % len(ends)],))
            what = "%s holding %s" % (kind, core.show(w.model))
            if k % 4 == 0 or len(w.model) < 3:
                inspect()
            if not w.model:
                break
        return 2 * n
    return run


# ---- texts of tries --------------------------------------------------------
def text_cases(th):
    for k in (1, 2, 3):
        yield from itertools.combinations(TEXTS, k)


def run_texts(words):
    tr = 0
    for kind in TRIES:
        sane(kind, lambda c: try_texts(kind, c), ("zab", "y", "x"),
             ("ab c", "a"))
        tr += try_texts(kind, words)
    return (words, tr)


def try_texts(kind, words):
    from . import tries
    tr = 0
    ad = tries.TrieAdapter(kind, words)
    for order in itertools.permutations(words):
        core.fresh_world()
        w = ad.new()
        for x in order:
            ad.do(w, ("insert", x))
            ad.observe(w)
            tr += 1
        for x in order[1:] + order[:1]:
            ad.do(w, ("remove", x))
            ad.observe(w)
            tr += 1
    return tr


# ---- tree nodes ------------------------------------------------------------
def node_cases(th):
    n = len(VALUES)
    for a in range(n):
        for b in range(n):
            yield (a, b)


def run_nodes(case):
    sane("nodes", try_nodes, ("p", "q"), ("p", "p"))
    return (case, try_nodes([VALUES[i] for i in case]))


def try_nodes(ab):
    a, b = ab
    snap = [repr(v) for v in VALUES]
    tr = 0
    for s in ((a, [(b, [])]), (a, [(b, []), (a, [])]), (a, [(b, [(a, [])])])):
        t = statics.build_general(s)
        m = relabel(s)
        what = "Tree %s" % core.show(s)
        statics.check_general(t, m, what, (a, b, nl(a), "zz")
                              if nl(a) == a and nl(b) == b else ())
        drawings.check_general(t, what, drawings.plain)
        tr += 1
    for s in ((a, (b, None, None), None), (a, None, (b, None, None)),
              (a, (b, None, None), (a, None, None)),
              (a, (b, None, (a, None, None)), None)):
        m = brelabel(s)
        what = "BinaryTree %s" % core.show(s)
        t = statics.build_binary(s)
        statics.check_binary(t, m, what)
        text = get(what + ": repr()", repr, t)
        for v in sh.bfs(m):
            if str(v).strip() not in text:
                fail("%s: %r is not in the drawing\n%s", what, v, text)
        tr += 1
        # parsing the nested-list form of the same tree
        if not any(isinstance(v, (list, tuple)) for v in (a, b)) \
                and not rightish(s):
            for form in (spell(s), thin(spell(s))):
                p = get("%s: parse(%s)" % (what, core.show(form)),
                        extra.BinaryTree.parse, form)
                statics.check_binary(p, m, what + " parsed")
            tr += 1
    untouched("trees", snap, VALUES)
    return tr


def rightish(s):
    return s is not None and ((s[1] is None and s[2] is not None)
                              or rightish(s[1]) or rightish(s[2]))


def thin(x):
    """Leaves without their brackets, tuples for lists."""
    return (x[0],) + tuple(thin(c) if len(c) > 1 else c[0] for c in x[1:])


def relabel(g):
    return (nl(g[0]), [relabel(c) for c in g[1]])


def brelabel(s):
    return s and (nl(s[0]), brelabel(s[1]), brelabel(s[2]))


def spell(s):
    """The nested list of a tree none of whose nodes has only a right
    child."""
    out = [s[0]]
    for c in s[1:]:
        if c is not None:
            out.append(spell(c))
    return out


@register("C28", ["trie words keep their line breaks as they are",
                  "numbers that are equal are one key, the first stored "
                  "one is kept"])
def c28(th):
    t = []
    for kind in LISTS + ("Stack", "Queue", "Deque", "PriorityQueue"):
        cap = 4 if th else 3
        t.append(("%s: every pair of values" % kind, "sweep",
                  lambda k=kind, c=cap: (value_cases(k, th),
                                         run_values(k, c)), 8))
    for kind in ("SkipList",) + SEARCH + HEAPS:
        t.append(("%s: every three numbers" % kind, "sweep",
                  lambda k=kind: (number_cases(k, th), run_numbers(k)), 7))
    for kind in registry.MUTABLE:
        t.append(("%s: many values at once" % kind, "sweep",
                  lambda k=kind: (many_cases(k, th), run_many(k)), 6))
    t.append(("tries: every three texts", "sweep",
              lambda: (text_cases(th), run_texts), 5))
    t.append(("tree nodes: every pair of values", "sweep",
              lambda: (node_cases(th), run_nodes), 6))
    return t
