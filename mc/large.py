"""Larger structures, a few per size: every way of filling and emptying named
here is run, and each property that is decided on small closed systems judges
these as well."""
from . import core, reads, registry
from .core import call, canon, extra, fail, fresh_world
from .registry import CAPPED, HEAPS, LISTS, SEARCH, STATIC, TRIES

INF = float("inf")


def large_words(n):
    """n words: chains, forks and single letters."""
    out = []
    for k in range(1, n + 1):
        out += ["ab" * k, "ab" * k + "c", chr(99 + k % 20)]
    return list(dict.fromkeys(out))[:n]


def orders(n):
    up = tuple(range(n))
    zig = tuple(x for i in range((n + 1) // 2)
                for x in dict.fromkeys((i, n - 1 - i)))
    return {"up": up, "down": up[::-1], "zigzag": zig, "out": zig[::-1],
            "stride": tuple(sorted(up, key=lambda i: (i * 7) % n))}


def large_fill(kind, n):
    """A few ways of filling a structure with n distinct items."""
    for lab, o in orders(n).items():
        if kind in LISTS:
            yield lab, tuple((("add_front", "add_end")[i % 2 if lab != "up"
                                                       else 1], x)
                             for i, x in enumerate(o))
        elif kind in ("Stack", "Queue"):
            yield lab, tuple((("push" if kind == "Stack" else "enqueue"), x)
                             for x in o)
        elif kind == "Deque":
            yield lab, tuple((("append_left", "append_right")[
                (i // 2) % 2], x) for i, x in enumerate(o))
        elif kind == "PriorityQueue":
            yield lab, tuple(("enqueue", x // 2) for x in o)
        elif kind == "SkipList":
            yield lab, tuple(("insert", x, (0,) * h + (1,)) for x, h in (
                (x, {0: 3 + x // 4 % 9 * (x % 8 < 4), 1: 0, 2: 1,
                     3: 0}[x % 4]) for x in o))
        elif kind == "Treap":
            yield lab, tuple(("insv", x, (x * 5) % n) for x in o)
        elif kind in SEARCH + HEAPS:
            yield lab, tuple(("insv", x) for x in o)
        else:
            ws = large_words(n)
            yield lab, tuple(("insert", ws[x]) for x in o)


def large_empty(kind, n):
    yield "clear", (("clear",),)
    yield "clear twice", (("clear",), ("clear",))
    for lab, o in orders(n).items():
        if kind in LISTS:
            yield lab, tuple(("remove", x, True) for x in o)
        elif kind == "SkipList":
            yield lab, tuple(("remove", x) for x in o)
        elif kind in SEARCH + HEAPS:
            yield lab, tuple(("remv", x) for x in o)
        elif kind in TRIES:
            ws = large_words(n)
            yield lab, tuple(("remove", ws[x]) for x in o)
    ends = {"Stack": ("pop",), "Queue": ("dequeue",),
            "Deque": ("pop_left", "pop_right"),
            "PriorityQueue": ("dequeue", "dequeue_min"),
            "MinHeap": ("remove_min", "remove_max"),
            "MaxHeap": ("remove_max", "remove_min")}.get(
                kind, ("remove_front", "remove_end") if kind in LISTS
                else ())
    for a in ends:
        yield a, ((a,),) * n
    if len(ends) > 1:
        yield "in turns", tuple((ends[i % 2],) for i in range(n))


def path(n, turn, i=0):
    if i == n:
        return None
    nxt = path(n, turn, i + 1)
    return (i, nxt, None) if turn(i) else (i, None, nxt)


def complete(n, i=0):
    return None if i >= n else (i, complete(n, 2 * i + 1),
                                complete(n, 2 * i + 2))


def comb(n, i=0):
    """A right spine with a leaf to the left of every second node."""
    if i >= n:
        return None
    return (i, (i + 1, None, None) if i + 1 < n else None, comb(n, i + 2))


def ary(n, k, i=0):
    return (i, [ary(n, k, j) for j in range(k * i + 1, k * i + k + 1)
                if j < n])


def broom(n, handle):
    g = (handle, [(j, []) for j in range(handle + 1, n)])
    for i in range(handle - 1, -1, -1):
        g = (i, [g])
    return g


def large_static(kind, n):
    """(label, configuration)"""
    if kind == "BinaryTree":
        yield "complete", complete(n)
        yield "comb", comb(n)
        yield "left", path(n, lambda i: True)
        yield "right", path(n, lambda i: False)
        yield "zigzag", path(n, lambda i: i % 2)
    elif kind == "Tree":
        yield "ternary", ary(n, 3)
        yield "binary", ary(n, 2)
        yield "path", broom(n, n - 1)
        yield "star", broom(n, 0)
        yield "broom", broom(n, n // 2)
    else:
        for lab, unit in (("ab", "ab"), ("a", "a"), ("aab", "aab"),
                          ("abcd", "abcdefgh"), ("mixed", "abaababa")):
            yield lab, (unit * n)[:n]


def sizes(th):
    return tuple(range(5, 18)) + (24, 33) + ((48, 65) if th else ())


def states(kind, sizes):
    """(size, label, configuration, operations)"""
    for n in sizes:
        if kind in STATIC:
            if kind != "SuffixTrie" or n <= 12:
                for lab, c in large_static(kind, n):
                    yield (n, lab, (c,), ())
            continue
        for lab, ops in large_fill(kind, n):
            for cfg in (((INF,), (n,), (n + 2,)) if kind in CAPPED
                        else ((),)):
                yield (n, lab, cfg, ops)


def big_states(kind, th, pairs=False):
    """Much larger ones, of two or three patterns each."""
    want = (("complete", "comb", "zigzag", "ternary", "star", "broom")
            if kind in STATIC else ("up", "stride"))
    slow = kind in LISTS and pairs
    for n in (41, 66) + (() if slow and not th else (101, 130)) + (
            (200, 257) if th and not slow or kind not in LISTS else ()):
        for x in states(kind, (n,)):
            if x[1] in want and x[2][:1] != (n + 2,):
                yield x


def adapter(kind):
    if kind in SEARCH:
        return registry.adapter(kind, checks=("set",))
    return registry.adapter(kind, words=("a", "ab", "abc", "b", "ba", "abd"))


def rebuilt(ad, cfg, h):
    fresh_world()
    w = ad.new(*cfg)
    for op in h:
        ad.do(w, op)
    return w


def some_ops(ad, w, n):
    """Every kind of operation, with its first and its last argument."""
    by = {}
    if ad.kind in STATIC:
        return []
    for op in ad.mutators(w, (1, n - 1), n + 1):
        by.setdefault(op[0], []).append(op)
    return [x for ops in by.values()
            for x in ([ops[0], ops[-1]] if len(ops) > 1 else ops)]


def alone(f):
    """Prune when the history goes wrong all by itself."""
    try:
        return f()
    except core.Violation as e:
        raise core.Prune(str(e))


# --------------------------------------------------------------------------
# C22: reading
# --------------------------------------------------------------------------
def run_reads(kind):
    ad = adapter(kind)

    def run(case):
        n, lab, cfg, ops = case
        vals = (0, n // 2, n - 1)
        w = alone(lambda: rebuilt(ad, cfg, ops))
        rs = reads.reads(ad, w, vals)
        ref, tr = {}, 0
        for r in rs:
            w = rebuilt(ad, cfg, ops)
            ref[r] = alone(lambda: reads.outcome(w.real, r)[0])
            tr += len(ops) + 1

        def all_reads(w, order):
            done = 0
            for r in order:
                what = "%s of %d items (%s), configuration %s: %s%r" % (
                    kind, n, lab, core.show(cfg), r[0], r[1:])
                got, v = reads.outcome(w.real, r)
                if got != ref[r]:
                    fail("%s after reading: %s, but without the reads it "
                         "gives %s", what, core.show(got), core.show(ref[r]))
                reads.scribble(v)
                got = reads.outcome(w.real, r)[0]
                if got != ref[r]:
                    fail("%s called again, after the first answer was "
                         "modified: %s instead of %s", what, core.show(got),
                         core.show(ref[r]))
                done += 2
            return done

        w = rebuilt(ad, cfg, ops)
        before = canon([w.real])
        tr += all_reads(w, rs) + all_reads(w, rs[::-1])
        if canon([w.real]) == before:
            return (case, tr)       # nothing reachable has changed
        for op in some_ops(ad, w, n):
            v = rebuilt(ad, cfg, ops)
            alone(lambda: ad.do(v, op))
            want = reads.signature(ad, v, vals)
            w = rebuilt(ad, cfg, ops)
            all_reads(w, rs)
            ad.do(w, op)
            for (r, a), (_r, b) in zip(reads.signature(ad, w, vals), want):
                if a != b:
                    fail("%s of %d items (%s), configuration %s, read "
                         "completely, then %s%r: %s%r gives %s instead of "
                         "%s", kind, n, lab, core.show(cfg), op[0], op[1:],
                         r[0], r[1:], core.show(a), core.show(b))
            tr += 2 * len(ops) + 2 * len(want)
        return (case, tr)
    return run


# --------------------------------------------------------------------------
# C21: rejected operations
# --------------------------------------------------------------------------
def run_rejects(kind):
    from . import props_errors as pe
    ad = adapter(kind)

    def run(case):
        n, lab, cfg, ops = case
        w = alone(lambda: rebuilt(ad, cfg, ops))
        alone(lambda: ad.observe(w))
        before = canon([w.real])
        tr = 0
        todo = len(pe.rejects(ad, w))
        for i in range(todo):
            entry = pe.rejects(ad, w)[i]
            pe.attempt(ad, w, entry)
            if canon([w.real]) != before:
                # whatever it left behind must not be visible
                ad.observe(w)
                before = canon([w.real])
            tr += 1
        ad.observe(w)
        for op in some_ops(ad, w, n):
            v = rebuilt(ad, cfg, ops)
            alone(lambda: (ad.do(v, op), ad.observe(v)))
            w = rebuilt(ad, cfg, ops)
            for i in range(todo):
                pe.attempt(ad, w, pe.rejects(ad, w)[i])
            ad.do(w, op)
            ad.observe(w)
            tr += len(ops) + todo + 1
        return (case, tr)
    return run


# --------------------------------------------------------------------------
# C26: two of them
# --------------------------------------------------------------------------
def pair_cases(kind, sizes=(), big=0):
    by = {}
    for n, lab, cfg, ops in (big_states(kind, big - 1, True) if big else
                             states(kind, sizes)):
        by.setdefault(n, []).append((lab, cfg, ops))
    for n, xs in by.items():
        for i, x in enumerate(xs):
            yield (n, x, x)
            yield (n, x, xs[(i + 1) % len(xs)])


def run_pairs(kind):
    ad = adapter(kind)

    def run(case):
        n, a, b = case
        vals = (0, n - 1)
        tr = 0
        want = []
        for lab, cfg, ops in (a, b):
            w = alone(lambda: rebuilt(ad, cfg, ops))
            alone(lambda: ad.observe(w))
            w = rebuilt(ad, cfg, ops)
            want.append(reads.signature(ad, w, vals))

        def both():
            fresh_world()
            ws = [ad.new(*a[1]), ad.new(*b[1])]
            for i in range(max(len(a[2]), len(b[2]))):
                for w, x in zip(ws, (a, b)):
                    if i < len(x[2]):
                        ad.do(w, x[2][i])
            return ws

        def judge(w, k, what):
            for (r, got), (_r, exp) in zip(reads.signature(ad, w, vals),
                                           want[k]):
                if got != exp:
                    fail("two instances of %s with %d items (%s, %s), %s: "
                         "%s%r of the other gives %s instead of %s", kind, n,
                         a[0], b[0], what, r[0], r[1:], core.show(got),
                         core.show(exp))

        ws = both()
        for k in (0, 1):
            judge(ws[k], k, "filled in turns")
        tr += 2 * n
        for k in (0, 1):
            for how, e in large_empty(kind, n):
                if kind == "SuffixTrie":
                    continue        # is never emptied
                alone(lambda: rebuilt(ad, (a, b)[k][1], (a, b)[k][2] + e))
                ws = both()
                for op in e:
                    ad.do(ws[k], op)
                tr += len(e) + 2 * n
                judge(ws[1 - k], 1 - k, "one emptied (%s)" % how)
                for op in (a, b)[1 - k][2]:
                    ad.do(ws[k], op)
                judge(ws[1 - k], 1 - k, "one emptied (%s) and filled like "
                      "the other" % how)
        return (case, tr)
    return run
