"""C29: the documented worst-case costs (docs/source/_files, docstrings), as
numbers of executed interpreter instructions.

For every structure, every way of filling it named in `fills` and every size,
each documented operation is executed once on a structure of its own and its
instructions are counted (`sys.monitoring`; no clock is involved, so the
numbers are exact and the same on every machine).  `x` is the quantity the
documentation names: nothing, the height, the number of items or nodes, the
word length.  The smallest size fixes the price of one `x`; every larger
structure may cost at most twice that price per `x` (a constant operation: at
most a little more than on the smallest).  What is wrong by the order of
growth exceeds this by a factor that grows with the size.
"""
import sys

from . import core, large, registry, shape as sh, statics
from .core import extra, fail, fresh_world
from .props import register
from .registry import CAPPED, HEAPS, LISTS, SEARCH, TRIES

INF = float("inf")
TOOL = 4
LINEAR = {list, tuple, set, dict, frozenset, sorted, sum, min, max, any, all,
          list.insert, list.remove, list.index, list.count, list.copy,
          list.reverse, list.sort, dict.copy, set.copy}
SIZED = (list, tuple, dict, set, frozenset, str)


class Meter:
    """Counts executed instructions; a call of a built-in that walks a whole
    container counts its length."""

    def __init__(self):
        self.n = 0
        self.on = False

    def start(self):
        mon = sys.monitoring
        if not self.on:
            mon.use_tool_id(TOOL, "steps")
            mon.register_callback(TOOL, mon.events.INSTRUCTION, self.step)
            mon.register_callback(TOOL, mon.events.CALL, self.call)
            self.on = True

    def step(self, _code, _offset):
        self.n += 1

    def call(self, _code, _offset, fn, arg):
        try:
            if fn in LINEAR and isinstance(arg, SIZED):
                self.n += len(arg)
        except TypeError:
            pass

    def count(self, f, *a):
        self.start()
        mon = sys.monitoring
        self.n = 0
        mon.set_events(TOOL, mon.events.INSTRUCTION | mon.events.CALL)
        try:
            f(*a)
        finally:
            mon.set_events(TOOL, 0)
        return self.n


METER = Meter()


# --------------------------------------------------------------------------
# filling
# --------------------------------------------------------------------------
def even(n):
    """The order that builds a complete search tree."""
    out, todo = [], [(0, n)]
    while todo:
        nxt = []
        for a, b in todo:
            if a < b:
                m = (a + b) // 2
                out.append(m)
                nxt += [(a, m), (m + 1, b)]
        todo = nxt
    return tuple(out)


def zeros(x):
    """Promotions of the x-th item of an ideal skip list."""
    k = 0
    while x % 2 == 0 and x:
        x //= 2
        k += 1
    return k


COIN = {}


def coins(k):
    """The answers that promote an item k times; None if the code flips its
    coins in a way that is not understood here."""
    if "up" not in COIN:
        COIN["up"] = None
        for a in (0, 1):
            tall = []
            for j in (0, 1, 3):
                fresh_world()
                core.arm()
                core.TAPE.reset((a,) * j + (1 - a,) * 3)
                r = extra.SkipList()
                r.insert(1)
                tall.append(r.get_height())
            if tall == [1, 2, 4]:
                COIN["up"] = a
    a = COIN["up"]
    return None if a is None else (a,) * k + (1 - a,)


def ideal(x):
    return coins(zeros(x + 1)) or ()


def orders(n):
    o = dict(large.orders(n))
    o["even"] = even(n)
    return o


TYPES = {"texts": lambda x: "t%d" % x, "halves": lambda x: x + 0.5}


def put(kind, r, x, n, item=None):
    """Adds item number x (of n)."""
    item = x if item is None else item
    if kind == "SkipList":
        core.TAPE.reset(ideal(x))
        r.insert(item)
    elif kind == "Treap":
        core.TAPE.reset(((x * 37) % 101,))
        r.insert(item)
    elif kind == "PriorityQueue":
        r.enqueue(item, priority=(x * 7) % max(n, 1))
    elif kind == "Stack":
        r.push(item)
    elif kind == "Queue":
        r.enqueue(item)
    elif kind == "Deque":
        r.append_right(item) if x % 3 else r.append_left(item)
    elif kind in LISTS:
        r.add_front(item) if x % 3 else r.add_end(item)
    elif kind in TRIES:
        r.insert(word(x))
    else:
        r.insert(item)


def word(x):
    """Words of three to six letters: forks, shared starts, prefixes."""
    s = ""
    y = x + 7
    while y:
        s += "abc"[y % 3]
        y //= 3
    return s


def take(kind, r, x):
    if kind == "Stack":
        r.pop()
    elif kind == "Queue":
        r.dequeue()
    elif kind == "Deque":
        r.pop_left() if x % 2 else r.pop_right()
    elif kind == "PriorityQueue":
        r.dequeue()
    elif kind in LISTS:
        r.remove_end() if x % 2 else r.remove_front()
    elif kind in HEAPS:
        (r.remove_min if kind == "MinHeap" else r.remove_max)()
    elif kind in TRIES:
        r.remove(word(x))
    else:
        r.remove(x)


def fills(kind, n):
    if kind in registry.STATIC:
        for lab, c in large.large_static(kind, n):
            yield lab, c, ()
        return
    for lab, o in orders(n).items():
        yield lab, o, ()
    o = large.orders(n)["stride"]
    if kind in LISTS + CAPPED:
        yield "texts", o, "texts"
    if kind not in TRIES:
        yield "halves", o, "halves"
    # grown large, then shrunk again
    big = 4 * n
    o = large.orders(big)["stride"]
    keep = {4 * i + 3 for i in range(n)}
    away = tuple(x for x in large.orders(big)["zigzag"] if x not in keep)
    yield "shrunk", o, away
    yield "refilled", tuple(range(n)), "clear"
    yield "sliding", large.orders(n)["stride"], "slide"


def build(kind, n, lab):
    for l2, o, away in fills(kind, n):
        if l2 == lab:
            break
    fresh_world()
    cls = getattr(extra, kind)
    if kind == "BinaryTree":
        return statics.build_binary(o)
    if kind == "Tree":
        return statics.build_general(o)
    if kind == "SuffixTrie":
        return cls(o)
    r = cls()
    if away == "clear":
        for x in range(3 * n):
            put(kind, r, x, n)
        r.clear()
        away = ()
    typed = TYPES.get(away) if isinstance(away, str) else None
    for x in o:
        put(kind, r, x, len(o), typed(x) if typed else None)
    if typed:
        away = ()
    if away == "slide":
        for x in range(2 * n):
            put(kind, r, x + n, n)
            take(kind, r, x)
        away = ()
    for x in away:
        take(kind, r, x)
    if kind in TRIES:
        r.insert("xyxy")
        r.insert("xyyx")
    return r


# --------------------------------------------------------------------------
# what the documentation promises
# --------------------------------------------------------------------------
def others(kind, m):
    return getattr(extra, kind)(list(range(m)))


def table(kind, n):
    """(operation, x, function); x is "1", "h", "n" or "nh"."""
    one = [("len()", len), ("is_empty()", lambda r: r.is_empty()),
           ("clear()", lambda r: r.clear())]
    lin, hgt, by = [], [], []
    if kind in LISTS:
        dbl = kind == "DoublyLinkedList"
        one += [("add_front(5)", lambda r: r.add_front(5)),
                ("remove_front()", lambda r: r.remove_front())]
        ends = [("add_end(5)", lambda r: r.add_end(5)),
                ("remove_end()", lambda r: r.remove_end())]
        if dbl:
            one += ends
        else:
            lin += ends
        for k in (0, 1, 3) + ((n + 1, 3 * n + 3)
                              if kind == "CircularLinkedList" else ()):
            one += [("[%s]" % rel(k, n), lambda r, k=k: r[k]),
                    ("[%s] = 9" % rel(k, n),
                     lambda r, k=k: r.__setitem__(k, 9)),
                    ("del [%s]" % rel(k, n),
                     lambda r, k=k: r.__delitem__(k)),
                    ("insert(%s, 9)" % rel(k, n),
                     lambda r, k=k: r.insert(k, 9))]
        for k in (n // 2, n - 2, n - 1):
            lin += [("[%s]" % rel(k, n), lambda r, k=k: r[k]),
                    ("[%s] = 9" % rel(k, n),
                     lambda r, k=k: r.__setitem__(k, 9)),
                    ("del [%s]" % rel(k, n),
                     lambda r, k=k: r.__delitem__(k)),
                    ("insert(%s, 9)" % rel(k, n),
                     lambda r, k=k: r.insert(k, 9))]
        short = "other list of 3 items"
        for nm in ("eq", "ne", "lt", "le", "gt", "ge"):
            one.append(("__%s__(%s)" % (nm, short), lambda r, nm=nm, o=others(
                kind, 3): getattr(r, "__%s__" % nm)(o)))
            lin.append(("__%s__(equal list)" % nm, lambda r, nm=nm: getattr(
                r, "__%s__" % nm)(r)))
        o3 = others(kind, 3)
        (one if dbl else lin).append((
            "extend(%s)" % short, lambda r: r.extend(o3)))
        items = list(range(n))
        lin += [("made from a list", lambda r: getattr(extra, kind)(items)),
                ("iteration", list), ("to_list()", lambda r: r.to_list()),
                ("reverse()", lambda r: r.reverse()),
                ("copy()", lambda r: r.copy()), ("repr()", repr),
                ("77 in it", lambda r: -77 in r),
                ("count(77)", lambda r: r.count(-77)),
                ("remove(absent)", lambda r: r.remove(-77)),
                ("split(n//2)", lambda r: r.split(n // 2)),
                ("rotate_left(n//2)", lambda r: r.rotate_left(n // 2)),
                ("rotate_right(n//2)", lambda r: r.rotate_right(n // 2)),
                ("rotate_left(n-1, inplace)",
                 lambda r: r.rotate_left(n - 1, inplace=True)),
                ("rotate_left(n**3)", lambda r: r.rotate_left(n ** 3 + 1)),
                ("rotate_right(n**3)", lambda r: r.rotate_right(n ** 3 + 1))]
        for v in ("ab", 0.5, (1, "b")):
            one += [("add_front(%r)" % (v,), lambda r, v=v: r.add_front(v)),
                    ("insert(1, %r)" % (v,), lambda r, v=v: r.insert(1, v)),
                    ("[1] = %r" % (v,), lambda r, v=v: r.__setitem__(1, v))]
            (one if dbl else lin).append((
                "add_end(%r)" % (v,), lambda r, v=v: r.add_end(v)))
            lin += [("%r in it" % (v,), lambda r, v=v: v in r),
                    ("count(%r)" % (v,), lambda r, v=v: r.count(v)),
                    ("remove(%r)" % (v,), lambda r, v=v: r.remove(v))]
    elif kind in CAPPED:
        one.append(("is_full()", lambda r: r.is_full()))
        for nm, a in (("push", (5,)), ("pop", ()), ("peek", ()),
                      ("append_left", (5,)), ("append_right", (5,)),
                      ("push", ("ab",)), ("push", (0.5,)),
                      ("enqueue", ("ab",)), ("enqueue", (0.5,)),
                      ("enqueue", ((1, "b"),)), ("append_left", ("ab",)),
                      ("append_right", ("ab",)), ("append_left", (0.5,)),
                      ("append_right", (0.5,)),
                      ("pop_left", ()), ("pop_right", ()),
                      ("get_left", ()), ("get_right", ()), ("enqueue", (5,)),
                      ("top", ()), ("dequeue", ())):
            if hasattr(getattr(extra, kind), nm):
                (lin if kind == "PriorityQueue" and nm ==
                 "dequeue" else one).append((
                        "%s%r" % (nm, a),
                        lambda r, nm=nm, a=a: getattr(r, nm)(*a)))
        lin.append(("repr()", repr))
    elif kind == "SkipList" and coins(0) is None:
        pass
    elif kind == "SkipList":
        def ins(v, k):
            def go(r):
                core.TAPE.reset(coins(k) or ())
                r.insert(v)
            return go
        for v in (-1, n // 2 + 0.5, n + 1):
            hgt += [("insert(%s)" % rel(v, n), ins(v, 0)),
                    ("insert(%s), promoted" % rel(v, n), ins(v, 2)),
                    ("%s in it" % rel(v, n), lambda r, v=v: v in r)]
        for v in (0, n // 2, n - 1):
            hgt += [("remove(%s)" % rel(v, n), lambda r, v=v: r.remove(v)),
                    ("%s in it" % rel(v, n), lambda r, v=v: v in r)]
        for k in (0, 1, 3):
            one += [("[%d]" % k, lambda r, k=k: r[k])]
            hgt += [("del [%d]" % k, lambda r, k=k: r.__delitem__(k))]
        lin += [("iteration", list), ("to_list()", lambda r: r.to_list()),
                ("[n-1]", lambda r: r[n - 1])]
    elif kind in SEARCH:
        for v in (-1, n // 2 + 0.5, n + 1):
            hgt += [("insert(%s)" % rel(v, n), lambda r, v=v: r.insert(v)),
                    ("%s in it" % rel(v, n), lambda r, v=v: v in r)]
        for v in (0, n // 2, n - 1):
            hgt += [("remove(%s)" % rel(v, n), lambda r, v=v: r.remove(v)),
                    ("%s in it" % rel(v, n), lambda r, v=v: v in r),
                    ("insert(%s) again" % rel(v, n),
                     lambda r, v=v: r.insert(v))]
        hgt += [("get_min()", lambda r: r.get_min()),
                ("get_max()", lambda r: r.get_max())]
        lin += measures(kind)
    elif kind in HEAPS:
        near, far = (("get_min", "remove_min", -5), ("get_max", "remove_max",
                                                     10 ** 6))
        if kind == "MaxHeap":
            near, far = ("get_max", "remove_max", 10 ** 6), (
                "get_min", "remove_min", -5)
        one += [(near[0] + "()", lambda r: getattr(r, near[0])())]
        hgt += [("insert(%d)" % near[2], lambda r: r.insert(near[2])),
                ("insert(%d)" % far[2], lambda r: r.insert(far[2])),
                ("insert(middle)", lambda r: r.insert(n // 2)),
                (near[1] + "()", lambda r: getattr(r, near[1])())]
        lin += [(far[0] + "()", lambda r: getattr(r, far[0])()),
                (far[1] + "()", lambda r: getattr(r, far[1])()),
                ("remove(middle)", lambda r: r.remove(n // 2)),
                ("-77 in it", lambda r: -77 in r), ("iteration", list),
                ("to_list()", lambda r: r.to_list())] + measures(kind)
    elif kind in TRIES:
        one = one[1:]
        for lab, x in (("first", 0), ("second", 1), ("tenth", 9),
                       ("last", n - 1)):
            v = word(x)
            by += [("%s word in it" % lab, len(v), lambda r, v=v: v in r),
                   ("has_prefix(%s word)" % lab, len(v),
                    lambda r, v=v: r.has_prefix(v)),
                   ("insert(%s word) again" % lab, len(v),
                    lambda r, v=v: r.insert(v)),
                   ("remove(%s word)" % lab, len(v),
                    lambda r, v=v: r.remove(v)),
                   ("insert(%s word + d)" % lab, len(v) + 1,
                    lambda r, v=v: r.insert(v + "d"))]
        for v in ("x", "xy", "xyx"):
            by += [("auto_complete(%r)" % v, 3,
                    lambda r, v=v: r.auto_complete(v))]
        for v in ("zz", "abcd", "d", "bca" * 20):
            by += [("insert(%r)" % v, len(v), lambda r, v=v: r.insert(v)),
                   ("%r in it" % v, len(v), lambda r, v=v: v in r),
                   ("has_prefix(%r)" % v, len(v),
                    lambda r, v=v: r.has_prefix(v)),
                   ("auto_complete(%r)" % v, len(v),
                    lambda r, v=v: r.auto_complete(v)),
                   ("remove(%r)" % v, len(v), lambda r, v=v: r.remove(v))]
        lin += [("len()", len), ("iteration", list),
                ("get_depth()", lambda r: r.get_depth()),
                ("get_height()", lambda r: r.get_height()),
                ("get_nodes_per_level()", lambda r: r.get_nodes_per_level()),
                ("count_leaf_nodes()", lambda r: r.count_leaf_nodes()),
                ("auto_complete('')", lambda r: r.auto_complete(""))]
    elif kind in ("Tree", "BinaryTree"):
        one = one[1:]
        lin += measures(kind) + [("len()", len),
                                 ("-77 in it", lambda r: -77 in r)]
        if kind == "BinaryTree":
            lin.append(("invert()", lambda r: r.invert()))
    elif kind == "SuffixTrie":
        one = []
        by = [("has_substring(%r)" % p, len(p),
               lambda r, p=p: r.has_substring(p))
              for p in ("a", "b", "ab", "aa", "zz", "abab", "bbbb", "a" * 12)]
        lin += [("len()", len), ("iteration", list),
                ("get_depth()", lambda r: r.get_depth()),
                ("get_height()", lambda r: r.get_height()),
                ("count_leaf_nodes()", lambda r: r.count_leaf_nodes())]
    return [(a, "1", f) for a, f in one] + [(a, "h", f) for a, f in hgt] + [
        (a, "n", f) for a, f in lin] + by


def measures(kind):
    cls = getattr(extra, kind)
    out = [("iteration", list)]
    for nm in ("to_list", "get_height", "get_depth", "get_nodes_per_level",
               "is_balanced", "is_perfect", "is_strict", "count_leaf_nodes",
               "preorder_traverse", "inorder_traverse", "postorder_traverse",
               "breadth_first_traverse", "depth_first_traverse", "traverse",
               "get_leftside_view", "get_rightside_view",
               "get_black_height"):
        if hasattr(cls, nm):
            out.append((nm + "()", lambda r, nm=nm: getattr(r, nm)()))
    return out


def rel(k, n):
    """An index or value, named relatively to the size."""
    for d in (-2, -1, 0, 0.5, 1, 3):
        if k == n // 2 + d and k > 6:
            return "n//2%+g" % d if d else "n//2"
    if k > 6:
        return "n%+g" % (k - n) if k < 2 * n else "3n%+d" % (k - 3 * n)
    return "%g" % k


def tall(kind, r):
    """The height the logarithmic or height-bounded operations may use."""
    if kind in HEAPS or kind in ("SkipList", "AVL", "RedBlackTree"):
        return max(1, len(r).bit_length())
    root = sh.root_of(r)
    if root is core.MISSING:
        return max(1, r.get_height() + 1)
    return max(1, sh.height(sh.binary_shape(root, 10 ** 6)) + 1)


def amount(kind, r, n, x):
    if x == "h":
        return tall(kind, r)
    if x != "n":
        return x
    if kind in TRIES:
        return sum(len(w) + 1 for w in r) or 1
    return n


# --------------------------------------------------------------------------
# the sweep
# --------------------------------------------------------------------------
def stem(op, x):
    """The operation without its arguments: what shares one price."""
    s = op.split("(")[0]
    if op.endswith("in it"):
        s = "in"
    elif "[" in s:
        s = s.split("[")[0] + "[]" + s.split("]")[1]
    return "%s: %s" % ({"1": "constant", "h": "height", "n": "linear"}.get(
        x, "word length"), s)


def groups(kind):
    out = []
    for op, x, _f in table(kind, 16):
        s = stem(op, x)
        if (s,) not in out:
            out.append((s,))
    return out


def unordered(lab, op):
    """Texts and numbers have no order."""
    return lab == "texts" and op[:5] in ("__lt_", "__le_", "__gt_", "__ge_")


def run_every(kind, top):
    """Every size up to `top`, filled in one way; the price is the highest
    found for sizes from 9 to 16."""
    def run(case):
        lab = "stride" if kind not in registry.STATIC else None
        price, costs = 0, []
        for n in range(9, top + 1):
            if lab is None:
                labs = [next(iter(fills(kind, n)))[0]]
            else:
                labs = [lab]
            for i, (op, x, _f) in enumerate(table(kind, n)):
                if stem(op, x) != case[0]:
                    continue
                core.arm()
                r = build(kind, n, labs[0])
                q = amount(kind, r, n, x)
                c = METER.count(table(kind, n)[i][2], r)
                costs.append(c)
                unit = c if x == "1" else c / q
                if n <= 16:
                    price = max(price, unit)
                elif c > (price + 60 if x == "1" else 2 * price * q + 100):
                    fail("%s of %d items (%s): %s executes %d instructions; "
                         "of at most 16 items, at most %d%s", kind, n,
                         labs[0], op, c, price, "" if x == "1" else
                         " for each unit of %s" % {
                             "h": "height", "n": "size"}.get(x, "length"))
        return tuple(costs), len(costs)
    return run


def run_costs(kind, sizes):
    def run(case):
        price = None
        costs = []
        for n in sizes:
            rows = []
            for lab, _o, _a in fills(kind, n):
                for i, (op, x, _f) in enumerate(table(kind, n)):
                    if stem(op, x) != case[0] or unordered(lab, op):
                        continue
                    core.arm()
                    r = build(kind, n, lab)
                    q = amount(kind, r, n, x)
                    f = table(kind, n)[i][2]
                    c = METER.count(f, r)
                    costs.append(c)
                    rows.append((c, q, lab, op, x))
            if price is None:
                price = (max(c for c, *_r in rows) if rows[0][4] == "1" else
                         max(c / q for c, q, *_r in rows))
                first = n
                continue
            for c, q, lab, op, x in rows:
                if x == "1":
                    top, why = price + 60, "whatever the size"
                else:
                    top = 2 * price * q + 100
                    why = "%s is %d" % ({"h": "the height", "n": "the size"}.
                                        get(x, "the word's length"), q)
                if c > top:
                    fail("%s of %d items (%s): %s executes %d instructions; "
                         "with the price found at size %d at most %d are "
                         "proportionate (%s)", kind, n, lab, op, c, first,
                         top, why)
        return tuple(costs), len(costs)
    return run


@register("C29", ["cost is the number of executed interpreter instructions, "
                  "plus the length of what a built-in walks through; time "
                  "spent inside other built-ins is not seen",
                  "growth is judged between the sizes given; a superlinear "
                  "term too small to double the price there is not seen"])
def c29(th):
    sizes = (16, 64, 160, 256, 400) if th else (16, 64, 256)
    t = []
    for kind in registry.ALL:
        cs = groups(kind)
        w = 9 if kind in SEARCH else 5
        for k in range(0, len(cs), 5):
            part = cs[k:k + 5]
            t.append(("%s: cost of %s" % (kind, ", ".join(
                c[0] for c in part)), "sweep",
                lambda a=kind, p=part: (iter(p), run_costs(a, sizes)), w))
        step = 10 if kind in SEARCH + TRIES else 5
        for k in range(0, len(cs), step):
            part = cs[k:k + step]
            t.append(("%s: every size, cost of %s" % (kind, ", ".join(
                c[0] for c in part)), "sweep",
                lambda a=kind, p=part: (iter(p), run_every(
                    a, 300 if th else 136)), w))
    return t
