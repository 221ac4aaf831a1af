"""C30: nodes used on their own (the node classes are public)."""
from importlib import import_module

from . import core
from .core import call, canon, eq, expect, extra, fail, get
from .props import register

INF = float("inf")
T, L = "extra.trees.", "extra.lists."
CLASSES = (
    # kind, module, class, data of the pool
    ("list", L + "linked_list", "Node", (2, "a\nb", 0)),
    ("list", L + "doubly_linked_list", "DoublyNode", (2, "", 0)),
    ("list", L + "priority_queue", "PriorityNode", (2, 1, 0)),
    ("list", L + "skip_list", "SkipNode", (2, -1.5, 0)),
    ("tree", T + "tree", "TreeNode", (0, "a\nb", 2)),
    ("binary", T + "binary_tree", "BinaryTreeNode", (0, "a\nb", 2)),
    ("binary", T + "_heap", "HeapNode", (2, 0, 2.5)),
    ("bst", T + "bst", "BSTNode", (2, 0, 2.5)),
    ("bst", T + "avl", "AVLNode", (2, 0, 2.5)),
    ("bst", T + "red_black_tree", "RedBlackNode", (2, 0, 2.5)),
    ("bst", T + "treap", "TreapNode", (2, 0, 2.5)),
    ("trie", T + "trie", "TrieNode", ("a", "b", "")),
)


def cls(mod, name):
    try:
        return getattr(import_module(mod), name)
    except (ImportError, AttributeError):
        return None


def black_red():
    m = import_module(T + "red_black_tree")
    return m.Color.BLACK, m.Color.RED


def text(v):
    return v.replace("\n", "\\n") if type(v) is str else v


class Pool:
    def __init__(self, nodes, model):
        self.nodes = nodes
        self.model = model


class NodeSystem(core.System):
    """A pool of three nodes of one class under every linking operation;
    model: one dictionary per node."""

    def __init__(self, name, kind, mod, cname, data, depth, other,
                 keys="ab"):
        self.keys = keys
        self.name = name
        self.kind = kind
        self.mod = mod
        self.cname = cname
        self.data = data
        self.max_depth = depth
        self.other = other      # a node class that does not fit
        self.max_states = 40000

    def make(self, i):
        c = cls(self.mod, self.cname)
        if self.cname in ("TreapNode", "PriorityNode"):
            return get(self.cname, c, self.data[i], 5 + i)
        return get(self.cname, c, self.data[i])

    def start(self):
        nodes, model = [], []
        for i in range(3):
            d = self.data[i]
            m = {"data": d if self.kind == "trie" else text(d)}
            if self.kind == "list":
                m["next"] = None
                if self.cname in ("DoublyNode", "PriorityNode"):
                    m["prev"] = None
                if self.cname == "SkipNode":
                    m["down"] = None
            elif self.kind == "tree":
                m["children"] = []
            elif self.kind in ("binary", "bst"):
                m["left"] = m["right"] = None
                if self.kind == "bst":
                    m["parent"] = None
            else:
                m["children"] = {}
                m["parent"] = None
            if self.cname in ("TreapNode", "PriorityNode"):
                m["priority"] = 5 + i
            if self.cname == "RedBlackNode":
                m["color"] = black_red()[1]
            if self.cname == "AVLNode":
                m["height"] = 0
            nodes.append(self.make(i))
            model.append(m)
        return Pool(nodes, model)

    def ops(self, w):
        for i in range(3):
            m = w.model[i]
            js = [j for j in range(3) if j != i]
            for f in ("next", "prev", "down", "left", "right", "parent"):
                if f not in m or (f == "parent" and self.kind == "trie"):
                    continue
                for j in js:
                    yield ("link", i, f, j)
                if f in ("next", "prev") or self.kind == "bst":
                    yield ("link", i, f, None)
            if self.kind == "tree":
                for j in js:
                    if len(m["children"]) < 3:
                        yield ("child", i, j)
                yield ("children", i, ())
                yield ("children", i, tuple(js))
                yield ("children", i, tuple(js[::-1]))
            if self.kind == "trie":
                for j in js:
                    for ch in self.keys:
                        yield ("key", i, ch, j)
            if self.kind == "list":
                for d in self.data[:2]:
                    yield ("data", i, d)
            if "priority" in m:
                yield ("priority", i, -1.5)
            if "color" in m:
                yield ("color", i, 0)
                yield ("color", i, 1)
            if self.kind not in ("list", "trie") and i:
                yield ("swap", 0, i)
            yield ("rejected", i)

    def step(self, w, op):
        n, m = w.nodes[op[1]], w.model[op[1]]
        what = "%s %r: %s%r" % (self.cname, m["data"], op[0], op[2:])
        if op[0] == "link":
            f, j = op[2:]
            expect(what, call(getattr(n, "set_" + f),
                              None if j is None else w.nodes[j]),
                   None, warns=False)
            m[f] = j
            if j is not None:
                back = {"next": "prev", "prev": "next", "left": "parent",
                        "right": "parent"}.get(f)
                if back in w.model[j]:
                    w.model[j][back] = op[1]
            if "height" in m and f in ("left", "right"):
                m["height"] = max([0] + [1 + w.model[m[s]]["height"]
                                         for s in ("left", "right")
                                         if m[s] is not None])
        elif op[0] == "child":
            expect(what, call(n.set_child, w.nodes[op[2]]), None)
            m["children"] = m["children"] + [op[2]]
        elif op[0] == "children":
            src = [w.nodes[j] for j in op[2]]
            expect(what, call(n.set_children, src), None)
            m["children"] = list(op[2])
            src.append(n)
        elif op[0] == "key":
            expect(what, call(n.set_child, op[2], w.nodes[op[3]]), None)
            m["children"] = dict(m["children"])
            m["children"][op[2]] = op[3]
            w.model[op[3]]["parent"] = op[1]
        elif op[0] == "data":
            expect(what, call(n.set_data, op[2]), None)
            m["data"] = text(op[2])
        elif op[0] == "priority":
            expect(what, call(n.set_priority, op[2]), None)
            m["priority"] = op[2]
        elif op[0] == "color":
            expect(what, call(n.set_color, black_red()[op[2]]), None)
            m["color"] = black_red()[op[2]]
        elif op[0] == "swap":
            k = w.model[op[2]]
            expect(what, call(type(n).swap, n, w.nodes[op[2]]), None)
            for f in ("data", "color"):
                if f in m:
                    m[f], k[f] = k[f], m[f]
        elif op[0] == "rejected":
            self.reject(n, m, what)
        return op[0]

    def reject(self, n, m, what):
        wrong = [5, "x", [], extra.LinkedList([1]), object(), self.other()]
        for f in ("next", "prev", "down", "left", "right"):
            if f in m:
                for x in wrong:
                    expect("%s set_%s(%r)" % (what, f, type(x).__name__),
                           call(getattr(n, "set_" + f), x), exc=TypeError)
        if self.kind == "list":
            expect(what + " set_data(None)", call(n.set_data, None),
                   exc=ValueError)
            expect(what + " set_data(structure)",
                   call(n.set_data, extra.Stack()), exc=TypeError)
        if "priority" in m:
            for x in ("1", None, [], True):
                expect("%s set_priority(%r)" % (what, x),
                       call(n.set_priority, x), exc=TypeError)
        if self.kind == "tree":
            for x in wrong:
                expect(what + " set_child", call(n.set_child, x),
                       exc=TypeError)
                if type(x) not in (str, list) and not hasattr(
                        x, "__iter__"):
                    expect(what + " set_children",
                           call(n.set_children, x), exc=TypeError)
                expect(what + " set_children", call(
                    n.set_children, [self.make(0), x]), exc=TypeError)
        if self.kind == "trie":
            for x in wrong:
                expect(what + " set_child", call(n.set_child, "a", x),
                       exc=TypeError)
            expect(what + " set_child", call(n.set_child, 5, self.make(0)),
                   exc=TypeError)
            for x in (None, 5.0, ("a",), b"a"):
                expect("%s set_child(%r)" % (what, x), call(
                    n.set_child, x, self.make(0)), exc=TypeError)
        if "height" in m:
            for x, e in ((True, TypeError), (1.0, TypeError),
                         ("1", TypeError), (None, TypeError),
                         (-1, ValueError), (-10 ** 9, ValueError)):
                expect("%s set_height(%r)" % (what, x),
                       call(n.set_height, x), exc=e)
        if self.kind == "bst":
            for x in wrong:
                expect("%s set_parent(%r)" % (what, type(x).__name__),
                       call(n.set_parent, x), exc=TypeError)
        if self.kind in ("tree", "binary"):
            for x in (5, "x", None, []):
                expect("%s swap with %r" % (what, x),
                       call(type(n).swap, n, x), exc=TypeError)
                expect("%s swap with %r" % (what, x),
                       call(type(n).swap, x, n), exc=TypeError)
        if self.cname in ("TreapNode", "PriorityNode"):
            for x in ("1", [], True, 1j):
                expect("%s(1, %r)" % (self.cname, x), call(type(n), 1, x),
                       exc=TypeError)
        if "color" in m:
            for x in (5, None, "red"):
                expect("%s set_color(%r)" % (what, x),
                       call(n.set_color, x), exc=(ValueError, TypeError))

    def check(self, w):
        where = {id(n): i for i, n in enumerate(w.nodes)}

        def idx(x):
            return None if x is None else where.get(id(x), "a stranger")

        for i, (n, m) in enumerate(zip(w.nodes, w.model)):
            what = "%s pool %s: node %d" % (self.cname, w.model, i)
            eq(what + ": get_data()", get(what, n.get_data), m["data"])
            for f in ("next", "prev", "down", "left", "right", "parent"):
                if f in m:
                    eq("%s: get_%s()" % (what, f),
                       idx(get(what, getattr(n, "get_" + f))), m[f])
            for f in ("priority", "color"):
                if f in m and get(what, getattr(n, "get_" + f)) != m[f]:
                    fail("%s: get_%s() is %r", what, f,
                         getattr(n, "get_" + f)())
            if self.kind == "list":
                r = get(what, repr, n)
                for v in [m["data"]] + ([w.model[m["next"]]["data"]] if
                                        m["next"] is not None and
                                        self.cname != "PriorityNode" else []):
                    if str(v) not in r:
                        fail("%s: repr() %r does not show %r", what, r, v)
                continue
            kids = self.kids(m)
            got = [idx(x) for x in get(what, n.get_children)]
            eq(what + ": get_children()", got, kids)
            eq(what + ": is_leaf()", get(what, n.is_leaf), not kids)
            if self.kind in ("binary", "bst"):
                eq(what + ": has_one_child()", get(what, n.has_one_child),
                   len(kids) == 1)
            if self.kind == "trie":
                eq(what + ": get_characters()",
                   sorted(get(what, n.get_characters)),
                   sorted(m["children"]))
                for ch in ("a", "b", "c", "", "ab", "abc", "é", "e\u0301"):
                    eq("%s: get_child(%r)" % (what, ch),
                       idx(get(what, n.get_child, ch)),
                       m["children"].get(ch))
            if self.kind == "bst":
                p = m["parent"]
                eq(what + ": get_grand_parent()",
                   idx(get(what, n.get_grand_parent)),
                   None if p is None else w.model[p]["parent"])
                s = self.side(w, i)
                if s:
                    eq(what + ": is_left_child()",
                       get(what, n.is_left_child), s == "left")
                    eq(what + ": get_sibling()",
                       idx(get(what, n.get_sibling)),
                       w.model[p]["right" if s == "left" else "left"])
                    s2 = self.side(w, p)
                    if s2:
                        eq(what + ": get_uncle()",
                           idx(get(what, n.get_uncle)),
                           w.model[w.model[p]["parent"]][
                               "right" if s2 == "left" else "left"])
                if p is None:
                    eq(what + ": get_sibling()",
                       idx(get(what, n.get_sibling)), None)
                    eq(what + ": get_uncle()",
                       idx(get(what, n.get_uncle)), None)
            if "height" in m:
                h = self.height(w, i, ())
                if h is not None:
                    eq(what + ": get_height()", get(what, n.get_height), h)
            if str(m["data"]) not in get(what, repr, n):
                fail("%s: repr() is %r", what, repr(n))

    def kids(self, m):
        if self.kind == "tree":
            return m["children"]
        if self.kind == "trie":
            return list(m["children"].values())
        return [m[s] for s in ("left", "right") if m[s] is not None]

    def side(self, w, i):
        """The side of its parent a node is on, where links and values agree
        (search order)."""
        p = w.model[i]["parent"]
        if p is None:
            return None
        q, d = w.model[p], w.model[i]["data"]
        if q["left"] == i and q["right"] != i and d < q["data"]:
            return "left"
        if q["right"] == i and q["left"] != i and d > q["data"]:
            return "right"
        return None

    def height(self, w, i, path):
        """Height of a node whose part of the pool was built bottom-up."""
        if i in path:
            return None
        m = w.model[i]
        hs = [self.height(w, m[s], path + (i,)) for s in ("left", "right")
              if m[s] is not None]
        if None in hs:
            return None
        h = max([0] + [1 + x for x in hs])
        return h if h == m["height"] else None

    def key(self, w):
        return (canon(w.nodes), repr(w.model))


def family_cases(kind, mod, name):
    for n in (4, 9, 17, 33, 65, 129):
        for order in ("up", "down", "twice"):
            yield kind, mod, name, n, order


def run_family(case):
    """n nodes linked by hand: a chain (lists), a spine (binary), one parent
    with n children (trees, tries)."""
    kind, mod, name, n, order = case
    c = cls(mod, name)
    what = "%s: %d nodes, %s" % (name, n, order)
    mk = (lambda i: get(what, c, "w%d" % i)) if kind == "trie" else \
        (lambda i: get(what, c, i))
    nodes = [mk(i) for i in range(n)]
    at = {id(x): i for i, x in enumerate(nodes)}

    def idx(x):
        return None if x is None else at.get(id(x), "a stranger")

    if kind in ("tree", "trie"):
        kids = list(range(1, n))
        if order == "down":
            kids.reverse()
        key = {i: chr(0x4e00 + i) for i in kids}
        for _ in range(2 if order == "twice" and kind == "trie" else 1):
            for i in kids:
                a = (key[i], nodes[i]) if kind == "trie" else (nodes[i],)
                expect(what, call(nodes[0].set_child, *a), None)
        if kind == "tree" and order == "twice":
            expect(what, call(nodes[0].set_children,
                              [nodes[i] for i in kids[::-1]]), None)
            kids.reverse()
        eq(what + ": get_children()",
           [idx(x) for x in get(what, nodes[0].get_children)], kids)
        for i in kids:
            eq(what + ": is_leaf()", get(what, nodes[i].is_leaf), True)
            if kind == "trie":
                eq(what + ": get_child()",
                   idx(get(what, nodes[0].get_child, key[i])), i)
                eq(what + ": get_parent()",
                   idx(get(what, nodes[i].get_parent)), 0)
        return case, n
    side = {"list": ("next",)}.get(kind, ("left", "right"))
    seq = list(range(n - 1))
    if order != "up":
        seq.reverse()
    for _ in range(2 if order == "twice" else 1):
        for i in seq:
            expect(what, call(getattr(nodes[i], "set_"
                                      + side[i % len(side)]),
                              nodes[i + 1]), None)
    for i in range(n):
        for k, f in enumerate(side):
            eq("%s: get_%s() of %d" % (what, f, i),
               idx(get(what, getattr(nodes[i], "get_" + f))),
               i + 1 if i < n - 1 and i % len(side) == k else None)
        if kind == "bst":
            eq(what + ": get_parent()", idx(get(what, nodes[i].get_parent)),
               i - 1 if i else None)
        if name in ("DoublyNode", "PriorityNode"):
            eq(what + ": get_prev()", idx(get(what, nodes[i].get_prev)),
               i - 1 if i else None)
        if name == "AVLNode" and order == "down":
            eq(what + ": get_height()", get(what, nodes[i].get_height),
               n - 1 - i)
        eq(what + ": get_data()", get(what, nodes[i].get_data), i)
    return case, n


MORE = (2 ** 53 + 1, 10 ** 20 + 1, 2.0 ** 70, 1e-13, 2e-13, -0.0, 100, 101,
        257, -7, 1e18, 1e300)


def value_cases(kind, name):
    from .props_values import NUMBERS, TEXTS, VALUES
    vals = {"trie": TEXTS + ("", "ab" * 70, " ", "a b")}.get(kind)
    if vals is None:
        vals = tuple(NUMBERS) + MORE
        if kind != "bst" and name not in ("HeapNode", "SkipNode"):
            vals += tuple(VALUES)
    for i, v in enumerate(vals):
        for u in (vals[i - 1], vals[(i * 7 + 3) % len(vals)]):
            yield v, u
    if name in ("TreapNode", "PriorityNode"):
        nums = tuple(NUMBERS) + MORE
        for i, x in enumerate(nums):
            for y in nums:
                yield "priority", x, y
    if name == "AVLNode":
        for h in list(range(0, 70)) + [127, 128, 1000, 10 ** 6]:
            yield "height", h


def run_values(kind, mod, name):
    """Values and priorities of every magnitude and type come back."""
    def same(what, got, v):
        eq(what, got, v)
        eq(what, repr(got), repr(v))

    c = cls(mod, name)

    def held(what, got, v):
        same(what, got, v if kind == "trie" else text(v))

    def run(case):
        if case[0] == "priority" and len(case) == 3:
            _p, x, y = case
            n = get(name, c, 1, x)
            what = "%s(1, %r)" % (name, x)
            same(what + ".get_priority()", get(what, n.get_priority), x)
            expect(what + ".set_priority(%r)" % (y,),
                   call(n.set_priority, y), None)
            same(what + ".set_priority(%r), then get_priority()" % (y,),
                 get(what, n.get_priority), y)
            return case, 2
        if case[0] == "height" and kind == "bst" and len(case) == 2:
            n = get(name, c, 1)
            what = "%s(1).set_height(%d)" % (name, case[1])
            expect(what, call(n.set_height, case[1]), None)
            same(what, get(what, n.get_height), case[1])
            m = get(name, c, 2)
            expect(what, call(m.set_left, n), None)
            same(what + " as a left child", get(what, m.get_height),
                 case[1] + 1)
            return case, 2
        v, u = case
        args = (5,) if name in ("TreapNode", "PriorityNode") else ()
        n, k = get(name, c, v, *args), get(name, c, u, *args)
        what = "%s(%r)" % (name, v)
        held(what + ".get_data()", get(what, n.get_data), v)
        r = get(what, repr, n)
        if str(text(v) if kind != "trie" else v) not in r and not (
                name == "SkipNode" and v in (INF, -INF)):
            fail("%s: repr() is %r", what, r)
        if kind == "list":
            expect(what + ".set_data(%r)" % (u,), call(n.set_data, u), None)
            held(what + ".set_data(%r)" % (u,), get(what, n.get_data), u)
        elif kind != "trie":
            expect(what + " swapped", call(c.swap, n, k), None)
            held("%s swapped with %r" % (what, u), get(what, n.get_data), u)
            held("%s swapped with %r" % (what, u), get(what, k.get_data), v)
        else:
            r = get(name, c, "r")
            if v:
                expect("set_child(%r)" % v, call(r.set_child, v, k), None)
                eq("get_child(%r)" % v, get(what, r.get_child, v) is k, True)
                eq("get_characters()", list(get(what, r.get_characters)), [v])
        return case, 3
    return run


@register("C30", ["a node is not linked to itself",
                  "sides are judged where links and values agree; heights of "
                  "AVL nodes where children were complete when linked"])
def c30(th):
    t = []
    for kind, mod, name, data in CLASSES:
        if cls(mod, name) is None:
            continue
        depth = {"list": 5, "tree": 4, "binary": 5, "bst": 4, "trie": 3}[kind]
        depth += th

        def make(kind=kind, mod=mod, name=name, data=data, depth=depth):
            def other():
                if kind == "list":
                    return extra.TreeNode(1)
                return cls(L + "linked_list", "Node")(1)
            return NodeSystem("%s pool" % name, kind, mod, name, data, depth,
                              other)
        t.append(("%s: every pool of three nodes to depth %d" % (name, depth),
                  "explore", make, 5))

        def alike(make=make, kind=kind):
            s = make()
            s.max_depth = min(s.max_depth, 4)
            s.keys = ("ab", "", "a")
            s.data = {"list": (1, 1.0, 2), "tree": (1, True, 1.0),
                      "trie": ("ab", "ab", "")}.get(kind, (1, 1.0, 2))
            return s
        t.append(("%s: pools of equal values" % name, "explore", alike, 4))
        t.append(("%s: values of every kind" % name, "sweep",
                  lambda a=(kind, mod, name): (value_cases(a[0], a[2]),
                                               run_values(*a)), 2))
        t.append(("%s: long families by hand" % name, "sweep",
                  lambda a=(kind, mod, name): (family_cases(*a),
                                               run_family), 2))
    return t
