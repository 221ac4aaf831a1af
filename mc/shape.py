"""Reference model of tree shapes.

A binary shape is None or a tuple (data, left, right); a general shape is a
tuple (data, [children]).  Everything below is defined on these plain values
and shares nothing with the code under test.
"""
from . import core
from .core import MISSING, fail


def root_of(tree):
    """The root node of a tree object (None if empty), or MISSING."""
    r = core.priv(tree, "_root")
    return r


def binary_shape(node, limit, what="tree"):
    """Nested tuple of a linked binary tree; refuses cycles and sharing."""
    seen = set()

    def go(n):
        if n is None:
            return None
        if id(n) in seen:
            fail("%s: a node is reachable twice (value %r)", what,
                 n.get_data())
        seen.add(id(n))
        if len(seen) > limit:
            fail("%s: more than %d nodes are linked", what, limit)
        return (n.get_data(), go(n.get_left()), go(n.get_right()))

    return go(node)


def binary_nodes(node, limit=100000):
    out, stack, seen = [], [node] if node is not None else [], set()
    while stack:
        n = stack.pop()
        if id(n) in seen or len(out) > limit:
            fail("a node is reachable twice (value %r)", n.get_data())
        seen.add(id(n))
        out.append(n)
        for c in (n.get_right(), n.get_left()):
            if c is not None:
                stack.append(c)
    return out


def size(s):
    return 0 if s is None else 1 + size(s[1]) + size(s[2])


def height(s):
    """In edges; -1 for the empty tree."""
    return -1 if s is None else 1 + max(height(s[1]), height(s[2]))


def leaves(s):
    if s is None:
        return 0
    if s[1] is None and s[2] is None:
        return 1
    return leaves(s[1]) + leaves(s[2])


def preorder(s):
    return [] if s is None else [s[0]] + preorder(s[1]) + preorder(s[2])


def inorder(s):
    return [] if s is None else inorder(s[1]) + [s[0]] + inorder(s[2])


def postorder(s):
    return [] if s is None else postorder(s[1]) + postorder(s[2]) + [s[0]]


def levels(s):
    out = []
    row = [s] if s is not None else []
    while row:
        out.append([n[0] for n in row])
        row = [c for n in row for c in (n[1], n[2]) if c is not None]
    return out


def bfs(s):
    return [x for row in levels(s) for x in row]


def mirror(s):
    return None if s is None else (s[0], mirror(s[2]), mirror(s[1]))


def balanced_root(s):
    return s is None or abs(height(s[1]) - height(s[2])) <= 1


def perfect(s):
    return size(s) == 2 ** (height(s) + 1) - 1


def strict(s):
    if s is None:
        return True
    if (s[1] is None) != (s[2] is None):
        return False
    return strict(s[1]) and strict(s[2])


# ---- general trees --------------------------------------------------------
def general_shape(node, limit, what="tree"):
    seen = set()

    def go(n):
        if id(n) in seen:
            fail("%s: a node is reachable twice (value %r)", what,
                 n.get_data())
        seen.add(id(n))
        if len(seen) > limit:
            fail("%s: more than %d nodes are linked", what, limit)
        return (n.get_data(), [go(c) for c in n.get_children()])

    return None if node is None else go(node)


def to_general(s):
    return None if s is None else (
        s[0], [to_general(c) for c in (s[1], s[2]) if c is not None])


def gsize(g):
    return 0 if g is None else 1 + sum(gsize(c) for c in g[1])


def gheight(g):
    return -1 if g is None else 1 + max([gheight(c) for c in g[1]] or [-1])


def gleaves(g):
    if g is None:
        return 0
    return 1 if not g[1] else sum(gleaves(c) for c in g[1])


def glevels(g):
    out, row = [], [g] if g is not None else []
    while row:
        out.append([n[0] for n in row])
        row = [c for n in row for c in n[1]]
    return out


# ---- enumeration ----------------------------------------------------------
_BIN = {0: [None]}


def binary_shapes(n):
    """All binary tree shapes with n nodes (data filled with None)."""
    if n not in _BIN:
        _BIN[n] = [(None, a, b) for k in range(n)
                   for a in binary_shapes(k) for b in binary_shapes(n - 1 - k)]
    return _BIN[n]


def forests(n):
    """All ordered forests with n nodes."""
    if n == 0:
        return [[]]
    out = []
    for k in range(1, n + 1):
        for kids in forests(k - 1):
            for rest in forests(n - k):
                out.append([(None, kids)] + rest)
    return out


def general_shapes(n):
    return [(None, f) for f in forests(n - 1)]


def label(s, vals):
    """Fill a binary shape with values in preorder."""
    it = iter(vals)

    def go(x):
        if x is None:
            return None
        v = next(it)
        return (v, go(x[1]), go(x[2]))

    return go(s)


def glabel(g, vals):
    it = iter(vals)

    def go(x):
        v = next(it)
        return (v, [go(c) for c in x[1]])

    return go(g)


# ---- textbook splaying on shapes ------------------------------------------
def splay(s, x):
    """Bottom-up splay of the node holding x; s is a search tree."""
    path = []
    cur = s
    while cur[0] != x:
        if x < cur[0]:
            path.append((cur, "L"))
            cur = cur[1]
        else:
            path.append((cur, "R"))
            cur = cur[2]
    v, a, b = cur
    while path:
        p, side = path.pop()
        if not path:
            if side == "L":
                a, b = a, (p[0], b, p[2])
            else:
                a, b = (p[0], p[1], a), b
            break
        g, gside = path.pop()
        if gside == "L" and side == "L":
            b = (p[0], b, (g[0], p[2], g[2]))
        elif gside == "R" and side == "R":
            a = (p[0], (g[0], g[1], p[1]), a)
        elif gside == "L":
            a, b = (p[0], p[1], a), (g[0], b, g[2])
        else:
            a, b = (g[0], g[1], a), (p[0], b, p[2])
    return (v, a, b)


def bst_insert(s, x):
    if s is None:
        return (x, None, None)
    if x == s[0]:
        return s
    if x < s[0]:
        return (s[0], bst_insert(s[1], x), s[2])
    return (s[0], s[1], bst_insert(s[2], x))


def last_visited(s, x):
    while True:
        if x == s[0]:
            return s[0]
        nxt = s[1] if x < s[0] else s[2]
        if nxt is None:
            return s[0]
        s = nxt


def cartesian(pairs):
    """The only treap of (value, distinct priority) pairs, max on top."""
    if not pairs:
        return None
    i = max(range(len(pairs)), key=lambda j: pairs[j][1])
    return (pairs[i][0], cartesian(pairs[:i]), cartesian(pairs[i + 1:]))
