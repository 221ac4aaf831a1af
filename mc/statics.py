"""Adapters for the structures that are built once: Tree, BinaryTree and
SuffixTrie.  The model of the first two is a plain shape, of the last the
text."""
from . import core, shape as sh, tries
from .core import MISSING, call, eq, expect, extra, fail, get
from .lists import World, values_of
from .trees import check_measures, check_traversals


def module(name):
    import importlib
    return importlib.import_module("extra.trees." + name)


def tree_node(v):
    return get("TreeNode(%r)" % (v,), module("tree").TreeNode, v)


def binary_node(v):
    return get("BinaryTreeNode(%r)" % (v,),
               module("binary_tree").BinaryTreeNode, v)


def build_general(g, bulk=False):
    """A Tree spelled through the node API; bulk: set_children."""
    t = get("Tree()", extra.Tree)
    if g is None:
        return t

    def go(x):
        n = tree_node(x[0])
        kids = [go(c) for c in x[1]]
        if bulk:
            get("set_children", n.set_children, tuple(kids))
        else:
            for k in kids:
                get("set_child", n.set_child, k)
        return n

    t._root = go(g)
    return t


def build_binary(s):
    t = get("BinaryTree()", extra.BinaryTree)
    if s is None:
        return t

    def go(x):
        n = binary_node(x[0])
        if x[1] is not None:
            get("set_left", n.set_left, go(x[1]))
        if x[2] is not None:
            get("set_right", n.set_right, go(x[2]))
        return n

    t._root = go(s)
    return t


def occurs(v, vals):
    return any(v == x for x in vals)


def check_general(t, g, what, probes=()):
    n = sh.gsize(g)
    eq(what + ": len()", get(what, len, t), n)
    eq(what + ": is_empty()", get(what, t.is_empty), g is None)
    eq(what + ": get_height()", get(what, t.get_height),
       max(0, sh.gheight(g)))
    eq(what + ": get_depth()", get(what, t.get_depth), 0)
    eq(what + ": count_leaf_nodes()", get(what, t.count_leaf_nodes),
       sh.gleaves(g))
    rows = sh.glevels(g)
    eq(what + ": get_nodes_per_level()", get(what, t.get_nodes_per_level),
       rows)
    flat = [x for r in rows for x in r]
    eq(what + ": iteration", values_of(t, n, what), flat)
    eq(what + ": to_list()", get(what, t.to_list), flat)
    for v in list(probes) + flat + [core.ALIENS[1], core.ALIENS[3]]:
        eq("%s: %r in it" % (what, v), get(what, t.__contains__, v),
           occurs(v, flat))
    root = sh.root_of(t)
    if root is not MISSING:
        got = sh.general_shape(root, n, what)
        if not core.same(got, g):
            fail("%s: the linked shape is %s", what, core.show(got))


def check_nodes(node, g, what):
    """Node-level answers of a general tree."""
    w = "%s: node %r" % (what, g[0])
    eq(w + ": get_data()", get(w, node.get_data), g[0])
    eq(w + ": is_leaf()", get(w, node.is_leaf), not g[1])
    kids = get(w, node.get_children)
    eq(w + ": number of children", len(kids), len(g[1]))
    for k, c in zip(kids, g[1]):
        check_nodes(k, c, what)


def check_binary(t, s, what, probes=()):
    check_traversals(t, s, what)
    check_measures(t, s, what)
    flat = sh.bfs(s)
    for v in list(probes) + flat + [core.ALIENS[1], core.ALIENS[3]]:
        eq("%s: %r in it" % (what, v), get(what, t.__contains__, v),
           occurs(v, flat))
    root = sh.root_of(t)
    if root is not MISSING:
        got = sh.binary_shape(root, len(flat), what)
        if not core.same(got, s):
            fail("%s: the linked shape is %s", what, core.show(got))

        def go(n, x):
            w = "%s: node %r" % (what, x[0])
            eq(w + ": is_leaf()", get(w, n.is_leaf), not (x[1] or x[2]))
            eq(w + ": has_one_child()", get(w, n.has_one_child),
               (x[1] is None) != (x[2] is None))
            kids = [(n.get_left(), x[1])] * (x[1] is not None) \
                + [(n.get_right(), x[2])] * (x[2] is not None)
            got = get(w, n.get_children)
            if len(got) != len(kids) or any(
                    a is not b for a, (b, _c) in zip(got, kids)):
                fail("%s: get_children() is wrong", w)
            for a, c in kids:
                go(a, c)
        if s is not None:
            go(root, s)


class TreeAdapter:
    kind = "Tree"

    def __init__(self, shapes=()):
        self.cls = extra.Tree
        self.shapes = list(shapes)

    def configs(self):
        return [(s,) for s in self.shapes]

    def new(self, g=None):
        return World(build_general(g), g)

    def mutators(self, w, vals, cap):
        yield ("clear",)

    def do(self, w, op):
        what = "%s %s: %s" % (self.kind, core.show(w.model), op[0])
        if op[0] == "clear":
            expect(what, call(w.real.clear), None, warns=False)
            w.model = None
        else:
            raise core.HarnessError(op)
        return op[0]

    def contents(self, r, m, what):
        eq(what + ": to_list()", get(what, r.to_list),
           [x for row in sh.glevels(m) for x in row])

    def observe(self, w, probes=()):
        check_general(w.real, w.model, "%s %s" % (
            self.kind, core.show(w.model)), probes)


class BinaryTreeAdapter(TreeAdapter):
    kind = "BinaryTree"

    def __init__(self, shapes=()):
        self.cls = extra.BinaryTree
        self.shapes = list(shapes)

    def new(self, s=None):
        return World(build_binary(s), s)

    def mutators(self, w, vals, cap):
        yield ("clear",)
        yield ("invert",)

    def do(self, w, op):
        if op[0] == "invert":
            expect("BinaryTree %s: invert()" % core.show(w.model),
                   call(w.real.invert), None, warns=False)
            w.model = sh.mirror(w.model)
            return "invert"
        return TreeAdapter.do(self, w, op)

    def contents(self, r, m, what):
        eq(what + ": to_list()", get(what, r.to_list), sh.bfs(m))

    def observe(self, w, probes=()):
        check_binary(w.real, w.model, "BinaryTree %s" % core.show(w.model),
                     probes)


class SuffixTrieAdapter:
    """Never changes after construction."""

    kind = "SuffixTrie"

    def __init__(self, texts=("a", "aa", "ab", "aba")):
        self.cls = extra.SuffixTrie
        self.texts = texts

    def configs(self):
        return [(t,) for t in self.texts]

    def new(self, text="aba"):
        return World(get("SuffixTrie(%r)" % text, self.cls, text), text)

    def mutators(self, w, vals, cap):
        return ()

    def do(self, w, op):
        raise core.HarnessError(op)

    def contents(self, r, m, what):
        eq(what + ": to_suffix_array()", get(what, r.to_suffix_array),
           sorted(range(len(m) + 1), key=lambda i: m[i:]))

    def observe(self, w, probes=()):
        t = w.model
        pats = {t[i:j] for i in range(len(t)) for j in range(i, len(t) + 1)}
        pats |= {p + "b" for p in pats} | {"z", "$"}
        tries.check_suffix_trie(t, sorted(pats), real=w.real)
