"""Properties of tree shapes: measurements (C19), parsing and inversion
(C20), trees of directories (C25)."""
import itertools
import os
import shutil
import tempfile

from . import core, shape as sh, statics, trees
from .core import MISSING, call, eq, expect, extra, fail, get
from .props import register
from .props_trees import BA, MIX, big_cases, run_big
from .systems import AdapterSystem

INF = float("inf")
FALSY = (0, "", False, (), 0.0)


# --------------------------------------------------------------------------
# C19
# --------------------------------------------------------------------------
def labelings(n, th):
    yield tuple(range(n))
    yield ("x",) * n
    yield tuple(FALSY[i % 5] for i in range(n))
    yield tuple(FALSY[(i + 1) % 5] for i in range(n))
    if n <= (7 if th else 6):
        for p in itertools.product((1, 2), repeat=n):
            yield p


def general_cases(lo, hi, th):
    for n in range(lo, hi + 1):
        for i in range(len(sh.general_shapes(n))):
            for j, lab in enumerate(labelings(n, th)):
                yield (n, i, j % 2, lab)


def run_general(case):
    n, i, bulk, lab = case
    g = sh.glabel(sh.general_shapes(n)[i], lab)
    t = statics.build_general(g, bulk)
    what = "Tree %s" % core.show(g)
    statics.check_general(t, g, what, (1, 2, 7, "x", "", None, 0))
    root = sh.root_of(t)
    if root is not MISSING:
        statics.check_nodes(root, g, what)
    return (case, 12 + n)


def binary_cases(lo, hi, th):
    for n in range(lo, hi + 1):
        for i in range(len(sh.binary_shapes(n))):
            for lab in labelings(n, th):
                yield (n, i, lab)


def run_binary(case):
    n, i, lab = case
    s = sh.label(sh.binary_shapes(n)[i], lab)
    t = statics.build_binary(s)
    statics.check_binary(t, s, "BinaryTree %s" % core.show(s),
                         (1, 2, 7, "x", "", None, 0))
    return (case, 40 + n)


def grow_cases(th):
    """Trees that keep growing, re-measured after every added node."""
    n = 6 if th else 5
    for seq in itertools.product(*[range(k) for k in range(1, n + 1)]):
        for front in (0, 1):
            yield ("grow", seq, front)
    for seq in itertools.product(range(4), repeat=4):
        yield ("bulk", seq, 0)


def run_grow(case):
    how, seq, front = case
    t = get("Tree()", extra.Tree)
    root = statics.tree_node(0)
    t._root = root
    nodes = [root]
    model = [(0, [])]
    if how == "grow":
        for k, par in enumerate(seq):
            c = statics.tree_node(k + 1)
            get("set_child", nodes[par].set_child, c)
            mc = (k + 1, [])
            model[par][1].append(mc)
            nodes.append(c)
            model.append(mc)
            statics.check_general(t, model[0], "Tree %s" % core.show(
                model[0]), (9,))
    else:
        # replacing all children at once, from different kinds of iterables
        for k, m in enumerate(seq):
            kids = [statics.tree_node((k, j)) for j in range(m)]
            src = (kids, tuple(kids), iter(kids), dict.fromkeys(kids))[k % 4]
            get("set_children", root.set_children, src)
            model[0][1][:] = [((k, j), []) for j in range(m)]
            if k % 4 == 0:
                kids.append(statics.tree_node("later"))
                del kids[:1]
            statics.check_general(t, model[0], "Tree %s" % core.show(
                model[0]))
    return (case, len(seq))


def larger_cases(th):
    from . import large
    for n in list(range(10, 42)) + ([63, 64, 65] if not th else list(
            range(42, 80)) + [127, 128, 129]):
        for kind in ("BinaryTree", "Tree"):
            for lab, _c in large.large_static(kind, n):
                for values in ("distinct", "same", "falsy", "fresh"):
                    yield (kind, n, lab, values)
        for lab, _c in large_shapes(n):
            yield ("BinaryTree", n, "-" + lab, "distinct")
            yield ("mirror", n, "-" + lab, "distinct")
    for n in (100, 129, 200, 257, 300) + ((520,) if th else ()):
        for kind in ("BinaryTree", "Tree"):
            for lab, _c in large.large_static(kind, n):
                for values in ("distinct", "fresh"):
                    yield (kind, n, lab, values)


def lopsided_cases(th):
    """Two sub-trees of every pair of heights below one root."""
    top = 21 if th else 15
    for a in range(top):
        for b in range(top):
            for how in ("paths", "bushy"):
                if how == "paths" or max(a, b) < 9:
                    yield (a, b, how)
    for a in (31, 32, 33, 63, 64, 100):
        for b in (a - 2, a - 1, a, a + 1, a + 2):
            yield (a, b, "paths")


def run_lopsided(case):
    from . import large
    a, b, how = case

    def part(h):
        if how == "bushy":
            return large.complete(2 ** h - 1 if h < 2 else
                                  2 ** (h - 1) + h % 2)
        return large.path(h, lambda i: i % 2 == 0)

    s = sh.label((0, part(a), part(b)), range(2000))
    t = statics.build_binary(s)
    what = "BinaryTree of two parts, %s" % (case,)
    statics.check_binary(t, s, what)
    return (case, 10)


def fresh(k):
    """A new object each time, equal to the other ones for this number."""
    return (k / 4 + 0.25, "n%d" % k, (k, "t"), [k], 10 ** 20 + k)[k % 5]


def wide_cases():
    """One or two of many siblings have descendants."""
    leaf = ("o", [])
    for n in range(1, 21):
        for i in range(n):
            for depth in (1, 2, 3):
                sub = leaf
                for _ in range(depth):
                    sub = ("o", [sub] + [leaf] * (depth - 1))
                kids = [leaf] * n
                kids[i] = sub
                yield ("o", list(kids))
                for j in {0, n // 2, n - 1} - {i}:
                    k2 = list(kids)
                    k2[j] = ("o", [leaf, leaf])
                    yield ("o", k2)
                    if n < 12:
                        yield ("o", [("o", k2), leaf])
    for n in (33, 64, 65, 66, 100, 129, 257, 300):
        for i in {0, n // 2, n - 2, n - 1}:
            kids = [leaf] * n
            kids[i] = ("o", [("o", [leaf]), leaf])
            yield ("o", list(kids))
            yield ("o", [leaf, ("o", kids)])


def run_wide(shape):
    g, n = number(shape, 0)
    t = statics.build_general(g)
    what = "Tree %s" % core.show(g)
    statics.check_general(t, g, what, (n + 1, "x"))
    root = sh.root_of(t)
    if root is not MISSING:
        statics.check_nodes(root, g, what)
    return (g, n)


def number(g, k):
    me, kids = k, []
    k += 1
    for c in g[1]:
        x, k = number(c, k)
        kids.append(x)
    return (me, kids), k


def run_larger(case):
    from . import large
    kind, n, lab, values = case
    vals = {"distinct": tuple(range(n)), "same": ("x",) * n,
            "falsy": tuple(FALSY[k % 5] for k in range(n)),
            "fresh": tuple(map(fresh, range(n)))}[values]
    probes = (1, 2, n + 7, "x", "", None, 0)
    if values == "fresh":
        probes = tuple(map(fresh, range(n + 5)))
    if lab[0] == "-":
        s = dict(large_shapes(n))[lab[1:]]
        if kind == "mirror":
            s = sh.mirror(s)
        statics.check_binary(statics.build_binary(s), s,
                             "BinaryTree %s" % core.show(s), probes)
        return (case, n)
    shape = dict(large.large_static(kind, n))[lab]
    if kind == "BinaryTree":
        s = sh.label(shape, vals)
        statics.check_binary(statics.build_binary(s), s,
                             "BinaryTree %s" % core.show(s), probes)
        return (case, n)
    g = sh.glabel(shape, vals)
    for bulk in (False, True):
        t = statics.build_general(g, bulk)
        what = "Tree %s" % core.show(g)
        statics.check_general(t, g, what, probes)
        root = sh.root_of(t)
        if root is not MISSING:
            statics.check_nodes(root, g, what)
    return (case, 2 * n)


def deep_cases():
    for n in (30, 100, 200):
        for how in ("left", "right", "zigzag"):
            yield (n, how)


def run_deep(case):
    n, how = case
    s, g = None, None
    for i in range(n - 1, -1, -1):
        left = how == "left" or (how == "zigzag" and i % 2)
        s = (i, s, None) if left else (i, None, s)
        g = (i, [g] if g else [])
    statics.check_binary(statics.build_binary(s), s, "chain of %d" % n)
    statics.check_general(statics.build_general(g), g, "chain of %d" % n)
    return (case, n)


@register("C19", ["the depth of a whole tree is the depth of its root (zero)",
                  "a binary tree is balanced when the heights left and "
                  "right of the root differ by at most one, the documented "
                  "meaning", "chains deeper than 200 are outside the bound"])
def c19(th):
    t = []
    top = 10 if th else 9
    for n in range(1, top + 1):
        if n < 5:
            continue
        t.append(("Tree: every ordered tree of %s nodes" % (
            "<=5" if n == 5 else n), "sweep", lambda n=n: (
                general_cases(1 if n == 5 else n, n, th), run_general), n))
        t.append(("BinaryTree: every shape of %s nodes" % (
            "<=5" if n == 5 else n), "sweep", lambda n=n: (
                binary_cases(0 if n == 5 else n, n, th), run_binary), n))
    t.append(("Tree: every growth", "sweep", lambda: (grow_cases(th),
                                                       run_grow), 5))
    t.append(("empty trees and chains", "sweep", lambda: (
        deep_cases(), run_deep), 5))
    t.append(("larger shapes", "sweep", lambda: (larger_cases(th),
                                                 run_larger), 6))
    t.append(("parts of every two heights", "sweep", lambda: (
        lopsided_cases(th), run_lopsided), 5))
    t.append(("Tree: many siblings", "sweep", lambda: (
        wide_cases(), run_wide), 5))
    t.append(("Tree() and BinaryTree() without nodes", "sweep", lambda: (
        [("Tree",), ("BinaryTree",)], run_empty)))
    ck = ("set", "measure")
    caps = dict(BST=6, AVL=8, RedBlackTree=7, SplayTree=5, Treap=3)
    for kind in trees.SEARCH_TREES:
        t.append(("%s: measured in every reachable shape" % kind, "explore",
                  lambda k=kind: AdapterSystem(
                      k + " measures", BA(k, ck, (1, 2, 3)), (), (),
                      caps[k] + (1 if th else 0)), 6))
        t.append(("%s: families" % kind, "sweep", lambda k=kind: (
            big_cases(range(1, 11) if not th else range(1, 16),
                      ("min", "mid")), run_big(
                k, ck, (lambda a, v, n: (v * 7 + 3) % 11)
                if k == "Treap" else None)), 5))
    for alpha, n in (("ab", 7), ("abc", 5), ("a", 12)):
        t.append(("SuffixTrie: every text of <=%d over %r" % (n, alpha),
                  "sweep", lambda a=alpha, n=n: (
                      [("".join(p),) for k in range(1, n + 1)
                       for p in itertools.product(a, repeat=k)],
                      run_suffix), 4))
    return t


def run_empty(case):
    if case[0] == "Tree":
        statics.check_general(extra.Tree(), None, "Tree()", (0, None, ""))
    else:
        statics.check_binary(extra.BinaryTree(), None, "BinaryTree()",
                             (0, None, ""))
    return (case, 20)


def run_suffix(case):
    t = get("SuffixTrie", extra.SuffixTrie, case[0])
    what = "SuffixTrie(%r)" % case[0]
    rt = core.priv(t, "_rt")
    root = core.priv(rt, "_root")
    if root is MISSING or root is None:
        return (case, 0)
    g = sh.general_shape(root, 10000, what)
    rows = sh.glevels(g)[1:]
    eq(what + ": len()", get(what, len, t), sh.gsize(g))
    eq(what + ": get_height()", get(what, t.get_height), sh.gheight(g))
    eq(what + ": get_depth()", get(what, t.get_depth), 0)
    eq(what + ": count_leaf_nodes()", get(what, t.count_leaf_nodes),
       sh.gleaves(g))
    flat = [x.split(" ⟶ ")[0] for r in rows for x in r]
    eq(what + ": iteration", trees.values_of(t, len(flat), what), flat)
    eq(what + ": to_list()", get(what, t.to_list), flat)
    return (case, 6)


# --------------------------------------------------------------------------
# C20
# --------------------------------------------------------------------------
# A specification is (value, left spec or None, right spec or None) where a
# right child needs a left one.  A spelling lists the styles of its nodes in
# preorder: 0 list, 1 tuple, and for leaves also 2 bare value.
def spec_shapes(n):
    def ok(s):
        return s is None or (not (s[1] is None and s[2] is not None)
                             and ok(s[1]) and ok(s[2]))
    return [s for s in sh.binary_shapes(n) if ok(s)]


def spell(s, styles, top=True):
    it = iter(styles)

    def go(x, top):
        k = next(it)
        leaf = x[1] is None and x[2] is None
        if leaf and not top and k == 2:
            return x[0]
        parts = [x[0]] + [go(c, False) for c in (x[1], x[2])
                          if c is not None]
        return tuple(parts) if k == 1 else parts

    return go(s, True)


def style_choices(s, top=True):
    if s is None:
        return []
    leaf = s[1] is None and s[2] is None
    return [(0, 1, 2) if leaf and not top else (0, 1)] \
        + style_choices(s[1], False) + style_choices(s[2], False)


def parse_cases(n, labels):
    for i, s in enumerate(spec_shapes(n)):
        for st in itertools.product(*style_choices(s)):
            yield (n, i, st, labels)


def freeze(x):
    if type(x) is list:
        return ["L"] + [freeze(y) for y in x]
    if type(x) is tuple:
        return ["T"] + [freeze(y) for y in x]
    return (type(x).__name__, x)


def scribble(x):
    """Overwrite every list in a nesting."""
    if type(x) in (list, tuple):
        for y in x:
            scribble(y)
    if type(x) is list:
        x[:] = ["scribbled"]


LABELS = {"numbers": range(100), "letters": "abcdefghijkl",
          "falsy": (0, "", False, 0.0, -1, "0"),
          "same": ("x",) * 12,
          "odd": ("a b", "x\ny", -1.5, INF, "[", "None", "é"),
          "spaces": (" x ", "X", "\t", "x ", "1.0", " ", "()", "1,2")}


def run_parse(case):
    n, i, st, labels = case
    vals = list(itertools.islice(itertools.cycle(LABELS[labels]), n))
    s = sh.label(spec_shapes(n)[i], vals)
    spec = spell(s, st)
    before = freeze(spec)
    what = "BinaryTree.parse(%s)" % core.show(spec)
    want = renl(s)
    t = get(what, extra.BinaryTree.parse, spec)
    if type(t) is not extra.BinaryTree:
        fail("%s is a %s", what, type(t).__name__)
    eq(what + ": the given object afterwards", freeze(spec), before)
    got = read_back(t, n, what)
    if not core.same(got, want):
        fail("%s is %s", what, core.show(got))
    eq(what + ": preorder", get(what, t.preorder_traverse),
       sh.preorder(want))
    eq(what + ": inorder", get(what, t.inorder_traverse), sh.inorder(want))
    eq(what + ": levels", get(what, t.get_nodes_per_level),
       sh.levels(want))
    scribble(spec)
    eq(what + ": preorder after the given object changed",
       get(what, t.preorder_traverse), sh.preorder(want))
    eq(what + ": len()", get(what, len, t), n)
    return (case, n + 4)


def read_back(t, n, what):
    root = sh.root_of(t)
    if root is MISSING:
        raise core.HarnessError("no root to walk from")
    return sh.binary_shape(root, n, what)


def renl(s):
    if s is None:
        return None
    v = s[0].replace("\n", "\\n") if type(s[0]) is str else s[0]
    return (v, renl(s[1]), renl(s[2]))


# every nested object up to a size, legal or not
def nestings(size, depth):
    """All nestings of lists/tuples and atoms of exactly `size` tokens (an
    atom or an opening bracket costs one)."""
    if size == 1:
        for a in ATOMS:
            yield a
        yield []
        yield ()
        return
    if depth == 0:
        return
    for kids in bundles(size - 1, depth - 1):
        yield list(kids)
        yield tuple(kids)


def bundles(size, depth):
    if size == 0:
        yield ()
        return
    for k in range(1, size + 1):
        for first in nestings(k, depth):
            for rest in bundles(size - k, depth):
                yield (first,) + rest


ATOMS = (1, None, "X")
EXTRA = "X"


def verdict(x, top=True):
    """Shape, or the set of exception kinds one of which must be raised."""
    if type(x) not in (list, tuple):
        if top:
            return {TypeError}
        x = [x]
    if len(x) == 0 or len(x) >= 4:
        return {ValueError}
    v = x[0]
    bad = set()
    if v is None:
        bad.add(ValueError)
    elif v is EXTRA:
        bad.add(TypeError)
    elif type(v) is list or type(v) is tuple:
        raise Unjudged()
    kids = []
    for c in x[1:]:
        r = verdict(c, False)
        if type(r) is set:
            bad |= r
        kids.append(r)
    if bad:
        return bad
    return (v,) + tuple(kids) + (None,) * (2 - len(kids))


class Unjudged(Exception):
    pass


def nest_cases(size):
    for i, x in enumerate(nestings(size, 4)):
        yield (size, i, x)


def with_extra(x):
    if x is EXTRA:
        return extra.LinkedList([1])
    if type(x) in (list, tuple):
        return type(x)(with_extra(y) for y in x)
    return x


def run_nest(case):
    _s, _i, x = case
    try:
        want = verdict(x)
    except Unjudged:
        return (None, 0)
    obj = with_extra(x)
    what = "BinaryTree.parse(%s)" % core.show(x)
    o = call(extra.BinaryTree.parse, obj)
    if type(want) is set:
        expect(what, o, exc=tuple(want))
        return (what, 1)
    expect(what, o)
    got = read_back(o.value, 100, what)
    if not core.same(got, want):
        fail("%s is %s", what, core.show(got))
    return (what, 1)


# larger nestings
def large_shapes(n):
    """Shapes of n nodes in which no right child comes without a left one."""
    from . import large

    def lcomb(i):
        return None if i >= n else (i, lcomb(i + 2), (
            i + 1, None, None) if i + 1 < n else None)

    def fix(s):
        if s is None:
            return None
        a, b = fix(s[1]), fix(s[2])
        return (s[0], b, None) if a is None else (s[0], a, b)

    yield "complete", large.complete(n)
    yield "comb", fix(large.comb(n))
    yield "left comb", fix(lcomb(0))
    yield "path", large.path(n, lambda i: True)
    yield "mirrored", fix(sh.mirror(large.complete(n)))
    half = fix(large.complete(n // 2))
    if half:
        yield "handle", sh.label(attach(large.path(
            n - n // 2, lambda i: True), half), range(n))


def attach(s, below):
    """below, hung under the lowest node of a left path."""
    if s[1] is None:
        return (s[0], below, None)
    return (s[0], attach(s[1], below), s[2])


STYLES = ("lists", "tuples", "mixed", "thin", "rows")
LARGE = tuple(range(7, 18)) + (24, 31, 33)


def styled(s, style, depth=0):
    if s[1] is None and s[2] is None and depth and (
            style == "thin" or style == "mixed" and len(repr(s)) % 3 == 0):
        return s[0]
    parts = [s[0]] + [styled(c, style, depth + 1) for c in s[1:]
                      if c is not None]
    if style == "tuples" or (style == "rows" and depth % 2) or (
            style == "mixed" and len(repr(s)) % 2):
        return tuple(parts)
    return parts


def large_parse_cases(th):
    for n in LARGE + ((48, 65) if th else ()):
        for lab, _s in large_shapes(n):
            for style in STYLES:
                for values in ("distinct", "same", "falsy"):
                    yield (n, lab, style, values)


def run_large_parse(case):
    n, lab, style, values = case
    vals = {"distinct": list(range(n)), "same": ["x"] * n,
            "falsy": list(itertools.islice(
                itertools.cycle(LABELS["falsy"]), n))}[values]
    s = sh.label(dict(large_shapes(n))[lab], vals)
    spec = styled(s, style)
    before = freeze(spec)
    what = "BinaryTree.parse(%s)" % core.show(spec)
    t = get(what, extra.BinaryTree.parse, spec)
    eq(what + ": the given object afterwards", freeze(spec), before)
    scribble(spec)
    m = renl(s)
    for k in range(4):
        w = what if not k else "%s inverted %d times" % (what, k)
        got = read_back(t, n, w)
        if not core.same(got, m):
            fail("%s is %s", w, core.show(got))
        eq(w + ": preorder", get(w, t.preorder_traverse), sh.preorder(m))
        eq(w + ": inorder", get(w, t.inorder_traverse), sh.inorder(m))
        eq(w + ": levels", get(w, t.get_nodes_per_level), sh.levels(m))
        eq(w + ": len()", get(w, len, t), n)
        get(w + ": invert()", t.invert)
        m = sh.mirror(m)
    return (case, 4 * n)


FAULTS = {"none": (lambda x: [None] + list(x[1:]), ValueError),
          "four": (lambda x: [x[0], [91], [92], [93]], ValueError),
          "empty": (lambda x: [], ValueError),
          "extra": (lambda x: [extra.LinkedList([1])] + list(x[1:]),
                    TypeError),
          "empty tuple": (lambda x: (), ValueError)}
for _k in list(range(5, 13)) + [16, 40]:
    FAULTS["%d parts" % _k] = (
        lambda x, k=_k: [x[0]] + [[90 + i] for i in range(k - 1)], ValueError)
    FAULTS["%d plain parts" % _k] = (
        lambda x, k=_k: tuple([x[0]] + list(range(90, 89 + k))), ValueError)


def fault_cases(th):
    for n in (7, 10, 15, 24) + ((33,) if th else ()):
        for lab, _s in large_shapes(n):
            for at in range(n):
                for f in sorted(FAULTS):
                    if "parts" in f and n != 7:
                        continue
                    yield (n, lab, at, f)


def run_fault(case):
    """One malformed part anywhere in a large nesting is rejected."""
    n, lab, at, f = case
    spec = styled(dict(large_shapes(n))[lab], "lists")
    change, kind = FAULTS[f]

    def go(x):
        if x[0] == at:
            return change(x)
        return [x[0]] + [go(c) for c in x[1:]]

    bad = go(spec)
    what = "BinaryTree.parse(%s)" % core.show(bad)
    expect(what, call(extra.BinaryTree.parse, bad), exc=kind)
    t = get(what + " and then the correct one", extra.BinaryTree.parse, spec)
    eq(what + " and then the correct one: len()", get(what, len, t), n)
    return (case, 2)


BAD_ROOTS = (None, 1, "ab", {1: 2}, {1, 2}, 1.5, True, b"ab", range(3),
             "iter", "extra")


def run_bad_root(case):
    x = {"iter": iter([1, 2]), "extra": extra.LinkedList([1, 2])}.get(
        case[0] if type(case[0]) is str else None, case[0])
    expect("BinaryTree.parse(%r)" % (case[0],),
           call(extra.BinaryTree.parse, x), exc=TypeError)
    return (repr(case), 1)


def invert_cases(lo, hi, th):
    for n in range(lo, hi + 1):
        for i in range(len(sh.binary_shapes(n))):
            for how in ("distinct", "same", "falsy"):
                yield (n, i, how)


def run_invert(case):
    n, i, how = case
    lab = {"distinct": tuple(range(n)), "same": ("x",) * n,
           "falsy": tuple(FALSY[k % 5] for k in range(n))}[how]
    s = sh.label(sh.binary_shapes(n)[i], lab)
    t = statics.build_binary(s)
    what = "BinaryTree %s" % core.show(s)
    m = s
    for k in range(1, 5):
        expect("%s: invert() number %d" % (what, k), call(t.invert), None,
               warns=False)
        m = sh.mirror(m)
        w = "%s inverted %d times" % (what, k)
        got = read_back(t, n, w)
        if not core.same(got, m):
            fail("%s: is %s", w, core.show(got))
        eq(w + ": preorder", get(w, t.preorder_traverse), sh.preorder(m))
        eq(w + ": inorder", get(w, t.inorder_traverse), sh.inorder(m))
        if k <= 2:
            statics.check_binary(t, m, w)
    return (case, 4)


class InvertAdapter(BA):
    """A search tree, every operation of which may be followed by two
    inversions."""

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        root = sh.root_of(r)
        what = "%s holding %s" % (self.kind, core.show(m))
        if root is MISSING:
            return
        s = sh.binary_shape(root, len(m), what)
        get(what + ": invert()", r.invert)
        got = sh.binary_shape(sh.root_of(r), len(m), what + ": inverted")
        if got != sh.mirror(s):
            fail("%s: inverted it is %s, but was %s", what, core.show(got),
                 core.show(s))
        eq(what + ": inorder listing when inverted",
           get(what, r.inorder_traverse), m[::-1])
        eq(what + ": len() when inverted", get(what, len, r), len(m))
        get(what + ": invert()", r.invert)
        got = sh.binary_shape(sh.root_of(r), len(m), what)
        if got != s:
            fail("%s: inverted twice it is %s, but was %s", what,
                 core.show(got), core.show(s))
        BA.observe(self, w, probes)


@register("C20", ["a nesting cannot spell a right child without a left one",
                  "lists or tuples as node values are not judged in nestings "
                  "(the grammar is ambiguous there)",
                  "a malformed nesting with several faults may be rejected "
                  "with the documented kind of any one of them"])
def c20(th):
    t = []
    for n in range(1, 8 if th else 7):
        for lab in (("numbers",) if n > 4 else sorted(LABELS)):
            t.append(("parse: every spelling of %d nodes, %s" % (n, lab),
                      "sweep", lambda n=n, lab=lab: (
                          parse_cases(n, lab), run_parse), n))
    for n in range(1, 8 if th else 7):
        t.append(("parse: every nesting of %d tokens" % n, "sweep",
                  lambda n=n: (nest_cases(n), run_nest), n))
    t.append(("parse: not a list or tuple", "sweep", lambda: (
        [(x,) for x in BAD_ROOTS], run_bad_root)))
    t.append(("parse and invert: larger shapes", "sweep", lambda: (
        large_parse_cases(th), run_large_parse), 6))
    t.append(("parse: a malformed part in a larger nesting", "sweep",
              lambda: (fault_cases(th), run_fault), 6))
    for lo, hi in ((0, 6), (7, 7), (8, 8), (9, 9)) + (((10, 10),) if th else ()):
        t.append(("invert: every shape of %d..%d nodes" % (lo, hi), "sweep",
                  lambda lo=lo, hi=hi: (invert_cases(lo, hi, th),
                                        run_invert), hi))
    caps = dict(BST=7, AVL=10, RedBlackTree=9, SplayTree=7, Treap=5)
    for kind in trees.SEARCH_TREES:
        t.append(("%s: inverted twice in every reachable shape" % kind,
                  "explore", lambda k=kind: AdapterSystem(
                      k + " inverted", InvertAdapter(k, (), (1, 2, 3)),
                      (), (), caps[k] + (1 if th else 0)), 6))
    return t


# --------------------------------------------------------------------------
# C25
# --------------------------------------------------------------------------
# a directory model: (name, None) is a file, (name, [entries]) a directory
def dir_trees(n, names):
    """All directory contents with n entries in total; sibling names are
    distinct and taken from `names`."""
    if n == 0:
        yield ()
        return

    def go(n, start, used):
        if n == 0:
            yield ()
            return
        for i in range(start, len(names)):
            yield from ((e,) + rest
                        for k in range(1, n + 1)
                        for e in entry(names[i], k)
                        for rest in go(n - k, i + 1, used))

    def entry(name, k):
        if k == 1:
            yield (name, None)
        for sub in go(k - 1, 0, ()):
            yield (name, sub)

    yield from go(n, 0, ())


NAMESETS = {"plain": ("a", "b", "c"), "mixed": ("A", "a", ".h", "é"),
            "sorting": ("a10", "a2", "a b"), "odd": ("$", "x.py", "-f"),
            "digits": ("1", "10", "2"), "dots": ("a.", "..b", "...", ".a"),
            "blanks": (" a", "a ", "b\n", "\\"),
            # a suffix changes the order, and a directory may have one
            "suffixes": ("a", "a-b", "a.b", "a!.c", "b.d"),
            # nothing in a name is expanded, and no name is special
            "shell": ("~", "$HOME", "*", "${HOME}"),
            "windows": ("%TEMP%", "con", "C:", "a\\b"),
            "services": ("__pycache__", ".git", "x.pyc", ".DS_Store",
                         "x~", "tmp"),
            "long": ("x" * 255, "y" * 254, "\u00e9" * 100),
            "quotes": ("'", '"', "`ls`", "a\tb"),
            "scripts": ("\u00e9", "e\u0301", "z", "\u4e2d")}


def dir_cases(n, nameset):
    for k in range(n + 1):
        for m in dir_trees(k, NAMESETS[nameset]):
            yield (nameset, m)


def larger_dirs(th):
    names = ["n%d" % i for i in range(24)] + ["Z", ".x", "~", "_"]
    names = sorted(names, key=lambda x: x[::-1])
    for n in list(range(5, 17)) + [20, 28]:
        ns = names[:n]
        yield tuple((x, None) for x in ns)
        yield tuple((x, ()) for x in ns)
        # each of them in turn the only directory, or the only file
        for i in range(0, n, 1 if th or n < 8 else 3):
            yield tuple((x, ((x, None), ("k", ()), ("a", None))
                         if j == i else None) for j, x in enumerate(ns))
            yield tuple((x, None if j == i else (("f", None),))
                        for j, x in enumerate(ns))
    for n in list(range(4, 13)) + [20, 40]:
        for last in (None, ()):
            e = last
            for i in range(n):
                e = (("d%d" % (n - i), e),)
                if i % 3 == 2:
                    e += (("0", None),)
                elif i % 3 == 1:
                    e += (("z", ()),)
            yield e
    for n in (33, 65, 100, 129, 257) + ((513, 1025) if th else ()):
        ns = ["%x" % (i * 37 % 1031) for i in range(n)]
        yield tuple((x, None) for x in ns)
        yield (("d", tuple((x, () if i % 3 else None)
                           for i, x in enumerate(ns))), ("f", None))
    # names with a meaning elsewhere
    known = (".git", ".gitignore", ".svn", "CVS", "__pycache__", "x.pyc",
             "__init__.py", "node_modules", ".DS_Store", "Thumbs.db",
             "desktop.ini", "lost+found", "x~", "#x#", ".#x", "x.swp",
             "x.bak", "x.tmp", "core", "nul", "con", "tmp", "build", "dist",
             ".", "..")[:-2]
    yield tuple((x, None) for x in known)
    yield tuple((x, (("in", None),)) for x in known)


def link_cases():
    """Entries which are links or pipes: a link is what it points to, under
    its own name; one pointing nowhere, and a pipe, have no entries."""
    kinds = ("file", "empty", "dir", "bare", "to file", "to dir", "to bare",
             "to link", "dangling", "pipe", "socket", "locked")
    for n in (1, 2, 3):
        for ks in itertools.product(kinds, repeat=n) if n < 3 else \
                itertools.combinations(kinds, 3):
            yield ("links", ks)


def run_links(case):
    import socket
    ks = case[1]
    base = tempfile.mkdtemp(prefix="mc-c25-")
    try:
        for d in ("out", "out/full", "out/full/sub", "out/bare", "root"):
            os.mkdir(os.path.join(base, d))
        for f in ("out/file", "out/full/f", "out/full/sub/g"):
            with open(os.path.join(base, f), "w") as h:
                h.write("x")
        os.symlink("full", base + "/out/link")
        full = [("f", []), ("sub", [("g", [])])]
        kids = []
        for i, k in enumerate(ks):
            name = "cab"[i]
            p = os.path.join(base, "root", name)
            sub = []
            if k in ("file", "empty", "locked"):
                with open(p, "w") as h:
                    h.write("x" if k == "file" else "")
                if k == "locked":
                    os.chmod(p, 0)
            elif k in ("dir", "bare"):
                os.mkdir(p)
                if k == "dir":
                    with open(p + "/f", "w"):
                        pass
                    sub = [("f", [])]
            elif k == "pipe":
                try:
                    os.mkfifo(p)
                except OSError:
                    os.symlink("nowhere", p)
            elif k == "socket":
                s = socket.socket(socket.AF_UNIX)
                here = os.getcwd()
                os.chdir(base + "/root")
                try:
                    s.bind(name)
                except OSError:
                    os.symlink("nowhere", p)
                finally:
                    os.chdir(here)
                    s.close()
            else:
                os.symlink(os.path.join(base, {
                    "to file": "out/file", "to dir": "out/full",
                    "to bare": "out/bare", "to link": "out/link",
                    "dangling": "out/none"}[k]), p)
                if k in ("to dir", "to link"):
                    sub = full
            kids.append((name, sub))
        want = ("root", sorted(kids))
        os.symlink("root", base + "/alias")
        for p, w in ((base + "/root", want),
                     (base + "/alias", ("alias", want[1])),
                     (base + "/alias/", ("alias", want[1]))):
            what = "Tree.from_path(%r) with entries %s" % (p, list(ks))
            t = get(what, extra.Tree.from_path, p)
            statics.check_general(t, w, what)
    finally:
        shutil.rmtree(base)
    return (case, 3)


def make_dir(path, entries, order):
    os.mkdir(path)
    es = list(entries)
    if order == 1:
        es.reverse()
    elif order == 2:
        es = es[1:] + es[:1]
    for name, sub in es:
        p = os.path.join(path, name)
        if sub is None:
            with open(p, "w") as f:
                f.write(name)
        else:
            make_dir(p, sub, order)


def snapshot(path):
    out = []
    for d, ds, fs in os.walk(path):
        ds.sort()
        st = os.stat(d)
        out.append((d, st.st_mode, st.st_mtime_ns, tuple(ds),
                    tuple(sorted(fs))))
        for f in sorted(fs):
            p = os.path.join(d, f)
            st = os.stat(p)
            with open(p, "rb") as h:
                out.append((p, st.st_mode, st.st_mtime_ns, h.read()))
    return out


def dir_shape(name, entries):
    label = name.replace("\n", "\\n")     # as text items are kept (C28)
    if entries is None:
        return (label, [])
    return (label, [dir_shape(*e) for e in sorted(entries)])


def run_dir(case):
    _lab, entries = case
    base = tempfile.mkdtemp(prefix="mc-c25-")
    cwd = os.getcwd()
    steps = 0
    home = os.environ.get("HOME")
    os.environ["HOME"] = other = tempfile.mkdtemp(prefix="mc-c25-")
    try:
        for order in (0, 1, 2):
            if order and len(entries) < 2 and order > 0:
                continue
            top = os.path.join(base, "root%d" % order)
            make_dir(top, entries, order)
            before = snapshot(base)
            want = dir_shape("root%d" % order, entries)
            os.chdir(base)
            name = "root%d" % order
            spell = [top, name, top + "/", "./" + name, name + "/.",
                     base + "//" + name,
                     os.path.join("..", os.path.basename(base), name),
                     name + "/../" + name, name + "/.//", "./" + name + "/./",
                     top + "/../" + name]
            spell += [name + "/" + e[0] + "/.." for e in entries
                      if e[1] is not None]
            if order:
                spell = spell[:2]
            for p in spell:
                what = "Tree.from_path(%r) of %s" % (p, core.show(entries))
                t = get(what, extra.Tree.from_path, p)
                if type(t) is not extra.Tree:
                    fail("%s is a %s", what, type(t).__name__)
                statics.check_general(t, want, what, ("nope",))
                steps += 1
            # from the inside, and a file or sub-directory as the root
            os.chdir(top)
            t = get("from_path('.')", extra.Tree.from_path, ".")
            statics.check_general(t, want, "Tree.from_path('.') in %s"
                                  % core.show(entries))
            above = (os.path.basename(base),
                     [dir_shape("root%d" % o, entries)
                      for o in range(order + 1)])
            for p in ("..", "../", "../" + name + "/.."):
                t = get("from_path(%r)" % p, extra.Tree.from_path, p)
                statics.check_general(t, above, "Tree.from_path(%r) in a "
                                      "directory of %s" % (
                                          p, core.show(entries)))
                steps += 1
            for e in entries:
                for p in (e[0], os.path.join(top, e[0]), "./" + e[0],
                          "../" + name + "/" + e[0]):
                    t = get("from_path(%r)" % p, extra.Tree.from_path, p)
                    statics.check_general(t, dir_shape(*e),
                                          "Tree.from_path(%r)" % p)
                    steps += 1
            for p in ("nope", top + "/nope", "", e[0] + "x"
                      if entries else "x"):
                expect("Tree.from_path(%r)" % p,
                       call(extra.Tree.from_path, p), exc=ValueError)
            for p in (None, 1, 1.5, True, ["root0"], b"root0",
                      extra.LinkedList([1])):
                expect("Tree.from_path(%r)" % (p,),
                       call(extra.Tree.from_path, p), exc=TypeError)
            os.chdir(cwd)
            after = snapshot(base)
            if after != before:
                fail("Tree.from_path of %s changed the directory",
                     core.show(entries))
    finally:
        os.environ.pop("HOME")
        if home is not None:
            os.environ["HOME"] = home
        os.chdir(cwd)
        os.rmdir(other)
        shutil.rmtree(base)
    return (case, steps)


def run_dir_history(case):
    """The directory changes between two calls; each tree shows the state
    at its own call."""
    a, b = case
    base = tempfile.mkdtemp(prefix="mc-c25-")
    try:
        top = os.path.join(base, "root")
        make_dir(top, a, 0)
        t1 = get("from_path", extra.Tree.from_path, top)
        shutil.rmtree(top)
        statics.check_general(t1, dir_shape("root", a), "the first tree")
        make_dir(top, b, 0)
        t2 = get("from_path", extra.Tree.from_path, top)
        statics.check_general(t2, dir_shape("root", b), "the second tree")
        statics.check_general(t1, dir_shape("root", a),
                              "the first tree after the second call")
    finally:
        shutil.rmtree(base)
    return (case, 2)


@register("C25", ["circular links, unreadable directories and the file "
                  "system root are outside the bound"])
def c25(th):
    t = []
    n = {"plain": 5 if th else 4, "mixed": 5 if th else 4, "sorting": 3,
         "odd": 3, "digits": 3, "dots": 3, "blanks": 3,
         "suffixes": 3, "scripts": 3, "shell": 3, "windows": 3,
         "services": 2, "long": 2, "quotes": 3}
    for lab in sorted(NAMESETS):
        t.append(("every directory of <=%d entries, %s names" % (
            n[lab], lab), "sweep", lambda lab=lab: (
                dir_cases(n[lab], lab), run_dir), n[lab]))
    t.append(("larger directories", "sweep", lambda: (
        [("larger", m) for m in larger_dirs(th)], run_dir)))
    t.append(("links, pipes and other entries", "sweep", lambda: (
        link_cases(), run_links)))
    t.append(("two directories one after the other", "sweep", lambda: (
        [(a, b) for x in range(3) for a in dir_trees(x, ("a", "b"))
         for y in range(3) for b in dir_trees(y, ("a", "b"))],
        run_dir_history)))
    return t
