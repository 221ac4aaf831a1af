"""What a faithful drawing of each structure looks like.

List-like drawings are rendered a second time from the reference model; tree
drawings are decoded back into a shape and compared with the linked shape.
Trailing blanks of a line are never judged.
"""
from . import core, shape as sh
from .core import MISSING, call, eq, expect, extra, fail, get


def lines_of(text):
    return [ln.rstrip() for ln in text.split("\n")]


def drawing(obj, what):
    a = get(what + ": repr()", repr, obj)
    b = get(what + ": str()", str, obj)
    if type(a) is not str:
        fail("%s: repr() is a %s", what, type(a).__name__)
    eq(what + ": repr() against str()", a, b)
    return a


def compare(what, text, want):
    got = lines_of(text)
    want = [w.rstrip() for w in want]
    if got != want:
        fail("%s: the drawing is\n%s\n      but should be\n%s", what,
             "\n".join(got), "\n".join(want))


# ---- list-like -------------------------------------------------------------
def linked(items):
    if not items:
        return ["┌─", "│", "└─"]
    t = [str(x) for x in items]
    return ["".join("┌" + "─" * (len(x) + 2) + "┐ " for x in t),
            "".join("│ " + x + " │⟶" for x in t),
            "".join("└" + "─" * (len(x) + 2) + "┘ " for x in t)]


def doubly(items):
    if not items:
        return linked(items)
    t = [str(x) for x in items]
    return ["".join(" ┌" + "─" * (len(x) + 2) + "┐" for x in t),
            "".join("⟷│ " + x + " │" for x in t) + "⟷",
            "".join(" └" + "─" * (len(x) + 2) + "┘" for x in t)]


def circular(items):
    if not items:
        return linked(items)
    a, b, c = linked(items)
    off = (len(str(items[0])) + 4) // 2
    rest = len(b) - off
    return [a, b + " ┐", c + " │", " " * off + "↑" + " " * rest + "│",
            " " * off + "└" + "─" * rest + "┘"]


def stack(items):
    t = [str(x) for x in items]
    return ["┌" + "".join("─" * (len(x) + 2) + "┬" for x in t) + "─",
            "│" + "".join(" " + x + " │" for x in t),
            "└" + "".join("─" * (len(x) + 2) + "┴" for x in t) + "─"]


def queue(labels, ch):
    end = "─" if labels else ""
    return ["─┬" + "".join("─" * (len(x) + 2) + "┬" for x in labels) + end,
            ch + "│" + "".join(" " + x + " │" for x in labels)
            + (ch if labels else ""),
            "─┴" + "".join("─" * (len(x) + 2) + "┴" for x in labels) + end]


def num(x):
    return "-∞" if x == -INF else "∞" if x == INF else str(x)


INF = float("inf")


def skip(levels):
    """levels: bottom first, without sentinels."""
    cols = [None] + list(levels[0])
    lab = [num(-INF if c is None else c) for c in cols]
    top = len(levels) - 1

    def has(k, i):
        return k >= 0 and (i == 0 or cols[i] in levels[k])

    out = ["".join(("┌" + "─" * (len(x) + 2) + "┐ ") if has(top, i)
                   else " " * (len(x) + 5) for i, x in enumerate(lab))]
    for k in range(top, -1, -1):
        mid, bot = "", ""
        for i, x in enumerate(lab):
            w = len(x) + 2
            if has(k, i):
                mid += "| " + x + " │⟶"
                bot += ("├" + "─" * w + "┤ ") if k else (
                    "└" + "─" * w + "┘ ")
            else:
                mid += "⟶" * (w + 3)
                bot += ("┌" + "─" * w + "┐ ") if has(k - 1, i) \
                    else " " * (w + 3)
        out += [mid, bot]
    return out


def check_list(ad, w, what):
    k = ad.kind
    text = drawing(w.real, what)
    m = w.model
    if k == "LinkedList":
        want = linked(m)
    elif k == "DoublyLinkedList":
        want = doubly(m)
    elif k == "CircularLinkedList":
        want = circular(m)
    elif k == "Stack":
        want = stack(m)
    elif k == "Queue":
        want = queue([str(x) for x in m[::-1]], "⟶")
    elif k == "Deque":
        want = queue([str(x) for x in m], "⟷")
    elif k == "PriorityQueue":
        show = extra.PriorityQueue.SHOW_PRIORITY
        want = queue([str(x) + ("|P:%s" % p if show else "")
                      for x, p in m[::-1]], "⟶")
    elif k == "SkipList":
        lv = core.priv(w.real, "_level_lists")
        if lv is MISSING:
            return
        want = skip([list(x)[1:] for x in lv])
    else:
        raise core.HarnessError(k)
    compare(what, text, want)


# ---- trees -----------------------------------------------------------------
def general(node, label):
    """Reference rendering of a general tree."""
    out = []

    def go(n, bars, mark):
        kids = list(n.get_children())
        if mark is None:
            out.append(label(n))
        else:
            out.append("".join("  " if last else "│ " for last in bars[:-1])
                       + mark + ("┬ " if kids else "─ ") + label(n))
        for i, c in enumerate(kids):
            last = i == len(kids) - 1
            go(c, bars + [last], "└─" if last else "├─")

    go(node, [], None)
    return out


def check_general(tree, what, label, limit=10000):
    text = drawing(tree, what)
    root = sh.root_of(tree)
    if root is MISSING:
        return
    if root is None:
        compare(what, text, ["--"])
        return
    sh.general_shape(root, limit, what)
    if label is marked and core.priv(root, "_is_word") is MISSING:
        text = text.replace(" ✓", "")
    compare(what, text, general(root, label))


def tokens(line):
    out, i = [], 0
    while i < len(line):
        if line[i] == " ":
            i += 1
            continue
        s = i
        while i < len(line) and line[i] != " ":
            i += 1
        e = i - 1
        a, b = s, e
        while a < e and line[a] == "_":
            a += 1
        while b > a and line[b] == "_":
            b -= 1
        out.append((s, a, b, e, line[a:b + 1]))
    return out


def decode_binary(text, what):
    """Drawing -> (label, left, right); labels hold no blanks, underscores
    or slashes."""
    lines = lines_of(text)

    def bad(msg, *a):
        fail("%s: " % what + msg + " in the drawing\n%s",
             *(a + ("\n".join(lines),)))

    if len(lines) % 2 == 0:
        bad("a line is missing")
    used = set()

    def node(k, tok):
        used.add((k, tok[0]))
        s, a, b, e, lab = tok
        br = lines[k + 1] if k + 1 < len(lines) else ""
        kids = []
        for sign, col, to in (("/", s - 1, s - 2), ("\\", e + 1, e + 2)):
            if not (0 <= col < len(br) and br[col] == sign):
                kids.append(None)
                continue
            used.add((k + 1, col))
            hit = [t for t in tokens(lines[k + 2]) if t[1] <= to <= t[2]] \
                if k + 2 < len(lines) else []
            if len(hit) != 1:
                bad("the branch at line %d column %d leads nowhere", k + 1,
                    col)
            if (k + 2, hit[0][0]) in used:
                bad("two branches lead to %s", hit[0][4])
            kids.append(node(k + 2, hit[0]))
        return (lab, kids[0], kids[1])

    first = tokens(lines[0])
    if len(first) != 1:
        bad("there is not exactly one root")
    s = node(0, first[0])
    for k, ln in enumerate(lines):
        if k % 2 == 0:
            for t in tokens(ln):
                if (k, t[0]) not in used:
                    bad("%s hangs nowhere", t[4])
        else:
            for i, ch in enumerate(ln):
                if ch != " " and (k, i) not in used:
                    bad("a stray %r at line %d", ch, k)
    return s


def labelled(node, label):
    if node is None:
        return None
    return (label(node), labelled(node.get_left(), label),
            labelled(node.get_right(), label))


def check_binary(tree, what, label, limit=10000):
    text = drawing(tree, what)
    root = sh.root_of(tree)
    if root is MISSING:
        return
    if root is None:
        compare(what, text, ["/ \\"])
        return
    sh.binary_shape(root, limit, what)
    want = labelled(root, label)
    got = decode_binary(text, what)
    if got != want:
        fail("%s: the drawing\n%s\n      reads as %s, but the tree is %s",
             what, text, core.show(got), core.show(want))


def heap_shape(a, i=0):
    if i >= len(a):
        return None
    return (str(a[i]), heap_shape(a, 2 * i + 1), heap_shape(a, 2 * i + 2))


def check_heap(h, what):
    text = drawing(h, what)
    a = get(what + ": to_list()", h.to_list)
    if not a:
        compare(what, text, ["/ \\"])
        return
    got = decode_binary(text, what)
    if got != heap_shape(a):
        fail("%s: the drawing\n%s\n      reads as %s, but the array is %s",
             what, text, core.show(got), a)


def plain(n):
    return str(n.get_data())


def coloured(n):
    from .trees import color_name
    return "%s|%s" % (n.get_data(), color_name(n)[0])


def prioritised(n):
    return "%s|P:%s" % (n.get_data(), n.get_priority())


def marked(n):
    mark = core.priv(n, "_is_word")
    return n.get_data() + (" ✓" if mark is not MISSING and mark else "")


def check(ad, w, what=None):
    """The drawing of the structure held by an adapter's world."""
    k = ad.kind
    what = what or "%s holding %s" % (k, core.show(w.model))
    if k in ("BST", "AVL", "SplayTree", "BinaryTree"):
        check_binary(w.real, what, plain)
    elif k == "RedBlackTree":
        check_binary(w.real, what, coloured)
    elif k == "Treap":
        check_binary(w.real, what, prioritised
                     if extra.Treap.SHOW_PRIORITY else plain)
    elif k in ("MinHeap", "MaxHeap"):
        check_heap(w.real, what)
    elif k in ("Trie", "RadixTrie"):
        if w.model:
            check_general(w.real, what, marked)
        else:
            compare(what, drawing(w.real, what), ["--"])
    elif k == "Tree":
        check_general(w.real, what, plain)
    elif k == "SuffixTrie":
        text = drawing(w.real, what)
        rt = core.priv(w.real, "_rt")
        root = core.priv(rt, "_root")
        if root is not MISSING and root is not None:
            if core.priv(root, "_is_word") is MISSING:
                text = text.replace(" ✓", "")
            compare(what, text, general(root, marked))
            paths = []

            def go(n, p):
                kids = n.get_children()
                if not kids:
                    paths.append(p)
                for c in kids:
                    go(c, p + c.get_data())
            go(root, "")
            t = w.model
            eq(what + ": drawn suffixes", sorted(paths), sorted(
                t[i:] + "$ ⟶ %d" % i for i in range(len(t) + 1)))
    else:
        check_list(ad, w, what)
