"""Adapters for the tries."""
import itertools

from . import core, shape as sh
from .core import MISSING, call, eq, expect, extra, fail, get
from .lists import World, values_of


def words_over(alpha, n, least=1):
    return tuple("".join(p) for k in range(least, n + 1)
                 for p in itertools.product(alpha, repeat=k))


def ends_word(node, path, model):
    """The node's own mark; without one, what it should be."""
    mark = core.priv(node, "_is_word")
    return path in model if mark is MISSING else mark


class TrieAdapter:
    """Trie / RadixTrie; model: list of held words in insertion order."""

    def __init__(self, kind, words, probes=(), maxheld=None):
        self.kind = kind
        self.cls = getattr(extra, kind)
        self.words = tuple(words)
        self.maxheld = maxheld or len(words)
        pr = set(probes) | {""}
        for w in self.words:
            for i in range(len(w) + 1):
                pr.add(w[:i])
            pr.add(w + w[-1])
            pr.add(w + "z")
            pr.add(w[1:])
            pr.add(w[:-1] + "z")
        self.probes = sorted(pr, key=lambda x: (len(x), x))

    def configs(self):
        return [()]

    def new(self):
        return World(get("%s()" % self.kind, self.cls), [])

    def mutators(self, w, vals, cap):
        for x in self.words:
            if x not in w.model:
                if len(w.model) < self.maxheld:
                    yield ("insert", x)
            else:
                yield ("insert", x)
            yield ("remove", x)
        # prefixes and extensions that are not words
        for x in self.probes:
            if x and x not in self.words and x.strip():
                yield ("remove", x)
        yield ("clear",)

    def do(self, w, op):
        r, m = w.real, w.model
        what = "%s of %s: %s%r" % (self.kind, core.show(m), op[0], op[1:])
        if op[0] == "insert":
            expect(what, call(r.insert, op[1]), None, warns=False)
            if op[1] not in m:
                m.append(op[1])
                return "insert"
            return "insert-again"
        if op[0] == "remove":
            there = op[1] in m
            expect(what, call(r.remove, op[1]), None,
                   warns=not there)
            if there:
                m.remove(op[1])
                # the radix trie does not merge edges again
                w.aux = "removed" if m and self.kind == "RadixTrie" \
                    else None
            return "remove" if there else "remove-absent"
        if op[0] == "clear":
            expect(what, call(r.clear), None, warns=False)
            del m[:]
            w.aux = None
            return "clear"
        raise core.HarnessError(op)

    def contents(self, r, m, what):
        eq(what + ": is_empty()", get(what, r.is_empty), not m)
        got = get(what + ": auto_complete()", r.auto_complete)
        eq(what + ": auto_complete()", sorted(got), sorted(m))

    def observe(self, w, probes=()):
        r, m = w.real, w.model
        what = "%s of %s" % (self.kind, core.show(m))
        self.contents(r, m, what)
        for p in core.ALIENS[1:] + (1,):
            eq("%s: %r in it" % (what, p), get(what, r.__contains__, p),
               False)
        for p in self.probes:
            eq("%s: %r in it" % (what, p), get(what, r.__contains__, p),
               p in m)
            if p or m:
                eq("%s: has_prefix(%r)" % (what, p),
                   get(what, r.has_prefix, p),
                   any(x.startswith(p) for x in m))
            got = get("%s: auto_complete(%r)" % (what, p), r.auto_complete,
                      p)
            if type(got) is not list:
                fail("%s: auto_complete(%r) is a %s", what, p,
                     type(got).__name__)
            eq("%s: auto_complete(%r)" % (what, p), sorted(got),
               sorted(x for x in m if x.startswith(p)))
        if self.kind == "Trie":
            self.minimal(r, m, what)
        else:
            self.radix(r, m, what, w.aux is None)

    @staticmethod
    def prefixes(m):
        return {x[:i] for x in m for i in range(1, len(x) + 1)}

    def minimal(self, r, m, what):
        pre = self.prefixes(m)
        eq(what + ": len()", get(what, len, r), len(pre) + 1)
        h = max([len(p) for p in pre] or [0])
        eq(what + ": get_height()", get(what, r.get_height), h)
        inner = {p[:-1] for p in pre}
        eq(what + ": count_leaf_nodes()", get(what, r.count_leaf_nodes),
           len([p for p in pre if p not in inner]))
        rows = get(what, r.get_nodes_per_level)
        eq(what + ": get_nodes_per_level()", [sorted(x) for x in rows],
           [sorted(p[-1] for p in pre if len(p) == k)
            for k in range(1, h + 1)])
        it = values_of(r, len(pre), what)
        eq(what + ": iteration", [sorted(x) for x in cut(it, rows)],
           [sorted(x) for x in rows])
        root = sh.root_of(r)
        if root is MISSING or root is None:
            return
        got = {}

        def go(n, path):
            for c in n.get_children():
                d = c.get_data()
                if len(d) != 1 or path + d in got:
                    fail("%s: node %r below %r", what, d, path)
                got[path + d] = ends_word(c, path + d, m)
                go(c, path + d)

        go(root, "")
        eq(what + ": prefix tree (prefix: ends a word)",
           sorted(got.items()), sorted((p, p in m) for p in pre))

    def radix(self, r, m, what, compressed):
        pre = self.prefixes(m)
        root = sh.root_of(r)
        if root is MISSING or root is None:
            return
        count = [0]
        ends = []
        leaves = [0]
        height = [0]

        def go(n, path, depth):
            count[0] += 1
            height[0] = max(height[0], depth)
            kids = n.get_children()
            if depth:
                d = n.get_data()
                if d == "":
                    fail("%s: empty label below %r", what, path)
                path = path + d
                if path not in pre:
                    fail("%s: the path %r is not a prefix of a held word",
                         what, path)
                if ends_word(n, path, m):
                    ends.append(path)
                elif not kids:
                    fail("%s: the leaf %r does not end a word", what, path)
                elif len(kids) == 1 and compressed:
                    fail("%s: the inner node %r neither ends a word nor "
                         "branches though nothing was removed", what, path)
                if not kids:
                    leaves[0] += 1
            first = [c.get_data()[:1] for c in kids]
            if len(set(first)) != len(first):
                fail("%s: siblings below %r start alike: %s", what, path,
                     [c.get_data() for c in kids])
            for c in kids:
                if n.get_child(c.get_data()[:1]) is not c:
                    fail("%s: child %r of %r is filed under another "
                         "character", what, c.get_data(), path)
                go(c, path, depth + 1)

        go(root, "", 0)
        eq(what + ": word ends", sorted(ends), sorted(m))
        eq(what + ": len()", get(what, len, r), count[0])
        eq(what + ": get_height()", get(what, r.get_height), height[0])
        eq(what + ": count_leaf_nodes()", get(what, r.count_leaf_nodes),
           leaves[0])
        rows = get(what, r.get_nodes_per_level)
        eq(what + ": number of listed nodes", sum(map(len, rows)),
           count[0] - 1)
        eq(what + ": iteration", values_of(r, count[0], what),
           [x for row in rows for x in row])

    def drain(self, w, mode):
        i = 0
        while w.model:
            k = {"first": 0, "last": -1, "short": None, "long": None,
                 "alt": 0 if i % 2 else -1}[mode]
            x = (min if mode == "short" else max)(w.model, key=len) \
                if k is None else w.model[k]
            self.do(w, ("remove", x))
            self.observe(w)
            i += 1

    drains = ("first", "last", "short", "long", "alt")


def cut(items, rows):
    out, i = [], 0
    for r in rows:
        out.append(items[i:i + len(r)])
        i += len(r)
    if i != len(items):
        out.append(items[i:])
    return out


# --------------------------------------------------------------------------
def occurrences(text, p):
    return sum(1 for i in range(len(text) - len(p) + 1)
               if text[i:i + len(p)] == p)


def lcp(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return a[:i]


def check_suffix_trie(text, patterns, what=None, real=None):
    t = real if real is not None else get(
        "SuffixTrie(%r)" % text, extra.SuffixTrie, text)
    text = text.replace("$", "")
    what = "SuffixTrie(%r)" % text
    n = len(text)
    suffixes = [text[i:] for i in range(n + 1)]
    tr = 0
    for _ in range(2):
        eq(what + ".to_suffix_array()", get(what, t.to_suffix_array),
           sorted(range(n + 1), key=lambda i: suffixes[i]))
    eq(what + ".count_leaf_nodes()", get(what, t.count_leaf_nodes), n + 1)
    subs = {text[i:j] for i in range(n + 1) for j in range(i, n + 1)}
    best = ""
    reps = []
    for s in subs:
        c = occurrences(text, s) if s else n + 1
        if c > 1:
            if len(s) > len(best):
                best, reps = s, [s]
            elif len(s) == len(best):
                reps.append(s)
    for nm in ("get_longest_repeated_substring",
               "get_longest_common_substring"):
        got = get("%s.%s()" % (what, nm), getattr(t, nm))
        eq("%s.%s()" % (what, nm), sorted(got), sorted(reps))
    for i in range(n + 1):
        for j in range(n + 1):
            if i != j:
                w = "%s.get_lowest_common_ancestor(%d, %d)" % (what, i, j)
                eq(w, get(w, t.get_lowest_common_ancestor, i, j),
                   lcp(suffixes[i], suffixes[j]))
                tr += 1
    for p in patterns:
        w = "%s.has_substring(%r)" % (what, p)
        eq(w, get(w, t.has_substring, p), p in subs)
        w = "%s.count_pattern_occurrences(%r)" % (what, p)
        if p:
            eq(w, get(w, t.count_pattern_occurrences, p),
               occurrences(text, p) if p in subs else 0)
        tr += 2
    # internal branching nodes, leaves, root: the compressed suffix tree
    inner = {"": 0}
    for s in sorted(subs, key=len):
        if s:
            nxt = {text[i + len(s):i + len(s) + 1]
                   for i in range(n - len(s) + 1)
                   if text[i:i + len(s)] == s}
            if len(nxt) > 1:
                inner[s] = 0
    eq(what + ": len()", get(what, len, t), (n + 1) + len(inner))
    # its edge labels, level by level
    rows = {}
    for s in list(inner)[1:] + [x + "$" for x in suffixes]:
        up = max((s[:i] for i in range(len(s)) if s[:i] in inner), key=len)
        level = inner[up] + 1
        if s in inner:
            inner[s] = level
        rows.setdefault(level, []).append(s[len(up):])
    rows = [sorted(rows[k]) for k in sorted(rows)]
    for nm, got in (("iteration", values_of(t, n + len(inner), what)),
                    ("to_list()", get(what, t.to_list))):
        eq("%s: %s" % (what, nm), [sorted(x) for x in cut(got, rows)], rows)
    return tr + 8
