"""Every structure kind with a small closed system around it."""
from . import lists, shape as sh, statics, tries
from .props_trees import BA, HA

INF = float("inf")

LISTS = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")
CAPPED = ("Stack", "Queue", "Deque", "PriorityQueue")
SEARCH = ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap")
HEAPS = ("MinHeap", "MaxHeap")
TRIES = ("Trie", "RadixTrie")
STATIC = ("Tree", "BinaryTree", "SuffixTrie")
MUTABLE = LISTS + CAPPED + ("SkipList",) + SEARCH + HEAPS + TRIES
ALL = MUTABLE + STATIC

WORDS = ("a", "ab", "abc", "b")


def some_general(n=4):
    return [None] + [sh.glabel(g, range(1, k + 1)) for k in range(1, n + 1)
                     for g in sh.general_shapes(k)]


def some_binary(n=3):
    return [None] + [sh.label(s, range(1, k + 1)) for k in range(1, n + 1)
                     for s in sh.binary_shapes(k)]


def adapter(kind, **kw):
    if kind in LISTS:
        return lists.ListAdapter(kind)
    if kind == "Stack":
        return lists.StackAdapter()
    if kind == "Queue":
        return lists.QueueAdapter()
    if kind == "Deque":
        return lists.DequeAdapter()
    if kind == "PriorityQueue":
        return lists.PriorityQueueAdapter((1, 2))
    if kind == "SkipList":
        return lists.SkipListAdapter(((1,), (0, 1)))
    if kind in SEARCH:
        return BA(kind, kw.get("checks", ("set", "links")),
                  kw.get("prios", (1, 2)))
    if kind in HEAPS:
        return HA(kind)
    if kind in TRIES:
        return tries.TrieAdapter(kind, kw.get("words", WORDS))
    if kind == "Tree":
        return statics.TreeAdapter(some_general(kw.get("n", 4)))
    if kind == "BinaryTree":
        return statics.BinaryTreeAdapter(some_binary(kw.get("n", 3)))
    if kind == "SuffixTrie":
        return statics.SuffixTrieAdapter()
    raise KeyError(kind)


# (values of the alphabet, size cap, configurations)
SMALL = {
    "LinkedList": ((1, 2), 3, [()]),
    "DoublyLinkedList": ((1, 2), 3, [()]),
    "CircularLinkedList": ((1, 2), 3, [()]),
    "Stack": ((1, 2), 3, [(INF,), (2,), (0,)]),
    "Queue": ((1, 2), 3, [(INF,), (2,), (0,)]),
    "Deque": ((1, 2), 3, [(INF,), (2,), (0,)]),
    "PriorityQueue": ((1, 2), 3, [(INF,), (2,), (0,)]),
    "SkipList": ((1, 2, 3), 3, [()]),
    "BST": ((), 4, [()]), "AVL": ((), 5, [()]),
    "RedBlackTree": ((), 5, [()]), "SplayTree": ((), 4, [()]),
    "Treap": ((), 3, [()]),
    "MinHeap": ((), 4, [()]), "MaxHeap": ((), 4, [()]),
    "Trie": ((), 4, [()]), "RadixTrie": ((), 4, [()]),
}


def small(kind, bump=0):
    """(adapter, configurations, values, cap)"""
    ad = adapter(kind, n=(4 if kind == "Tree" else 3) + bump if bump else
                 (4 if kind == "Tree" else 3))
    if kind in STATIC:
        return ad, ad.configs(), (), 0
    vals, cap, cfgs = SMALL[kind]
    return ad, cfgs, vals, cap + bump
