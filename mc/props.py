"""Which closed systems decide which property, at which bounds."""
import importlib

_MODULES = ("props_lists", "props_trees", "props_tries", "props_shapes",
            "props_errors", "props_draw",
            "props_cross", "props_values", "props_nodes", "props_cost")
_REG = {}
_ASSUME = {}

COMMON = [
    "values outside the stated alphabets and sizes outside the stated bounds "
    "are not explored (NaN is outside the domain)",
    "single-threaded use: the library makes no promise about concurrent "
    "callers",
]


def register(prop, assumptions=()):
    def deco(fn):
        _REG[prop] = fn
        _ASSUME[prop] = list(assumptions)
        return fn
    return deco


def _load():
    if not _REG:
        for m in _MODULES:
            importlib.import_module("mc." + m)


# Properties of one structure: its reading operations are steps, too.
_SEARCH = ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap")
READS = {
    "C01": ("LinkedList",), "C02": ("DoublyLinkedList",),
    "C03": ("CircularLinkedList",),
    "C04": ("LinkedList", "DoublyLinkedList", "CircularLinkedList"),
    "C05": ("LinkedList", "DoublyLinkedList", "CircularLinkedList"),
    "C06": ("Stack",), "C07": ("Queue", "Deque"), "C08": ("PriorityQueue",),
    "C09": ("SkipList",), "C10": _SEARCH, "C11": ("AVL",),
    "C12": ("RedBlackTree",), "C13": ("SplayTree",), "C14": ("Treap",),
    "C15": ("MinHeap", "MaxHeap"), "C16": ("Trie",), "C17": ("RadixTrie",),
    "C18": ("SuffixTrie",),
    "C19": ("Tree", "BinaryTree", "Trie", "RadixTrie") + _SEARCH,
}
# ... and its long histories.
LONG = {p: k for p, k in READS.items() if p not in ("C04", "C05", "C18",
                                                     "C19")}
LONG["C27"] = _SEARCH
# what is checked of a search tree, per property
CHECKS = {"C11": ("avl",), "C12": ("rb",), "C13": ("splay",),
          "C14": ("treap",), "C19": ("measure",), "C27": ("links",)}


def tasks(prop, tier):
    _load()
    out = list(_REG[prop](tier == "thorough"))
    if prop in LONG:
        from . import longrun
        out += longrun.tasks(LONG[prop], tier == "thorough",
                             CHECKS.get(prop))
    if prop in READS:
        from . import reads
        for kind in READS[prop]:
            out += reads.tasks((kind,), 0, "with reads as steps", weight=1,
                               checks=CHECKS.get(prop))
    return out


def assumptions(prop):
    _load()
    return COMMON + _ASSUME[prop]


def weight(task):
    return task[3] if len(task) > 3 else 0


def all_props():
    _load()
    return sorted(_REG)
