"""Writes known_findings.json: the defects found in /repo and repaired."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [  # (commit, properties, what failed)
 ("3a802a8", ["C04"], "a list built from a list of the other kind shared its nodes: changing one changed the other"),
 ("83720a9", ["C04"], "extending a list by another one linked the other list's nodes in; later changes to one showed in the other, and extending by itself looped"),
 ("f017a0d", ["C01", "C02"], "slicing with a negative step raised or returned the wrong items"),
 ("489f497", ["C05"], "a longer list that dominates a shorter one element-wise was not greater than it (operands exchanged gave another answer)"),
 ("3025387", ["C21"], "rotate_right accepted a non-boolean inplace flag that rotate_left rejects"),
 ("2df1c1a", ["C21"], "assigning into an empty circular list, or assigning None, did not raise the documented errors"),
 ("fda8f12", ["C02", "C08", "C23", "C24"], "removing the first node of a doubly linked list shifted values instead of unlinking the node; priority queues then lost priorities"),
 ("cae457f", ["C08"], "a priority queue served an item that was not of extreme priority after a removal or an eviction (stale cached extremes)"),
 ("b173056", ["C09", "C28"], "a skip list confused a stored minus infinity with its level sentinel"),
 ("aa71a9d", ["C19"], "is_balanced() answered True for any tree whose root has one child"),
 ("9da179c", ["C19", "C23"], "membership test on an empty tree raised instead of answering False"),
 ("8a282d7", ["C11"], "AVL removal left a node unbalanced when the heavy child was even"),
 ("10babf3", ["C12"], "red-black removal left red-red pairs or unequal black counts"),
 ("6883ed8", ["C12", "C23"], "get_black_height() of an empty red-black tree raised"),
 ("9250672", ["C10", "C13"], "looking up a value in an empty splay tree, or a non-number, raised"),
 ("120a51b", ["C14"], "removing from a treap with negative priorities lost values"),
 ("00f1e36", ["C15"], "iterating over an empty heap raised"),
 ("e27e7d3", ["C22"], "to_list() of a heap returned the heap's own storage"),
 ("080603a", ["C15"], "removing an inner value broke the heap order (no sift up)"),
 ("18e4fd1", ["C16", "C17", "C18"], "following a path raised or went astray at a missing child for some characters"),
 ("75b8c92", ["C16", "C17", "C23"], "removing the last word of a trie raised or left nodes behind"),
 ("ea1e450", ["C16", "C21"], "removing a word that is not in a trie did not warn as documented"),
 ("c2b5f0d", ["C18"], "the empty suffix was not first in the suffix array"),
 ("9d968a8", ["C18"], "the longest repeated substring missed deeper repetitions"),
 ("55e7e81", ["C18"], "answers contained, or patterns could match, the internal end marker"),
 ("2b11de5", ["C18"], "the lowest common ancestor with the empty suffix raised or was wrong"),
 ("e619de4", ["C12"], "red-black insertion recoloured beyond a black node and broke the colour rules"),
 ("5978e9f", ["C10", "C13", "C27"], "removing a node with two children left nodes reachable through outdated links"),
]
out = []
for c, props, what in F:
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True, check=True).stdout.strip()
    for p in props:
        out.append({"status": "fixed", "property": p, "commit": full, "what": what,
                    "entry": "fixed: property=%s %s %s" % (p, c, what)})
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
