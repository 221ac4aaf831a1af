"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import props  # noqa: E402

NOTE = {
 "C01": "All operation histories of a singly linked list over two values up to the size cap, compared after every step with a Python list through every index, slice, split, rotation and count.",
 "C02": "As C01 for the doubly linked list, plus the backward walk link by link.",
 "C03": "As C01 for the ring, with wrapped indices and ring closure.",
 "C04": "Every deriving operation on every small source, then every bounded history on both sides of the pair.",
 "C05": "All pairs of lists over a small alphabet, all operators, including mixed-type equality.",
 "C06": "All push/pop/clear histories for each capacity.",
 "C07": "All histories of queue and deque for each capacity.",
 "C08": "All histories with all priority choices for each capacity, full and empty.",
 "C09": "All histories times all coin-flip outcomes (the random source is a choice point).",
 "C10": "All insert/remove histories up to order-isomorphism to the size cap, plus enumerated large families.",
 "C11": "As C10 with the balance invariant on every node.",
 "C12": "As C10 with the colour rules on every node.",
 "C13": "As C10 with textbook splaying as the reference transition.",
 "C14": "As C10 with priorities as a choice, canonical shape for distinct ones, seeds replayed.",
 "C15": "All histories over multisets up to order-isomorphism, bulk construction from every small sequence.",
 "C16": "All insert/remove histories over closed word families.",
 "C17": "As C16 with the compressed-path invariants.",
 "C18": "Every text over small alphabets up to a length with every pattern.",
 "C19": "Every general and binary shape up to a node bound, labels included.",
 "C20": "Every nested-list spelling up to a node bound, every malformed nesting up to a size, every shape inverted.",
 "C21": "Every invalid call in every state of a bounded state space, with normal operation continued after it.",
 "C22": "Every observer in every state as a transition of its own; all interleavings of two iterations.",
 "C23": "Bounded bisimulation between every emptied state and a fresh instance.",
 "C24": "The drawing of every reachable state decoded or rendered a second time and compared.",
 "C25": "Every directory tree up to a bound, built in a scratch directory.",
 "C26": "All interleavings of operations on two instances, every pair of kinds.",
 "C27": "As C10 with all parent, sibling, uncle and grand-parent relations of every node.",
 "C28": "Every structure times every pair of values of a typed domain through every storing operation.",
 "C29": "Every documented operation on every filling and size of every structure, its executed interpreter instructions counted exactly and compared with the price found at the smallest size.",
 "C30": "Every pool of three nodes of each public node class under every linking, re-labelling and rejected operation, all accessors compared with a dictionary model.",
}
checks = []
for p in props.all_props():
    checks.append({
        "property": p,
        "quick_cmd": "python3 -m mc.run %s quick" % p,
        "thorough_cmd": "python3 -m mc.run %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "explicit-state model checking: bounded exhaustive exploration of the real code against a reference model",
        "level": "model_checking",
        "level_note": NOTE[p] + " Holds for everything within the stated bounds (each task in the evidence says whether it was exhausted); assumes the values and sizes outside them behave alike and trusts the small Python reference model.",
    })
NA = []
json.dump({"version": 1, "setup_cmd": "python3 -c pass", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: the random source is intercepted in the checking process. Repaired defects: known_findings.json."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
