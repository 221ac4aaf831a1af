"""Properties of the tries (C16-C18)."""
import itertools

from . import core, tries
from .core import eq, get
from .props import register
from .systems import AdapterSystem
from .tries import TrieAdapter, words_over

SETS = {
    "all words of <=2 letters over ab": words_over("ab", 2),
    "chains": ("a", "ab", "abc", "abcd", "abd", "bcd"),
    "one letter": ("a", "aa", "aaa", "aaaa", "aaaaaa"),
    "forks": ("test", "team", "tea", "toast", "te", "slow"),
    "unusual characters": ("}", "}}", "a}", " a", "a b", "$"),
    "more unusual characters": ("é", "éa", "\u200dx", "😀", "😀😁", "A"),
    "letters of both cases": ("Ab", "ab", "AB", "aB", "A", "ÉB"),
    # equal only under a Unicode normal form or case folding
    "equivalent spellings": ("\u00e9", "e\u0301", "e", "\u00df", "ss"),
    "digits": ("1", "12", "01", "123", "-1", "1.0"),
    "long shared starts": ("abcde", "abcdf", "abcdeg", "abce", "abcd"),
    "control characters": ("a", "a\x00", "\x1fa", "a\r", "a\x00b", "\x00"),
    "kinds of blanks": ("a\u00a0", "\u3000a", "a\u2028", "\x0ba", "a",
                        "a\x85"),
    "runs of capitals and zeros": ("ABCD", "ABCE", "0012", "A0b", "12",
                                   "abcd"),
    "punctuation": ("a.c", "a*", "a\\", "%s", "abc", "\\"),
    "inner blanks": ("a ", "a  ", "a", " a", "a\tb"),
}


def trie_tasks(kind, th):
    t = []
    for label, ws in SETS.items():
        if not th and "unusual" in label:
            ws = ws[:3] + ws[4:]
        if not th and label in ("control characters", "kinds of blanks",
                                "runs of capitals and zeros", "punctuation"):
            ws = ws[:4]
        t.append(("%s: every state over %s" % (kind, label), "explore",
                  lambda ws=ws: AdapterSystem(
                      "%s %r" % (kind, ws), TrieAdapter(kind, ws, ("ROOT",)),
                      (), (), 0), 8))
    half = tuple(x for x in words_over("ab", 3)
                 if x[0] == "a" or x in ("b", "ba"))
    t.append(("%s: every state of <=3 of 9 words" % kind,
              "explore", lambda: AdapterSystem(
                  "%s 9" % kind, TrieAdapter(kind, half, (), 3),
                  (), (), 0), 9))
    if th:
        t.append(("%s: every state of <=3 of 14 words" % kind,
                  "explore", lambda: AdapterSystem(
                      "%s 14" % kind, TrieAdapter(
                          kind, words_over("ab", 3), (), 3),
                      (), (), 0), 9))
        t.append(("%s: every state of <=4 of 9 words" % kind,
                  "explore", lambda: AdapterSystem(
                      "%s 9/4" % kind, TrieAdapter(kind, half, (), 4),
                      (), (), 0), 9))
    t.append(("%s: every state of <=3 of 12 words over abc" % kind,
              "explore", lambda: AdapterSystem(
                  "%s 12" % kind, TrieAdapter(
                      kind, words_over("abc", 2), (), 3), (), (), 0), 9))
    t.append(("%s: every order of 3 of %d words, every removal order" % (
        kind, 20 if th else 14), "sweep", lambda: (order_cases(th), run_order(kind)), 8))
    t.append(("%s: every two of %d words" % (
        kind, len(two_pool(th))), "sweep", lambda: (
            two_cases(th), run_two(kind)), 8))
    t.append(("%s: many words" % kind, "sweep", lambda: (
        many_cases(th), run_many(kind)), 6))
    return t


POOL = ("abcde", "abcd", "abc", "ab", "a", "abcf", "abde", "acde", "bcde",
        "abxyz", "abcxyz", "abcdxyz", "x", "xy", "xyz", "xyab", "abab",
        "ababab", "ba", "bab")


def order_cases(th):
    pool = POOL if th else POOL[:14]
    for ws in itertools.permutations(pool, 3):
        for rm in itertools.permutations(range(3)):
            yield (ws, rm)


LONGEST = "abcdefghij"


def two_pool(th):
    """All short words, and every start of a long word alone and with each
    of two other letters after it."""
    return words_over("ab", 5 if th else 4) + tuple(
        w for k in range(1, 11) for w in (
            LONGEST[:k], LONGEST[:k] + "z", LONGEST[:k] + "yz"))


def two_cases(th):
    for ws in itertools.permutations(dict.fromkeys(two_pool(th)), 2):
        yield ws


def run_two(kind):
    def run(ws):
        a, b = ws
        ad = TrieAdapter(kind, ws + (a + b, a[:-1] or "q"))
        w = ad.new()
        for op in (("insert", a), ("insert", b), ("remove", a)):
            ad.do(w, op)
            ad.observe(w)
        return (ws, 3)
    return run


def run_order(kind):
    def run(case):
        ws, rm = case
        ad = TrieAdapter(kind, ws)
        w = ad.new()
        for x in ws:
            ad.do(w, ("insert", x))
        ad.observe(w)
        for i in rm[:2]:
            ad.do(w, ("remove", ws[i]))
            ad.observe(w)
        ad.do(w, ("insert", ws[rm[0]]))
        ad.observe(w)
        ad.do(w, ("remove", ws[rm[2]]))
        ad.do(w, ("remove", ws[rm[0]]))
        ad.observe(w)
        return (case, 8)
    return run


def many_cases(th):
    yield ("all3", words_over("ab", 4 if th else 3))
    yield ("abc2", words_over("abc", 3 if th else 2))
    yield ("pool", POOL)
    yield ("deep", tuple("a" * k + c for k in range(1, 30 if th else 12)
                         for c in ("", "b")))
    # words far longer than any fixed limit, forking anywhere
    for n in (33, 65, 130, 300):
        base = "abc" * (n // 3)
        yield ("long %d" % n, (base, base + "d", base[:n // 2],
                               base[:-2] + "xy", base[:n // 2] + "z" * 40))
    yield ("comb", tuple("abcdefghijklmnopqrstuvwxyz"[:k]
                         for k in range(1, 27)))
    yield ("wide", tuple(chr(97 + i) + chr(97 + j) for i in range(8)
                         for j in range(4)))


def run_many(kind):
    def run(case):
        _lab, ws = case
        steps = 0
        for order in (ws, ws[::-1], ws[::2] + ws[1::2],
                      tuple(sorted(ws, key=lambda x: x[::-1]))):
            for mode in TrieAdapter.drains:
                ad = TrieAdapter(kind, ws)
                w = ad.new()
                for i, x in enumerate(order):
                    ad.do(w, ("insert", x))
                    if i % 5 == 0:
                        ad.observe(w)
                ad.observe(w)
                k = 0
                while w.model:
                    m = w.model
                    x = {"first": m[0], "last": m[-1],
                         "short": min(m, key=len), "long": max(m, key=len),
                         "alt": m[0] if k % 2 else m[-1]}[mode]
                    ad.do(w, ("remove", x))
                    k += 1
                    if k % 4 == 0 or len(m) < 3:
                        ad.observe(w)
                steps += 2 * len(ws)
        return (case, steps)
    return run


@register("C16", ["removing the empty word is neither required nor forbidden "
                  "to warn; has_prefix of the empty text on an empty trie is "
                  "not judged"])
def c16(th):
    return trie_tasks("Trie", th)


@register("C17", ["removing the empty word is neither required nor forbidden "
                  "to warn; has_prefix of the empty text on an empty trie is "
                  "not judged"])
def c17(th):
    return trie_tasks("RadixTrie", th)


# --------------------------------------------------------------------------
def text_cases(alpha, n, least=1):
    for k in range(least, n + 1):
        for p in itertools.product(alpha, repeat=k):
            yield ("".join(p), alpha)


def run_text(case):
    text, alpha = case
    plain = text.replace("$", "")
    n = len(plain)
    if len(alpha) ** (n + 1) <= 3000:
        pats = list(words_over(alpha, n + 1, 0))
    else:
        pats = sorted({plain[i:j] for i in range(n + 1)
                       for j in range(i, n + 1)})
        pats += [p + c for p in pats for c in alpha]
        pats += [c + p for p in pats for c in alpha[:1]]
        pats = sorted(set(pats))
    pats += ["z", plain + "z", plain[-1:] + "$", "$", " ⟶ ", plain + "$ ⟶ 0",
             "0", "⟶", "$ ⟶ %d" % n, plain[-2:] + "$ ⟶"]
    return (case, tries.check_suffix_trie(text, pats))


@register("C18", ["dollar signs in a text are dropped by design; iteration "
                  "and to_list are documented to show the end marker and are not "
                  "counted among the answers"])
def c18(th):
    t = []
    for alpha, n in (("ab", 12 if th else 10), ("abc", 8 if th else 7),
                     ("a", 60 if th else 40), ("ab!", 6), ("a }", 6),
                     ("a0", 10 if th else 9), ("aé$", 6 if th else 5),
                     ("a\n", 8 if th else 7), ("01 ", 6),
                     ("abcd", 6 if th else 5), ("aAbB", 6 if th else 5),
                     ("Z_aé", 5), ("129", 6), ("\u00e9e\u0301", 6),
                     ("\u00dfs", 6), ("a ⟶", 6), ("0 ⟶$", 5),
                     ("a\r\t", 5), ("a\0\u00a0", 5), ("a\u200b\ufeff", 5),
                     ("Éée", 5), ("Iıiİ", 4), ("a'\"\\", 4),
                     ("a\U0001f600\uffff", 5), ("-_a", 5)):
        top = n if n < 7 or len(alpha) == 1 else n - 1
        t.append(("SuffixTrie: every text of <=%d characters over %r" % (
            top, alpha), "sweep", lambda alpha=alpha, top=top: (
                skip_blank(text_cases(alpha, top)), run_text), n))
        if top != n:
            for a in alpha:
                t.append(("SuffixTrie: every text of %d characters over %r "
                          "starting with %r" % (n, alpha, a), "sweep",
                          lambda alpha=alpha, n=n, a=a: (
                              (c for c in text_cases(alpha, n, n)
                               if c[0][0] == a), run_text), n))
    t.append(("SuffixTrie: longer texts", "sweep", lambda: (
        [(x, "ab") for x in LONG + LONG2], run_text), 5))
    for k in range(4):
        t.append(("SuffixTrie: long texts, part %d" % k, "sweep",
                  lambda k=k: (((x, "ab") for i, x in enumerate(
                      long_texts(th)) if i % 4 == k), run_text), 9))
    return t


def long_texts(th):
    for n in (64, 65, 99, 100, 101, 129, 200, 257) + ((300, 400) if th
                                                      else ()):
        yield "a" * n
        yield "a" * (n - 1) + "b"
        yield "b" + "a" * (n - 1)
        yield ("ab" * n)[:n]
    for n in (65, 101) + ((130,) if th else ()):
        yield "a" * (n // 2) + "b" + "a" * (n // 2)
        yield ("aab" * n)[:n]
        yield fib(9)[:n]
        yield "".join("ab"[bin(i).count("1") % 2] for i in range(n))
        yield "".join(chr(97 + i * 7 % 26) for i in range(n))
        yield "".join(chr(0x4e00 + i) for i in range(n))


def skip_blank(cases):
    for c in cases:
        if c[0].replace("$", ""):
            yield c


def fib(n):
    a, b = "a", "ab"
    for _ in range(n):
        a, b = b, b + a
    return b


LONG = ("banana", "mississippi", "minimize", "aabaacaadaabaaba",
        "abcabxabcd", fib(4), "abracadabra", "0123456789" * 2, "a" * 13 + "b",
        "b" + "a" * 13, "ab" * 9, "attcatattcat", "GATTACA" * 2,
        "to be or not to be", "x" * 12 + "y" + "x" * 12,
        "abcdefghijklmnopqrstuvwxyz", "zyxwvutsrqponmlkjihgfedcba")
LONG2 = ("a ⟶ b ⟶ a", "x$ ⟶ 0 ⟶ x", " ⟶ 1" * 3, fib(6), "abc" * 15, "a" * 60, "ab" * 25 + "c")
