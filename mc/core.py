"""Explicit-state model checking of the real `extra` package.

A *state* is the abstract value reached by one operation history.  Every
transition is executed on the real code: the history is replayed on fresh
objects (nothing is deep-copied, so aliasing survives), one more operation is
executed on the implementation and on a plain-Python reference model, both
outcomes are compared, and the complete observation of the resulting object is
compared with the model.  States are deduplicated by the complete object graph
of the implementation objects (all attributes, aliasing, class-level data),
optionally relabelled by the rank of the keys, so merged states have the same
futures.
"""
import collections
import enum
import hashlib
import os
import random
import signal
import sys
import time
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

# --------------------------------------------------------------------------
# Nondeterminism: every random draw of the code under test is answered by the
# explorer.  `TAPE` holds the answers; past its end answers alternate, so that
# any coin-driven loop terminates whatever side means "stop".
# --------------------------------------------------------------------------


class Tape:
    def __init__(self):
        self.mode = "tape"
        self.reset(())

    def reset(self, answers=()):
        self.answers = tuple(answers)
        self.pos = 0
        self.draws = 0

    def next(self):
        self.draws += 1
        if self.pos < len(self.answers):
            v = self.answers[self.pos]
            self.pos += 1
            return v
        self.pos += 1
        # never the same answer for ever, however many draws make one choice
        return bin(self.pos).count("1") & 1


TAPE = Tape()
_orig_randbelow = random.Random._randbelow
_orig_random = random.random
_orig_getrandbits = random.getrandbits


def _randbelow(self, n):
    if TAPE.mode == "tape":
        return TAPE.next() % n if n else 0
    return _orig_randbelow(self, n)


def _rand_random(*_a):
    if TAPE.mode == "tape":
        return 0.25 if TAPE.next() % 2 == 0 else 0.75
    return _orig_random()


def _rand_getrandbits(k):
    if TAPE.mode == "tape":
        return TAPE.next() % (1 << k) if k else 0
    return _orig_getrandbits(k)


random.Random._randbelow = _randbelow
random.random = _rand_random
random.getrandbits = _rand_getrandbits

# --------------------------------------------------------------------------
# import the package under test from the working tree
# --------------------------------------------------------------------------
sys.dont_write_bytecode = True
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
import extra  # noqa: E402

if not os.path.realpath(extra.__file__).startswith(
    os.path.realpath(REPO) + os.sep
):
    raise SystemExit("the package under test is not the one in " + REPO)


def _load_all():
    import importlib
    import pkgutil

    for m in pkgutil.walk_packages(extra.__path__, "extra."):
        importlib.import_module(m.name)


_load_all()


# --------------------------------------------------------------------------
# errors
# --------------------------------------------------------------------------
class Violation(Exception):
    """The property is broken by the history explored so far."""


class Hang(BaseException):
    """The code under test used more CPU time than any terminating run."""


class Prune(Exception):
    """This execution breaks something else than the property looked at:
    it is left to the check of that property."""


class HarnessError(Exception):
    """The harness cannot judge: reported as an error, never as a violation."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def _on_alarm(_sig, _frm):
    raise Hang()


HANG_S = float(os.environ.get("VERIF_HANG_S", "10"))


def arm(times=1):
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_S * times)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def setup_process():
    signal.signal(signal.SIGVTALRM, _on_alarm)
    try:
        import resource

        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:  # pragma: no cover
        pass
    # helpers in between must not matter
    sys.setrecursionlimit(8000)
    warnings.simplefilter("always")
    warnings.showwarning = _showwarning


WARNED = []


def _showwarning(message, category, *_a, **_k):
    WARNED.append(category)


# --------------------------------------------------------------------------
# outcome of one call on the real code
# --------------------------------------------------------------------------
Outcome = collections.namedtuple("Outcome", "exc value warns msg")


def call(fn, *a, **k):
    """Run one real operation; never lets an exception escape (but Hang)."""
    del WARNED[:]
    try:
        v = fn(*a, **k)
    except (Violation, Prune):
        raise
    except Exception as e:  # noqa: BLE001
        return Outcome(type(e), None, tuple(WARNED), "%s: %s" % (
            type(e).__name__, str(e)[:200]))
    return Outcome(None, v, tuple(WARNED), "")


class _Any:
    def __repr__(self):
        return "ANY"


ANY = _Any()


def same(a, b):
    """Equal value and equal type, recursively through plain containers."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def expect(what, out, value=ANY, exc=None, warns=None):
    """Compare an outcome with what the reference model says.

    exc: expected exception class (subclasses allowed) or None.
    warns: True = a UserWarning is required, False = no warning allowed,
           None = do not care.
    """
    if exc is not None:
        if out.exc is None:
            fail("%s: expected %s, but it returned %s", what, _en(exc),
                 show(out.value))
        if not issubclass(out.exc, exc):
            fail("%s: expected %s, but got %s", what, _en(exc), out.msg)
        return None
    if out.exc is not None:
        fail("%s: unexpected %s", what, out.msg)
    if warns is True and not any(issubclass(w, UserWarning)
                                 for w in out.warns):
        fail("%s: expected a UserWarning, got none", what)
    if warns is False and out.warns:
        fail("%s: unexpected warning %s", what, out.warns[0].__name__)
    if value is not ANY and not same(out.value, value):
        fail("%s: expected %s, got %s", what, show(value), show(out.value))
    return out.value


def _en(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


def show(v):
    try:
        if isinstance(v, extra_base()):
            return "<%s>" % type(v).__name__
        r = repr(v)
    except Exception as e:  # noqa: BLE001
        r = "<unprintable %s: %s>" % (type(v).__name__, e)
    return r if len(r) < 300 else r[:300] + "..."


_EB = None


def extra_base():
    global _EB
    if _EB is None:
        _EB = extra.Stack.__mro__[-2]
    return _EB


# numbers that differ, but only just: rounding, truncation, conversion to
# float or a tolerance would merge them
CLOSE = (10 ** 17, 10 ** 17 + 1, 0.3, 0.1 + 0.2)
CLOSE2 = (1 + 2 ** -52, 1, -2 ** 70 - 1, -2 ** 70, 5e-324, 0)
# whole numbers spelled as floats, beyond every integer width
TINY = tuple(i * 1e-13 for i in range(7))
HUGE = tuple(10 ** 17 + i for i in range(7))
CLOSE3 = (2 ** 63 + 1, 2.0 ** 53, -1e16, 1e300, -0.0)

# values of a type no container in the case can hold; membership is False
ALIENS = ("hello", (1, 2), b"x", 3 + 1j)

MISSING = object()


def priv(obj, name):
    """An internal attribute, or MISSING if the code does not have it (any
    more): link-level checks are then skipped, observable ones are not."""
    if obj is MISSING:
        return MISSING
    return getattr(obj, name, MISSING)


def get(what, fn, *a, **k):
    """A call that must succeed without warning; returns its value."""
    return expect(what, call(fn, *a, **k), warns=False)


def eq(what, got, want):
    if not same(got, want):
        fail("%s: expected %s, got %s", what, show(want), show(got))


def eqv(what, got, want):
    """Equality by value only."""
    if got != want:
        fail("%s: expected %s, got %s", what, show(want), show(got))


# --------------------------------------------------------------------------
# class-level / module-level mutable data of the package: captured at start,
# restored before every execution (so executions are independent) and part of
# the canonical state.
# --------------------------------------------------------------------------
_MUT = (list, dict, set, collections.deque, bytearray)


_IGN = {"__warningregistry__", "__annotations__", "__doc__",
        "__abstractmethods__", "_abc_impl", "__parameters__"}


class _Globals:
    def __init__(self):
        self.containers = []  # (label, object, saved copy)
        self.scalars = []     # (owner, name, value)
        self.caches = []
        seen = set()

        def visit(label, obj):
            if isinstance(obj, _MUT) and id(obj) not in seen:
                seen.add(id(obj))
                self.containers.append((label, obj, _snap(obj)))

        def visit_fn(label, f):
            f = getattr(f, "__func__", f)
            f = getattr(f, "fget", f) or f
            if hasattr(f, "cache_clear"):
                self.caches.append((label, f))
            for n, d in sorted((getattr(f, "__dict__", None) or {}).items()):
                if n != "__wrapped__":
                    visit("%s.%s" % (label, n), d)
            for i, d in enumerate(getattr(f, "__defaults__", None) or ()):
                visit("%s.default%d" % (label, i), d)
            for n, d in (getattr(f, "__kwdefaults__", None) or {}).items():
                visit("%s.%s" % (label, n), d)
            for c in getattr(f, "__closure__", None) or ():
                try:
                    visit(label + ".closure", c.cell_contents)
                except ValueError:
                    pass

        for mn, m in sorted(sys.modules.items()):
            if m is None or not (mn == "extra" or mn.startswith("extra.")):
                continue
            for n, o in sorted(vars(m).items()):
                if n.startswith("__"):
                    continue
                lab = mn + "." + n
                if isinstance(o, type) and o.__module__ == mn:
                    for cn, co in sorted(vars(o).items()):
                        clab = lab + "." + cn
                        if cn.startswith("__") and cn not in (
                                "__init__", "__iter__", "__getitem__"):
                            if callable(co):
                                visit_fn(clab, co)
                            continue
                        if isinstance(co, _MUT):
                            visit(clab, co)
                        elif callable(co) or isinstance(
                                co, (staticmethod, classmethod, property)):
                            visit_fn(clab, co)
                        elif isinstance(co, (int, float, str, bool,
                                             type(None), tuple)):
                            self.scalars.append((o, cn, co))
                elif isinstance(o, types.FunctionType):
                    visit_fn(lab, o)
                elif isinstance(o, _MUT):
                    visit(lab, o)
                elif isinstance(o, (int, float, str, bool, type(None),
                                    tuple)):
                    self.scalars.append((m, n, o))
        # names present at start per class, to drop ones added at run time
        self.names = []
        for mn, m in sorted(sys.modules.items()):
            if m is None or not (mn == "extra" or mn.startswith("extra.")):
                continue
            self.names.append((m, set(vars(m)) | _IGN))
            for n, o in sorted(vars(m).items()):
                if isinstance(o, type) and o.__module__ == mn:
                    self.names.append((o, set(vars(o)) | _IGN))

    def restore(self):
        for _l, o, s in self.containers:
            if o != s:
                _put(o, s)
        for owner, n, v in self.scalars:
            if getattr(owner, n, ANY) is not v:
                setattr(owner, n, v)
        for owner, names in self.names:
            if not names.issuperset(vars(owner)):
                for n in list(vars(owner)):
                    if n not in names:
                        delattr(owner, n)
        for _l, f in self.caches:
            f.cache_clear()

    def dirty(self):
        """Class/module-level data that differs from its initial value."""
        out = []
        for label, o, s in self.containers:
            if o != s:
                out.append((label, o))
        for owner, n, v in self.scalars:
            cur = getattr(owner, n, None)
            if cur is not v and cur != v:
                out.append((owner.__name__ + "." + n, cur))
        for owner, names in self.names:
            if not names.issuperset(vars(owner)):
                for n in sorted(set(vars(owner)) - names):
                    out.append((owner.__name__ + "." + n, vars(owner)[n]))
        for label, f in self.caches:
            n = f.cache_info().currsize if hasattr(f, "cache_info") else 0
            if n:
                out.append((label, n))
        return out


def _snap(o):
    return o.copy() if hasattr(o, "copy") else list(o)


def _put(o, s):
    if isinstance(o, dict):
        o.clear()
        o.update(s)
    elif isinstance(o, set):
        o.clear()
        o.update(s)
    elif isinstance(o, collections.deque):
        o.clear()
        o.extend(s)
    else:
        o[:] = s


GLOBALS = _Globals()


def fresh_world(tape=()):
    GLOBALS.restore()
    TAPE.mode = "tape"
    TAPE.reset(tape)


# --------------------------------------------------------------------------
# canonical form of an object graph
# --------------------------------------------------------------------------
_ATOM = (str, bytes, bool, type(None), complex)


def canon(roots, rank=None):
    """Canonical, hashable form of everything reachable from `roots`.

    rank: optional dict mapping key values to labels (order-isomorphism).
    """
    out = []
    num = {}
    stack = list(reversed(roots))
    add = out.append
    while stack:
        o = stack.pop()
        t = type(o)
        if t is float or t is int:
            if rank is not None and o in rank and t is float:
                add(("k", rank[o]))
            else:
                add((t.__name__[0], o if o == o and o else repr(o)))
            continue
        if t is str or o is None or t is bool or t in _ATOM:
            add((t.__name__[0], o))
            continue
        if isinstance(o, enum.Enum):
            add(("E", o.name))
            continue
        if isinstance(o, type):
            add(("T", o.__module__, o.__qualname__))
            continue
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
            add(("F", o.__name__))
            continue
        i = num.get(id(o))
        if i is not None:
            add(("#", i))
            continue
        num[id(o)] = len(num)
        add(t.__name__)
        if t is list or t is tuple or t is collections.deque:
            add(len(o))
            stack.extend(reversed(list(o)))
        elif isinstance(o, dict):
            add(len(o))
            for k, v in reversed(list(o.items())):
                stack.append(v)
                stack.append(k)
        elif isinstance(o, (set, frozenset)):
            items = sorted(o, key=repr)
            add(len(items))
            stack.extend(reversed(items))
        elif isinstance(o, types.MethodType):
            add(o.__func__.__qualname__)
            stack.append(o.__self__)
        else:
            d = getattr(o, "__dict__", None)
            if isinstance(o, (list, tuple)):
                stack.extend(reversed(list(o)))
            items = []
            if d:
                items.extend(d.items())
            for c in t.__mro__:
                sl = c.__dict__.get("__slots__", ())
                if isinstance(sl, str):
                    sl = (sl,)
                for n in sl:
                    if n.startswith("__") and not n.endswith("__"):
                        n = "_" + c.__name__.lstrip("_") + n
                    if n in ("__dict__", "__weakref__"):
                        continue
                    if hasattr(o, n):
                        items.append((n, getattr(o, n)))
            items.sort(key=lambda kv: kv[0])
            add(len(items))
            for n, v in reversed(items):
                stack.append(v)
                stack.append(n)
    dirty = GLOBALS.dirty()
    if dirty:
        add(("G", repr([(lab, _safe(v)) for lab, v in dirty])))
    return tuple(out)


def _safe(v):
    try:
        return repr(v)
    except Exception:  # noqa: BLE001
        return type(v).__name__


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"),
                           digest_size=16).digest()


def tapes(length):
    """All answer strings of the given length over {0, 1}."""
    import itertools

    return list(itertools.product((0, 1), repeat=length))


# --------------------------------------------------------------------------
# the explorer
# --------------------------------------------------------------------------
OBSERVE = ("observe everything",)


class System:
    """One closed system: a driver alphabet, the real objects, a model.

    Subclasses define
        start()          -> world object (real objects + reference model)
        ops(world)       -> iterable of enabled operations (tuples)
        step(world, op)  -> runs op on both sides; raises Violation on mismatch
        check(world)     -> complete observation against the model; may
                            destroy the world
        key(world)       -> canonical state
    """

    name = "system"
    max_depth = None
    max_states = None
    # the complete observation leaves the objects usable: it becomes a step of
    # its own wherever it changes the state (answers that are kept for later)
    observing = False

    def start(self):
        raise NotImplementedError

    def ops(self, w):
        raise NotImplementedError

    def step(self, w, op):
        raise NotImplementedError

    def check(self, w):
        pass

    def key(self, w):
        raise NotImplementedError

    def replay(self, history):
        fresh_world()
        w = self.start()
        for op in history:
            if op == OBSERVE:
                self.check(w)
            else:
                self.step(w, op)
        return w



class Result:
    def __init__(self, name):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.exhaustive = True
        self.note = ""
        self.max_depth = 0
        self.longest = 0.0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.error = None
        self.wall = 0.0

    def as_dict(self):
        d = dict(self.__dict__)
        d["outcomes"] = dict(self.outcomes)
        return d


def short(e):
    s = str(e)
    return s if len(s) < 600 else s[:600] + "..."


def classify(e):
    """An exception that escaped: from the code under test, or the harness?"""
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    root = os.path.realpath(os.path.join(REPO, "extra")) + os.sep
    if any(os.path.realpath(f.filename).startswith(root) for f in tb):
        return True
    # a walk over links/attributes of the structure that came back malformed
    return isinstance(e, (AttributeError, TypeError, IndexError, KeyError))


def guarded(res, system, history, fn, times=1):
    """Run fn; turn what the code under test does wrong into violations."""
    what = None
    try:
        arm(times)
        return fn()
    except Violation as e:
        what = short(e)
    except Hang:
        what = "does not terminate (more than %gs of CPU time)" % (
            HANG_S * times)
    except Prune:
        return None
    except HarnessError:
        raise
    except MemoryError:
        what = "runs out of memory"
    except Exception as e:  # noqa: BLE001
        if not classify(e):
            raise
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        what = "%s: %s (at %s)" % (
            type(e).__name__, short(e),
            "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                      for f in tb[-3:]))
    finally:
        disarm()
    res.violations.append(dict(system=system,
                               history=[repr(o) for o in history], what=what))
    return None


DEADLINE = [None]


def late(res, where):
    """Wall-clock budget used up: stop cleanly and say so."""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        res.exhaustive = False
        res.note = "time budget used up " + where
        return True
    return False


def explore(sys_, res, stop_after=1):
    """Breadth-first search over sys_; fills res."""
    seen = set()
    frontier = collections.deque()
    name = sys_.name

    def initial():
        w = sys_.replay(())
        k = sys_.key(w)
        ops = list(sys_.ops(w))
        sys_.check(w)
        return digest(k), ops, observed(w)

    def observed(w):
        """The state the observation itself leads to."""
        if not sys_.observing:
            return None
        k = digest(sys_.key(w))
        return (k, list(sys_.ops(w))) if k not in seen else None

    def also(h, o):
        if o is not None and o[0] not in seen:
            seen.add(o[0])
            res.states += 1
            frontier.append((h + (OBSERVE,), o[1]))

    r = guarded(res, name, (), initial)
    if r is None:
        return res
    seen.add(r[0])
    frontier.append(((), r[1]))
    res.states = 1
    also((), r[2])
    leaves = []
    while frontier:
        hist, ops = frontier.popleft()
        if late(res, "at depth %d" % len(hist)):
            break
        grew = False
        for op in ops:
            h = hist + (op,)

            def trans():
                w = sys_.replay(hist)
                out = sys_.step(w, op)
                k = digest(sys_.key(w))
                nops = more = None
                if k not in seen:
                    nops = list(sys_.ops(w))
                    sys_.check(w)
                    more = observed(w)
                return k, nops, out, more

            r = guarded(res, name, h, trans)
            res.transitions += 1
            if r is None:
                if len(res.violations) >= stop_after:
                    return res
                continue
            k, nops, out, more = r
            if out is not None:
                res.outcomes[str(out)] += 1
            if k in seen:
                continue
            seen.add(k)
            res.states += 1
            grew = True
            res.max_depth = max(res.max_depth, len(h))
            if sys_.max_depth is not None and len(h) >= sys_.max_depth:
                leaves.append(h)
                continue
            if sys_.max_states and res.states >= sys_.max_states:
                res.exhaustive = False
                res.note = "state cap %d reached at depth %d" % (
                    sys_.max_states, len(h))
                frontier.clear()
                break
            frontier.append((h, nops))
            also(h, more)
        if not grew:
            leaves.append(hist)
    # conformance: replay maximal histories of the search tree step by step
    # with the full model comparison after every step, twice, and require
    # identical observations
    stride = max(1, len(leaves) // 150)
    for h in leaves[::stride]:
        if late(res, "while replaying"):
            break

        def rep():
            w = sys_.replay(h)
            oa = digest(sys_.key(w))
            w = sys_.replay(h)
            if oa != digest(sys_.key(w)):
                raise HarnessError("replay diverged on %r" % (h,))
            for i in range(1, len(h) + 1):
                sys_.check(sys_.replay(h[:i]))
            return True

        if guarded(res, name, h, rep) is None:
            return res
        res.validated += 1
    for h in leaves[-2:]:
        res.samples.append([repr(o) for o in h])
    return res


def sweep(name, res, cases, run, stop_after=1, sample_at=(0, -1)):
    """Exhaustive enumeration of a finite family of executions.

    cases: iterable of JSON-able tuples, each one execution;
    run(case) -> iterable of per-execution distinct end states (hash) or None;
    raises Violation on mismatch.  Returns counts in res.
    """
    states = set()
    last = first = None
    n = 0
    pruned = 0
    for case in cases:
        if first is None:
            first = case
        if n % 16 == 0 and late(res, "after %d executions" % n):
            break
        last = case
        n += 1

        def once():
            fresh_world()
            return (run(case),)

        t0 = time.process_time()
        # a case is many operations: six times the limit of a single step
        r = guarded(res, name, (case,), once, 6)
        res.longest = max(res.longest, time.process_time() - t0)
        if r is None:
            if len(res.violations) >= stop_after:
                break
            pruned += 1
            continue
        st, tr = r[0] if r[0] is not None else (None, 1)
        res.transitions += tr
        if st is not None:
            states.add(st if isinstance(st, bytes) else digest(st))
    res.states += len(states)
    res.validated += n
    if pruned:
        res.note = "%d executions left to other properties" % pruned
    for s in (first, last):
        if s is not None:
            r_ = repr(s)
            res.samples.append([r_ if len(r_) < 400 else r_[:400] + "..."])
    return res
