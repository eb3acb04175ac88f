"""Monitor core: case contexts, guarded calls into the code under test, step budgets,
line reach and evidence counters.  Nothing here knows what the code looks like inside."""
import collections
import hashlib
import json
import os
import random
import sys
import traceback

REPO = os.environ.get("PYTIMIZE_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "pytimize") + os.sep


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class StepLimit(BaseException):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain (or too close to a boundary)."""


class Monitor:
    """Counts loop iterations and calls executed inside the package (a logical clock, so that
    'does not terminate' is decided without wall time) and records the lines reached."""
    TOOL = 4

    def __init__(self):
        self.steps = 0
        self.limit = None
        self.max_steps = 0
        self.total = 0
        self.lines = set()
        self.own = {}

    def install(self):
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, "verif-monitor")
        own = self.own
        D = mon.DISABLE

        def mine(code):
            r = own.get(code)
            if r is None:
                fn = code.co_filename
                r = own[code] = (fn.startswith(PKG) or "pytimize" in fn and os.path.realpath(fn).startswith(PKG)) \
                    and "/tests/" not in fn
            return r

        def tick(code, *a):
            if not mine(code):
                return D
            self.steps += 1
            if self.limit is not None and self.steps > self.limit:
                self.limit = None
                raise StepLimit()

        def line(code, no):
            if mine(code):
                self.lines.add((code.co_filename[len(PKG):] if code.co_filename.startswith(PKG)
                                else os.path.realpath(code.co_filename)[len(PKG):], no))
            return D

        mon.register_callback(self.TOOL, ev.JUMP, tick)
        mon.register_callback(self.TOOL, ev.PY_START, tick)
        mon.register_callback(self.TOOL, ev.LINE, line)
        mon.set_events(self.TOOL, ev.JUMP | ev.PY_START | ev.LINE)

    def begin(self, limit):
        self.steps = 0
        self.limit = limit

    def end(self):
        self.limit = None
        self.max_steps = max(self.max_steps, self.steps)
        self.total += self.steps
        self.steps = 0


MON = Monitor()


class Ctx:
    """One case.  Keeps counters, the log of calls (for the replay file) and the guarded calls."""
    STEP_LIMIT = 4_000_000

    def __init__(self, rng, index, shared):
        self.rng = rng
        self.index = index
        self.shared = shared
        self.log = []
        self.inputs = {}
        self.nontrivial = False
        self._sig = []
        self.lps = []            # exact programs whose numerical conditioning bounds what can be judged

    # ---- evidence
    def count(self, name, k=1):
        self.shared[name] += k

    def sig(self, *parts):
        self._sig.append(repr(parts))

    def signature(self):
        return hashlib.blake2b("|".join(self._sig).encode(), digest_size=8).hexdigest()

    def note(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = v if isinstance(v, (str, int, float, bool, type(None))) else repr(v)

    # ---- verdicts
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        self.shared["monitor_checks"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    # ---- guarded calls
    def _guard(self, what, fn, a, kw):
        self.shared["calls_observed"] += 1
        self.log.append(what)
        MON.begin(self.STEP_LIMIT)
        try:
            return True, fn(*a, **kw)
        except StepLimit:
            raise Violation(f"{what}: no termination within {self.STEP_LIMIT} steps", "nontermination")
        except SystemExit as e:
            return False, e
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            return False, e
        finally:
            MON.end()

    def must(self, what, fn, *a, **kw):
        """The call has to succeed."""
        ok, r = self._guard(what, fn, a, kw)
        if not ok:
            tb = "".join(traceback.format_exception(type(r), r, r.__traceback__)[-3:])
            raise Violation(f"{what} raised {type(r).__name__}: {r}\n{tb}", f"raise:{type(r).__name__}")
        return r

    def refuse(self, what, fn, *a, kinds=(Exception,), **kw):
        """The call has to be refused with an error (of one of the kinds)."""
        ok, r = self._guard(what, fn, a, kw)
        self.shared["monitor_checks"] += 1
        if ok:
            raise Violation(f"{what} was accepted (returned {short(r)}), expected an error")
        if isinstance(r, SystemExit):
            raise Violation(f"{what} ended the process")
        if isinstance(r, RecursionError) or not isinstance(r, kinds):
            raise Violation(f"{what} raised {type(r).__name__}: {r}, expected "
                            + "/".join(k.__name__ for k in kinds))
        return r

    def attempt(self, what, fn, *a, **kw):
        """(ok, value or exception); for calls where both endings are allowed."""
        return self._guard(what, fn, a, kw)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


PROPS = {}


class Prop:
    def __init__(self, pid, fn, quick, thorough, rule, floors, directed, step_limit, numeric):
        self.numeric = numeric
        self.pid, self.fn = pid, fn
        self.quick, self.thorough = quick, thorough
        self.rule = rule
        self.floors = floors
        self.directed = directed
        self.step_limit = step_limit


def prop(pid, quick, thorough=None, rule="", floors=(), directed=None, step_limit=None, numeric=False):
    """Registers a property's case function fn(ctx).  quick/thorough: number of cases."""
    def deco(fn):
        PROPS[pid] = Prop(pid, fn, quick, thorough or quick * 25, rule, tuple(floors), directed, step_limit, numeric)
        return fn
    return deco


def case_rng(seed, pid, index):
    return random.Random(f"{seed}/{pid}/{index}")


def counters():
    return collections.Counter()
