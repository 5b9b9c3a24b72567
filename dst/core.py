"""Deterministic simulation engine.

A *scenario* turns a seed into a *plan* (a JSON value holding the configuration,
the operations, the faults and, where threads are simulated, the schedule), and
executes plans against the real norfair code.  Execution draws no random number
and reads no clock: it is a pure function of the plan and of the code.  Every
execution happens in a freshly forked process, so no state of an earlier run can
reach it.
"""
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback
import zlib

RUN_TIMEOUT_S = float(os.environ.get("DST_RUN_TIMEOUT", "25"))
MEM_LIMIT = 3 << 30
MAX_STATES = 1500


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Ambiguous(Exception):
    """The run reached an exact tie that the property excludes: stop checking it."""


def h64(value):
    return int.from_bytes(
        hashlib.blake2b(repr(value).encode(), digest_size=8).digest(), "big"
    )


def u01(*key):
    """Uniform value in [0, 1) that is a pure function of its key."""
    return h64(key) / 2.0**64


def seed_rng(*key):
    return random.Random(h64(key))


class Ctx:
    """What an execution reports: event log digest, faults, probes, states."""

    def __init__(self, keep_log=False):
        self._digest = hashlib.blake2b(digest_size=16)
        self.keep_log = keep_log
        self.events = []
        self.n_events = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.oracle = 0
        self.nontrivial = False
        self.ambiguous = False

    # ---- recording (never draws randomness, never reads a clock)
    def log(self, *parts):
        line = repr(parts)
        self._digest.update(line.encode())
        self._digest.update(b"\n")
        self.n_events += 1
        if self.keep_log:
            self.events.append(line)

    def digest(self):
        return self._digest.hexdigest()

    def fault(self, kind, n=1):
        self._digest.update(f"fault {kind} {n}\n".encode())
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, key):
        if len(self.states) < MAX_STATES:
            self.states.add(h64(key))

    # ---- oracles
    def check(self, cond, cls, msg=""):
        self.oracle += 1
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def call(self, what, fn, *args, **kwargs):
        """Call the code under test; an exception it raises is a violation."""
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except Ambiguous:
            raise
        except Exception as e:  # pylint: disable=broad-except
            raise Violation(
                "exception", f"{what} raised {type(e).__name__}: {e} | {where(e)}"
            ) from e


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    repo = [f for f in tb if "/norfair/" in f.filename]
    f = repo[-1] if repo else (tb[-1] if tb else None)
    return f"{os.path.basename(f.filename)}:{f.name}" if f else "?"


ODD_VALUE = (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, AssertionError)


def at_harness(e):
    f = traceback.extract_tb(e.__traceback__)[-1]
    return f"{os.path.basename(f.filename)}:{f.name}"


def raised_by_code(e):
    """Whether the code under test, or a library it called, raised e (and not the harness)."""
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if f.filename.startswith(here):
            return False
        if "/norfair/" in f.filename:
            return True
    return False


class Scenario:
    """Base class: subclasses define name, gen and exec."""

    name = "?"
    quick = 400
    thorough = 8000
    list_keys = ("ops",)
    ddmin_keys = ()
    rule = ""
    time_unit = "frames"
    state_measure = "distinct abstract states reported by the run"
    assumptions = ()
    real = ()
    stub = ()
    warm = None  # called once in the parent before forking

    def gen(self, rng, tier):
        raise NotImplementedError

    def exec(self, plan, ctx):
        raise NotImplementedError

    # ---- minimisation
    def simplify_op(self, op):
        """Simpler versions of one operation."""
        return ()

    def simplify_plan(self, plan):
        """Simpler versions of the whole plan (after list shrinking)."""
        return ()

    def simplify(self, plan):
        for key in self.list_keys:
            ops = plan.get(key)
            if not ops:
                continue
            n = len(ops)
            size = n
            while size >= 1:
                for start in range(n - size, -1, -size):
                    yield dict(plan, **{key: ops[:start] + ops[start + size :]})
                if size == 1:
                    break
                size = max(1, size // 2)
        yield from self.simplify_plan(plan)
        for key in self.list_keys:
            ops = plan.get(key) or []
            for i in range(len(ops) - 1, -1, -1):
                for op in self.simplify_op(ops[i]):
                    yield dict(plan, **{key: ops[:i] + [op] + ops[i + 1 :]})


def reseed(seed):
    """Fixes the process-wide random generators, which the code under test may draw from."""
    random.seed(seed)
    for module, name in (("numpy.random", "seed"), ("cv2", "setRNGSeed")):
        if module in sys.modules:
            getattr(sys.modules[module], name)(seed & 0x7FFFFFFF)


def run_here(scenario, plan, keep_log=False):
    """Execute a plan in this process; returns the result record."""
    ctx = Ctx(keep_log)
    status, cls, msg = "ok", None, None
    reseed(zlib.crc32(json.dumps(plan, sort_keys=True).encode()))
    try:
        scenario.exec(plan, ctx)
    except Violation as v:
        status, cls, msg = "violation", v.cls, v.msg
    except Ambiguous as a:
        ctx.ambiguous = True
        ctx.log("ambiguous", str(a))
    except MemoryError:
        status, cls, msg = "violation", "memory", "memory exhausted"
    except Exception as e:  # pylint: disable=broad-except
        if raised_by_code(e):
            status, cls = "violation", "exception"
            msg = f"norfair raised {type(e).__name__}: {e} | {where(e)}"
        elif isinstance(e, ODD_VALUE):
            # An oracle could not read what the code returned: not what it has to be
            status, cls = "violation", "unexpected"
            msg = f"a result has an unexpected form: {type(e).__name__}: {e} | {at_harness(e)}"
        else:
            status, cls, msg = "harness", "harness", traceback.format_exc()
    res = {
        "status": status,
        "cls": cls,
        "msg": msg,
        "digest": ctx.digest(),
        "events": ctx.n_events,
        "faults": ctx.faults,
        "probes": ctx.probes,
        "states": sorted(ctx.states),
        "simtime": ctx.simtime,
        "steps": ctx.steps,
        "oracle": ctx.oracle,
        "nontrivial": ctx.nontrivial,
        "ambiguous": ctx.ambiguous,
    }
    if keep_log:
        res["log"] = ctx.events
    return res


def run_forked(fn, timeout=RUN_TIMEOUT_S):
    """Run fn() in a forked child; returns its JSON result, or a hang/crash record."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            if not os.environ.get("DST_STDERR"):
                os.dup2(devnull, 2)
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                data = json.dumps(fn()).encode()
            except BaseException:  # pylint: disable=broad-except
                data = json.dumps(
                    {"status": "harness", "cls": "harness", "msg": traceback.format_exc()}
                ).encode()
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:  # pylint: disable=broad-except
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    hang = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                hang = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                hang = True
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    finally:
        os.close(r)
        if hang:
            os.kill(pid, signal.SIGKILL)
        _, wstatus = os.waitpid(pid, 0)
    if hang:
        return {
            "status": "violation",
            "cls": "hang",
            "msg": f"no result within {timeout:g}s of real time (a run normally takes milliseconds)",
            "digest": "hang",
        }
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {
            "status": "violation",
            "cls": "crash",
            "msg": f"the process died (wait status {wstatus})",
            "digest": "crash",
        }


def execute(scenario, plan, keep_log=False, timeout=RUN_TIMEOUT_S):
    return run_forked(lambda: run_here(scenario, plan, keep_log), timeout)


def minimise(scenario, plan, cls, budget_s=40.0, max_exec=600):
    """Greedy delta debugging: keep any simpler plan that violates in the same class."""
    t0 = time.monotonic()
    best, n_exec = plan, 0
    limit = 8 if cls == "hang" else RUN_TIMEOUT_S

    def fails(cand):
        nonlocal n_exec
        n_exec += 1
        res = execute(scenario, cand, timeout=limit)
        return res["status"] == "violation" and res["cls"] == cls

    for key in scenario.ddmin_keys:
        size = len(best.get(key) or [])
        while size >= 1:
            start = 0
            while start < len(best.get(key) or []):
                if n_exec >= max_exec // 2 or time.monotonic() - t0 > budget_s / 2:
                    size = 0
                    break
                items = best[key]
                cand = dict(best, **{key: items[:start] + items[start + size :]})
                if fails(cand):
                    best = cand
                else:
                    start += size
            size //= 2
    improved = True
    while improved:
        improved = False
        for cand in scenario.simplify(best):
            if n_exec >= max_exec or time.monotonic() - t0 > budget_s:
                return best, n_exec
            if cand == best:
                continue
            if fails(cand):
                best = cand
                improved = True
                break
    return best, n_exec


def canonical(plan):
    return json.loads(json.dumps(plan))


def eprint(*args):
    print(*args, file=sys.stderr, flush=True)
