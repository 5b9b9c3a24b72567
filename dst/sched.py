"""Thread scheduler: real threads, one running at a time, switched only where the plan says.

Every thread runs under sys.settrace restricted to frames of the norfair package; every
traced line/opcode is a numbered scheduling point of its thread.  The schedule is a list
of [thread, point, next] entries: when `thread` reaches its scheduling point number
`point`, the baton passes to `next`.  Without an entry the running thread goes on until
it ends or blocks on a lock.
"""
import sys
import threading

_real_lock = threading.Lock
_real_rlock = threading.RLock

ACTIVE = None  # the scheduler whose threads are running, if any


class Deadlock(Exception):
    pass


class SimLock:
    """threading.Lock whose waiting is decided by the scheduler inside a simulation."""

    _make = staticmethod(_real_lock)

    def __init__(self):
        self._lock = self._make()

    def acquire(self, blocking=True, timeout=-1):
        sched = ACTIVE
        me = sched.current() if sched is not None else None
        if me is None:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking or timeout is not None and timeout >= 0:
                return False
            sched.block(me, self)
        return True

    def release(self):
        self._lock.release()
        sched = ACTIVE
        if sched is not None:
            sched.unblock(self)

    def locked(self):
        return self._lock.locked()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _make = staticmethod(_real_rlock)

    def locked(self):
        return False


class patched_locks:
    """Make threading.Lock/RLock produce scheduler-aware locks."""

    def __enter__(self):
        threading.Lock = SimLock
        threading.RLock = SimRLock

    def __exit__(self, *_exc):
        threading.Lock = _real_lock
        threading.RLock = _real_rlock


class Scheduler:
    def __init__(self, schedule, package, granularity="opcode", order=None):
        self.plan = {}
        for thread, point, target in schedule:
            self.plan.setdefault((int(thread), int(point)), int(target))
        self.package = package
        self.opcodes = granularity == "opcode"
        self.step = 0
        self.switches = []
        self.gates = []
        self.points = []
        self.alive = []
        self.waiting = {}
        self.idents = {}
        self.running = None
        self.done = threading.Event()
        self.errors = {}
        self.order = order
        self.stuck = None
        self.mids = 0  # switches at a point inside the package

    # ---- thread side
    def current(self):
        return self.idents.get(threading.get_ident())

    def _runnable(self):
        return [t for t in range(len(self.gates)) if self.alive[t] and t not in self.waiting]

    def _pass_to(self, target):
        self.running = target
        self.gates[target].release()

    def point(self, me):
        self.step += 1
        self.points[me] += 1
        target = self.plan.get((me, self.points[me]))
        if target is None:
            return
        runnable = self._runnable()
        if not runnable:
            return
        if target not in runnable:
            target = runnable[target % len(runnable)]
        if target == me:
            return
        self.switches.append((self.points[me], me, target))
        self.mids += 1
        self._pass_to(target)
        self.gates[me].acquire()

    def block(self, me, lock):
        self.waiting[me] = lock
        runnable = self._runnable()
        if not runnable:
            self.stuck = "all threads wait for locks"
            self.done.set()
            # park forever: the run is over
            self.gates[me].acquire()
            return
        self.switches.append((self.step, me, runnable[0], "blocked"))
        self._pass_to(runnable[0])
        self.gates[me].acquire()

    def unblock(self, lock):
        for t in [t for t, l in self.waiting.items() if l is lock]:
            del self.waiting[t]

    def _trace(self, me):
        package = self.package
        opcodes = self.opcodes

        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self.point(me)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(package):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return tracer

    def _body(self, me, fn):
        self.idents[threading.get_ident()] = me
        self.gates[me].acquire()
        try:
            sys.settrace(self._trace(me))
            try:
                fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # pylint: disable=broad-except
            self.errors[me] = e
        self.alive[me] = False
        runnable = self._runnable()
        if runnable:
            self.switches.append((self.step, me, runnable[0], "end"))
            self._pass_to(runnable[0])
        else:
            if any(self.alive):
                self.stuck = "threads left waiting for locks"
            self.done.set()

    def run(self, bodies, first=0):
        global ACTIVE  # pylint: disable=global-statement
        n = len(bodies)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.points = [0] * n
        threads = [
            threading.Thread(target=self._body, args=(i, body), daemon=True)
            for i, body in enumerate(bodies)
        ]
        ACTIVE = self
        try:
            for t in threads:
                t.start()
            with patched_locks():  # locks the code under test creates while it runs
                self._pass_to(first % n)
                self.done.wait()
        finally:
            ACTIVE = None
        if not self.stuck:
            for t in threads:
                t.join()
        return self
