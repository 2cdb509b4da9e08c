"""A controlled scheduler for real threads (one runs at a time).

Switch points are the lines (or opcodes) executed in the watched source files
and all operations on locks which the watched code creates.  A schedule is
{step: thread}; everything else follows the default (keep running, otherwise
the lowest enabled thread).
"""
import _thread
import os
import sys
import threading
import time

REAL_LOCK, REAL_RLOCK = _thread.allocate_lock, threading.RLock
WATCH = ()
CURRENT = None
FREED = 0    # runs that could not be controlled


class Abort(BaseException):
    pass


class Dead(Exception):
    pass


class Lock:
    """Stands in for threading.Lock and RLock in the watched code."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.n = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        t = s.me() if s is not None else None
        me = t if t is not None else "outside"
        if t is not None and not s.free:
            s.point()
        if self.reentrant and self.owner is me:
            self.n += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if t is None:
                raise Dead("the lock was left locked")
            if s.free:
                time.sleep(0.001)
                continue
            if timeout is not None and timeout >= 0:
                if not s.block(self, True):
                    return False
            else:
                s.block(self)
        self.owner = me
        self.n = 1
        return True

    __enter__ = acquire

    def release(self):
        s = CURRENT
        t = s.me() if s is not None else None
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner is not (t if t is not None else "outside"):
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None
            if s is not None:
                s.unblock(self)
        if t is not None:
            s.point()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # for threading.Condition
    def _is_owned(self):
        t = CURRENT.me() if CURRENT is not None else None
        return self.owner is (t if t is not None else "outside")

    def _release_save(self):
        n, self.n = self.n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n


def _watched():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and any(f.f_code.co_filename.startswith(w) for w in WATCH)


def make_lock():
    return Lock() if _watched() else REAL_LOCK()


def make_rlock(*a):
    return Lock(True) if _watched() else REAL_RLOCK()


def install(package):
    """Replace the locks of a package (made from now on, and those of its modules)."""
    global WATCH
    WATCH = (os.path.dirname(os.path.abspath(package.__file__)) + os.sep,)
    threading.Lock = threading._allocate_lock = make_lock
    threading.RLock = make_rlock
    locktype, rlocktype = type(REAL_LOCK()), type(REAL_RLOCK())
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == package.__name__ or name.startswith(package.__name__ + ".")):
            continue
        for holder in [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == name]:
            for k, v in list(vars(holder).items()):
                try:
                    if v is REAL_LOCK:
                        setattr(holder, k, make_lock)
                    elif v is REAL_RLOCK:
                        setattr(holder, k, make_rlock)
                    elif isinstance(v, locktype):
                        setattr(holder, k, Lock())
                    elif isinstance(v, rlocktype):
                        setattr(holder, k, Lock(True))
                except (AttributeError, TypeError):
                    pass


class T:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.waits = None
        self.timed = self.expired = False
        self.done = False


class Sched:
    """One run.  plan is a list of ("v", step, thread) for preemptions and
    ("f", n, thread) for the n-th choice where the current thread cannot go on."""

    def __init__(self, fns, plan, bound, opcodes=(), lines=None, limit=400000):
        self.ts = [T(i, f) for i, f in enumerate(fns)]
        self.plan = {(k, n): t for k, n, t in plan}
        self.last = tuple(plan[-1][:2]) if plan else None
        # switch points do not matter when no preemptions are left
        self.left = bound - sum(k == "v" for k, _, _ in plan)
        self.vleft = sum(k == "v" for k, _, _ in plan)
        self.opcodes = opcodes
        self.lines = lines
        self.trace = []     # (kind, number, options)
        self.who = {}
        self.after = 0      # how long it was when the plan was followed
        self.step = self.forced = self.steps = 0
        self.limit = limit
        self.dead = None
        self.free = False
        self.main = REAL_LOCK()
        self.main.acquire()
        self.local = threading.local()
        self.tracing = self.left > 0 or self.vleft > 0
        self.changed()

    def me(self):
        return getattr(self.local, "t", None)

    def changed(self):
        self.en = tuple(t.i for t in self.ts if not t.done and t.waits is None)

    # ---------------------------------------------------- called by threads
    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(WATCH):
            return None
        base = fn.rsplit(os.sep, 1)[1]
        if self.lines is not None and base not in self.lines:
            # only the calls
            self.point()
            return None
        if base in self.opcodes and not frame.f_code.co_qualname.startswith(("Options.", "MarshallerCollection.")):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.on_opcode
        return self.on_line

    def on_line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.on_line

    def on_opcode(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self.on_opcode

    def point(self):
        if self.dead:
            raise Abort
        if self.free:
            return
        self.steps += 1
        if not self.tracing:
            sys.settrace(None)
            return
        self.step += 1
        if self.step > self.limit:
            self.kill("it does not end")
        if len(self.en) < 2:
            return
        if self.left > 0:
            self.trace.append(("v", self.step, self.en))
            self.who[self.step] = self.me().i
        n = self.plan.get(("v", self.step))
        if n is not None:
            t = self.me()
            nt = self.ts[n]
            if nt.done or nt.waits is not None or nt is t:
                raise RuntimeError("the schedule cannot be replayed")
            self.followed("v", self.step)
            self.switch(t, nt)

    def followed(self, k, n):
        if k == "v":
            self.vleft -= 1
            self.tracing = self.left > 0 or self.vleft > 0
        if (k, n) == self.last:
            self.after = len(self.trace)

    def switch(self, t, nt):
        if self.free:
            return
        nt.sem.release()
        t.sem.acquire()
        if self.dead:
            raise Abort

    def choose(self):
        """The next one when the current one cannot go on."""
        if not self.en:
            timed = [x for x in self.ts if not x.done and x.timed]
            if timed:
                timed[0].waits = None
                timed[0].expired = True
                self.changed()
                return timed[0]
            return None
        n = self.en[0]
        if len(self.en) > 1:
            self.forced += 1
            n = self.plan.get(("f", self.forced), n)
            self.trace.append(("f", self.forced, self.en))
            if ("f", self.forced) in self.plan:
                self.followed("f", self.forced)
        return self.ts[n]

    def block(self, lock, timed=False):
        t = self.me()
        if self.dead:
            raise Abort
        t.waits, t.timed, t.expired = lock, timed, False
        self.changed()
        nt = self.choose()
        if nt is None:
            self.kill(self.stuck())
        if nt is not t:
            self.switch(t, nt)
        t.timed = False
        return not t.expired

    def stuck(self):
        return "deadlock: " + ", ".join("thread %d waits" % x.i for x in self.ts if not x.done)

    def unblock(self, lock):
        for x in self.ts:
            if x.waits is lock:
                x.waits = None
        self.changed()

    def kill(self, why):
        self.dead = self.dead or why
        raise Abort

    def body(self, t):
        t.sem.acquire()
        self.local.t = t
        try:
            if not self.dead:
                if self.tracing:
                    sys.settrace(self.tracer)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        finally:
            sys.settrace(None)
            t.done = True
            self.changed()
            nt = None if self.dead or self.free else self.choose()
            if self.free:
                if all(x.done for x in self.ts):
                    self.main.release()
            elif nt is None:
                rest = [x for x in self.ts if not x.done]
                if not rest:
                    self.main.release()
                else:
                    self.dead = self.dead or self.stuck()
                    nt = rest[0]
                    nt.waits = None
            if nt is not None:
                nt.sem.release()

    def run(self):
        global CURRENT, FREED
        CURRENT = self
        try:
            threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.ts]
            for x in threads:
                x.start()
            self.choose().sem.release()
            before = -1
            while not self.main.acquire(timeout=5 if FREED < 2 else 0.5):
                if self.steps == before:
                    # waiting for something which is not known: let all run
                    self.free = True
                    FREED += 1
                    for x in self.ts:
                        x.waits = None
                        x.sem.release()
                    if not self.main.acquire(timeout=20):
                        self.dead = "the threads do not go on"
                        return self
                    break
                before = self.steps
            for x in threads:
                x.join()
        finally:
            CURRENT = None
        return self


def explore(execute, bound, part=None):
    """All schedules with up to bound preemptions.  execute(plan) -> Sched.

    part: (i, n): only those with the first preemption at steps which are i modulo n.
    """
    stack = [[]]
    while stack:
        plan = stack.pop()
        s = execute(plan)
        if s.free:
            return False
        if plan and not s.after:
            raise RuntimeError("the plan was not followed")
        firstv = not any(k == "v" for k, _, _ in plan)
        for k, n, en in s.trace[s.after:]:
            if k == "f":
                # the default was the first one
                stack += [plan + [(k, n, o)] for o in en[1:]]
            elif not firstv or part is None or n % part[1] == part[0]:
                stack += [plan + [(k, n, o)] for o in en if o != s.who[n]]
    return True
