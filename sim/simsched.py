"""Deterministic scheduler: real threads, one runs at a time, switched only at library
source lines / bytecodes chosen by the plan; also interrupts and observers at such steps."""
import _thread
import sys
import threading

import env

TOOL = 4
MON = sys.monitoring


class SimAbort(BaseException):
    """Ends a simulated thread that can no longer proceed."""


class Sched:
    """plan: list of [step, thread] switches; steps count monitored events globally."""

    def __init__(self, granularity="line", switches=(), interrupt=None, observer=None,
                 max_steps=400000, crash=None, record=False):
        self.gran = granularity
        self.switches = {int(s): int(t) for s, t in switches}
        self.interrupt = interrupt          # step at which KeyboardInterrupt is raised
        self.crash = crash                  # step at which the process "dies"
        self.observer = observer            # callable(step) run at every step
        self.step = 0
        self.max_steps = max_steps
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.trace = []
        self.deadlock = False
        self.fired_interrupt = False
        self.switched = 0
        self.sites = set()
        self.active = False
        self.limit_hit = False
        self.firsts = {} if record else None     # (thread, code, position) -> first step there

    # -- monitoring --------------------------------------------------------------
    def _event(self, code, pos):
        if not self.active:
            return
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        s = self.step
        self.step = s + 1
        if s > self.max_steps:
            self.limit_hit = True
            return
        if self.firsts is not None:
            self.firsts.setdefault((t.tid, code, pos), s)
        if self.observer is not None:
            self.active = False
            try:
                self.observer(s)
            finally:
                self.active = True
        if self.crash is not None and s == self.crash:
            import os
            os._exit(137)
        if self.interrupt is not None and s == self.interrupt:
            self.fired_interrupt = True
            self.sites.add((code.co_name, pos))
            raise KeyboardInterrupt
        nxt = self.switches.get(s)
        if nxt is not None:
            self.sites.add((code.co_name, pos))
            self.switch_to(nxt)

    def install(self):
        MON.use_tool_id(TOOL, "verif")
        ev = MON.events.LINE if self.gran == "line" else MON.events.INSTRUCTION
        MON.register_callback(TOOL, ev, self._event)
        for c in env.code_objects:
            MON.set_local_events(TOOL, c, ev)
        self.active = True

    def uninstall(self):
        self.active = False
        MON.free_tool_id(TOOL)

    # -- threads -----------------------------------------------------------------
    def switch_to(self, tid):
        cur = self.current
        if tid >= len(self.threads):
            return
        t = self.threads[tid]
        if t is cur or t.done or t.blocked is not None:
            return
        self.switched += 1
        self.current = t
        t.gate.release()
        cur.gate.acquire()

    def yield_blocked(self, lock):
        """Current thread cannot take `lock`: run somebody else. False: nobody can run."""
        cur = self.current
        cur.blocked = lock
        for t in self.threads:
            if t is not cur and not t.done and t.blocked is None:
                self.current = t
                t.gate.release()
                cur.gate.acquire()
                return True
        cur.blocked = None
        return False

    def unblock(self, lock):
        for t in self.threads:
            if t.blocked is lock:
                t.blocked = None

    def run(self, funcs):
        """Run the functions as simulated threads to completion."""
        global CURRENT
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        for i, f in enumerate(funcs):
            self.threads.append(SimThread(self, i, f))
        CURRENT = self
        self.install()
        try:
            for t in self.threads:
                t.start()
            self.current = self.threads[0]
            self.threads[0].gate.release()
            self.main_gate.acquire()
        finally:
            self.uninstall()
            CURRENT = None
        return [t.result for t in self.threads]

    def run_here(self, func):
        """Run func in this thread under monitoring (interrupt/crash/observer only)."""
        global CURRENT
        t = SimThread(self, 0, None)
        self.threads = [t]
        self.by_ident[_thread.get_ident()] = t
        self.current = t
        CURRENT = self
        self.install()
        try:
            return func()
        finally:
            self.uninstall()
            CURRENT = None


class SimThread:
    def __init__(self, sched, tid, func):
        self.sched, self.tid, self.func = sched, tid, func
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.result = None

    def start(self):
        self.started = _thread.allocate_lock()
        self.started.acquire()
        threading.Thread(target=self._main, daemon=True).start()
        self.started.acquire()

    def _main(self):
        s = self.sched
        s.by_ident[_thread.get_ident()] = self
        self.started.release()
        self.gate.acquire()
        try:
            self.result = self.func()
        except SimAbort:
            self.result = {"exc": "SimDeadlock"}
        finally:
            self.done = True
            for t in s.threads:
                if not t.done and t.blocked is None:
                    s.current = t
                    t.gate.release()
                    break
            else:
                left = [t for t in s.threads if not t.done]
                if left:  # all remaining are blocked: wake one to see whether it can go on
                    t = left[0]
                    t.blocked = None
                    s.current = t
                    t.gate.release()
                else:
                    s.main_gate.release()


CURRENT = None


class SimLock:
    """threading.Lock look-alike: a real lock outside a simulation, scheduled inside."""

    _reentrant = False

    def __init__(self):
        self._l = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        s = CURRENT
        if s is None or me not in s.by_ident:
            ok = self._l.acquire(blocking, timeout)
        else:
            while True:
                ok = self._l.acquire(False)
                if ok or not blocking:
                    break
                if not s.yield_blocked(self):
                    if timeout is not None and timeout >= 0:
                        return False
                    s.deadlock = True
                    raise SimAbort
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        if CURRENT is not None:
            CURRENT.unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
