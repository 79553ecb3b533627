"""A controlled scheduler for real threads.

Only one thread runs at a time.  Every thread counts the events of its own execution inside
the code under test (sys.monitoring; 'entry' level = function entries, 'call' level = entries and exits, 'line' level =
also every line, 'opcode' level = also every bytecode instruction).  A schedule is a list of
segments [thread, k]: thread runs until it has made its k-th event (null: until it is done),
then the next segment starts; after the last one the unfinished threads run to their end in
order.  Every schedule runs in its own forked process."""

import gc
import os
import pickle
import signal
import sys
import threading
import types

from mc import harness

SRC = os.path.realpath(os.path.join(harness.REPO, "src")) + os.sep
STALL = 1.0


TOOL = 3
EVENTS = sys.monitoring.events
_LEVEL = None
_ACTIVE = None


def code_objects():
    """Every piece of code of the modules under test that are loaded."""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    seen, out = set(), []
    while todo:
        c = todo.pop()
        if c in seen or not os.path.realpath(c.co_filename).startswith(SRC):
            continue
        seen.add(c)
        out.append(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


def instrument(level):
    """Once per process; forked schedules inherit it."""
    global _LEVEL
    if _LEVEL == level:
        return
    assert _LEVEL is None, "one level per process"
    _LEVEL = level
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "schedule explorer")
    wanted = EVENTS.PY_START | (EVENTS.PY_RETURN if level != "entry" else 0)
    mon.register_callback(TOOL, EVENTS.PY_START, lambda c, o: _fire(c, o, "call"))
    mon.register_callback(TOOL, EVENTS.PY_RETURN, lambda c, o, v: _fire(c, o, "return"))
    if level in ("line", "opcode"):
        wanted |= EVENTS.LINE
        mon.register_callback(TOOL, EVENTS.LINE, lambda c, n: _fire(c, n, "line"))
    if level == "opcode":
        wanted |= EVENTS.INSTRUCTION
        mon.register_callback(TOOL, EVENTS.INSTRUCTION, lambda c, o: _fire(c, o, "opcode"))
    for c in code_objects():
        mon.set_local_events(TOOL, c, wanted)
    gc.collect()
    gc.freeze()  # forked schedules are short: keep the collector off the shared pages
    gc.disable()


def _fire(code, at, what):
    s = _ACTIVE
    if s is not None:
        t = s.ids.get(threading.get_ident())
        if t is not None:
            s._event(t, code, at, what)


class Scheduler:
    def __init__(self, bodies, plan, level, record=False):
        self.bodies, self.plan, self.level, self.record = bodies, list(plan), level, record
        n = len(bodies)
        self.gate = [threading.Semaphore(0) for _ in range(n)]
        self.events = [0] * n
        self.done = [False] * n
        self.result = [None] * n
        self.where = []
        self.stalled = 0
        self.seg = -1
        self.lock = threading.Lock()
        self.ids = {}

    # -- control ------------------------------------------------------------------
    def _next(self):
        """Starts the next segment; returns the thread it belongs to."""
        while True:
            self.seg += 1
            if self.seg < len(self.plan):
                t, k = self.plan[self.seg]
                if self.done[t] or (k is not None and self.events[t] >= k):
                    continue
                return t
            for t, d in enumerate(self.done):
                if not d:
                    return t
            return None

    def _wait(self, t):
        seen = None
        while not self.gate[t].acquire(timeout=STALL):
            now = (list(self.events), list(self.done), self.seg)
            if now == seen and any(self.events):
                # the running thread waits for something this one holds: let both go on
                self.stalled += 1
                return
            seen = now

    def _event(self, t, code, at, what):
        self.events[t] += 1
        if self.record and t == 0:
            self.where.append((os.path.basename(code.co_filename), code.co_name, what, at))
        if self.seg < len(self.plan) and self.plan[self.seg] == (t, self.events[t]):
            with self.lock:
                other = self._next()
            if other != t and other is not None:
                self.gate[other].release()
                self._wait(t)

    def _thread(self, t):
        self._wait(t)
        self.ids[threading.get_ident()] = t
        try:
            self.result[t] = ["value", self.bodies[t]()]
        except Exception as e:
            self.result[t] = ["error", f"{type(e).__name__}: {e}"]
        finally:
            self.ids.pop(threading.get_ident())
            self.done[t] = True
            with self.lock:
                other = self._next()
            if other is not None:
                self.gate[other].release()

    def go(self):
        global _ACTIVE
        _ACTIVE = self
        self.plan = [tuple(s) for s in self.plan]
        threads = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in range(len(self.bodies))]
        for th in threads:
            th.start()
        first = self._next()
        self.gate[first].release()
        for th in threads:
            th.join()
        return {"results": self.result, "events": self.events, "stalled": self.stalled, "where": self.where}


def in_fork(fn, seconds=60):
    """fn() in a forked process; None if it gave no answer."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, seconds)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        while True:
            b = f.read()
            if not b:
                break
            chunks.append(b)
    os.waitpid(pid, 0)
    return pickle.loads(b"".join(chunks)) if chunks else None


def run(make, plan, level, record=False):
    """One schedule in a fresh process: make() builds the bodies there."""
    instrument(level)
    return in_fork(lambda: Scheduler(make(), plan, level, record).go())
