"""Controlled scheduler for real threads that run code of the package.

Every line of the package executed by a controlled thread is a scheduling
point.  One thread runs at a time; a plan says which thread starts and at which
of its points the processor goes to which other thread (a preemption).  After a
thread ends the lowest numbered one left runs.  A thread that makes no progress
while it holds the processor (it waits for something another one holds) loses
it.
"""
import sys
import threading
import time

from mc import lib


class _T:
    def __init__(self, key):
        self.key, self.id = key, None
        self.count, self.depth, self.done = 0, 0, False
        self.locs = []


class Controller:
    def __init__(self, expect, plan, keyfun=None, opcodes=False, record=False):
        self.expect = expect
        self.start = plan.get("start", 0)
        self.switches = {(t, c): u for t, c, u in plan.get("switches", [])}
        self.keyfun = keyfun or (lambda frame: 0)
        self.opcodes, self.record = opcodes, record
        self.cv = threading.Condition()
        self.threads = []
        self.begun = False
        self.current = None
        self.ticks = 0
        self.stalls = 0
        self.taken = 0
        self.order = []
        self.local = threading.local()

    # -- tracing ---------------------------------------------------------
    def tracer(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(lib.PKG):
            return None
        ts = getattr(self.local, "ts", None)
        if ts is None:
            ts = _T(self.keyfun(frame))
            self.local.ts = ts
            self._arrive(ts)
        ts.depth += 1
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._line

    def _line(self, frame, event, arg):
        ts = getattr(self.local, "ts", None)
        if ts is None:
            return None
        if event == "line" or event == "opcode":
            self._point(ts, frame)
        elif event == "return":
            ts.depth -= 1
            if ts.depth == 0:
                self.local.ts = None
                self._finish(ts)
        return self._line

    # -- scheduling ------------------------------------------------------
    def _arrive(self, ts):
        with self.cv:
            self.threads.append(ts)
            if self.begun:
                ts.id = len(self.threads) - 1
            elif len(self.threads) >= self.expect:
                self._begin()
            end = time.time() + 3
            while not self.begun:
                self.cv.wait(0.2)
                if not self.begun and time.time() > end:
                    self._begin()
            if self.current is None or all(t.done for t in self.threads if t.id == self.current):
                self.current = ts.id
            self._wait(ts)

    def _begin(self):
        self.threads.sort(key=lambda t: t.key)
        for i, t in enumerate(self.threads):
            t.id = i
        self.begun = True
        self.current = self.start if self.start < len(self.threads) else 0
        self.cv.notify_all()

    def _wait(self, ts):
        while self.current != ts.id:
            before = self.ticks
            if not self.cv.wait(1.0) and self.ticks == before and self.current != ts.id:
                live = [t for t in self.threads if not t.done and t.id is not None]
                waiting = [t.id for t in live if t.id != self.current]
                if ts.id == min(waiting, default=ts.id):
                    self.stalls += 1
                    self.current = ts.id
        self.ticks += 1
        self.order.append(ts.id)

    def _point(self, ts, frame):
        with self.cv:
            self.ticks += 1
            ts.count += 1
            if self.record:
                ts.locs.append((frame.f_code.co_filename, frame.f_lineno))
            if self.current == ts.id:
                to = self.switches.get((ts.id, ts.count))
                if to is None:
                    return
                target = [t for t in self.threads if t.id == to and not t.done]
                if not target:
                    return
                self.taken += 1
                self.current = to
                self.cv.notify_all()
            self._wait(ts)

    def _finish(self, ts):
        with self.cv:
            self.ticks += 1
            ts.done = True
            if self.current == ts.id:
                left = sorted(t.id for t in self.threads if not t.done and t.id is not None)
                self.current = left[0] if left else None
                self.cv.notify_all()


def run_pool(fn, expect, plan, keyfun=None, **kw):
    """Run fn() in this thread; the threads it creates are controlled."""
    c = Controller(expect, plan, keyfun, **kw)
    threading.settrace(c.tracer)
    try:
        return c, fn()
    finally:
        threading.settrace(None)


def run_bodies(bodies, plan, **kw):
    """Run each body in a controlled thread; returns (controller, results)."""
    c = Controller(len(bodies), plan, **kw)
    res = [None] * len(bodies)
    rank = {}
    c.keyfun = lambda frame: rank[threading.get_ident()]

    def go(i):
        rank[threading.get_ident()] = i
        sys.settrace(c.tracer)
        ts = None
        try:
            res[i] = ("ok", bodies[i]())
        except Exception as e:  # noqa
            import traceback

            res[i] = ("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
        finally:
            sys.settrace(None)
            c.whole_finish(i)

    # the whole body is one controlled task: it does not end between calls
    def arrive(ts):
        Controller._arrive(c, ts)

    def finish(ts):  # outermost package frame left: the body goes on
        c.local.ts = ts

    def whole_finish(i):
        ts = getattr(c.local, "ts", None)
        if ts is not None and not ts.done:
            Controller._finish(c, ts)

    c._arrive, c._finish, c.whole_finish = arrive, finish, whole_finish
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(bodies))]
    for t in ths:
        t.start()
    for t in ths:
        t.join(60)
    return c, res
