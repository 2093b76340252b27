"""Deterministic interleaving of threads: exactly one runs at a time, and control passes between
them only at line boundaries of torchimage code, as a generated schedule dictates."""
import functools
import os
import sys
import threading

from .boot import REPO

ROOT = os.path.realpath(os.path.join(REPO, "torchimage")) + os.sep

@functools.lru_cache(None)
def ours(f):
    return os.path.realpath(f).startswith(ROOT)


STALL = 5.0  # seconds without a statement executed anywhere


class Sched:
    def __init__(self, n, segments):
        self.n, self.segments = n, [(t % n, k) for t, k in segments]
        self.cv = threading.Condition()
        self.keep = False
        self.done = [False] * n
        self.pos = -1
        self.turn, self.left = 0, 0
        self.switches = 0
        self.lines = [0] * n
        self.log = []  # (file, line) of every statement, in the order executed
        self.total = 0

    def _next(self, t, stalled=False):
        """called with the lock held: choose who runs now"""
        old = t
        while True:
            self.pos += 1
            if self.pos < len(self.segments):
                who, k = self.segments[self.pos]
            else:
                live = [i for i in range(self.n) if not self.done[i]]
                if not live:
                    return
                if stalled and len(live) > 1:
                    live = [i for i in live if i != t]
                who, k = live[0], 1 << 60
            if not self.done[who] and not (stalled and who == t and self.pos < len(self.segments)):
                self.turn, self.left = who, k
                break
        if self.turn != old and not self.done[old]:
            self.switches += 1
        self.cv.notify_all()

    def point(self, t, frame=None):
        with self.cv:
            self.lines[t] += 1
            if frame is not None and self.keep:
                self.log.append((frame.f_code.co_filename, frame.f_lineno))
            self.total += 1
            if self.turn == t:
                self.left -= 1
                if self.left <= 0:
                    self._next(t)
            self._await(t)

    def _await(self, t):
        while self.turn != t:
            seen = self.total
            if not self.cv.wait(STALL) and self.turn != t and self.total == seen:
                # whoever has the turn is blocked (say, on a lock another thread holds): pass it on
                self._next(self.turn, stalled=True)

    def run(self, jobs):
        """jobs: functions without arguments; returns [(value, None) or (None, exception)]"""
        out = [None] * self.n

        def body(t):
            def local(frame, event, arg):
                if event == "line":
                    self.point(t, frame)
                return local

            def tracer(frame, event, arg):
                if event == "call" and ours(frame.f_code.co_filename):
                    return local
                return None
            with self.cv:
                self._await(t)
            sys.settrace(tracer)
            try:
                out[t] = (jobs[t](), None)
            except BaseException as e:
                out[t] = (None, e)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.done[t] = True
                    self._next(t)
        ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(self.n)]
        with self.cv:
            self._next(0)
        self.switches = 0
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out
