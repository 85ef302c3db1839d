"""Runs calls on threads that take turns at chosen points of the tree's own code.

A thread counts the lines it executes in files of lsst.skymap; at a chosen bytecode of a chosen line the turn
passes to the other.  A thread that does not get on (it waits for a lock the other holds) loses its turn.
"""
import sys
import threading
import time

from . import env

STALL = 0.25
GIVE_UP = 45.0


class Deadlock(Exception):
    pass


def record(call):
    """The result of a call made alone, and the place (code, line) of each line run in the tree."""
    places = []
    out = []

    def local(frame, event, arg):
        if event == "line":
            places.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def start(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(env.SKYMAP_DIR) else None

    def body():
        sys.settrace(start)
        try:
            out.append(("value", call()))
        except Exception as e:
            out.append(("error", e))
        finally:
            sys.settrace(None)
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join()
    return out[0], places


class _Schedule:
    def __init__(self, calls, switches):
        self.cond = threading.Condition()
        self.calls, self.switches = calls, switches
        self.turn = self.ticks = 0
        self.done = [False]*len(calls)
        self.out = [None]*len(calls)

    def passOn(self, i):
        with self.cond:
            for k in range(1, len(self.calls)):
                j = (i + k) % len(self.calls)
                if not self.done[j]:
                    self.turn = j
                    break
            self.ticks += 1
            self.cond.notify_all()

    def wait(self, i):
        with self.cond:
            seen, since = self.ticks, time.monotonic()
            begun = since
            while self.turn != i:
                self.cond.wait(STALL/4)
                now = time.monotonic()
                if self.ticks != seen:
                    seen, since = self.ticks, now
                elif now - since > STALL:
                    self.turn = i
                    self.ticks += 1
                if now - begun > GIVE_UP:
                    raise Deadlock()

    def tracer(self, i):
        cuts = list(self.switches[i])
        lines = 0
        left = None  # bytecodes to go before the switch

        def switch():
            nonlocal left
            left = None
            cuts.pop(0)
            self.passOn(i)
            self.wait(i)

        def local(frame, event, arg):
            nonlocal lines, left
            if self.turn != i:
                self.wait(i)
            if event == "line":
                self.ticks += 1
                lines += 1
                if cuts and left is None and lines >= cuts[0][0]:
                    left = cuts[0][1]
                    frame.f_trace_opcodes = True
                if left == 0:
                    switch()
            elif event == "opcode" and left is not None:
                left -= 1
                if left <= 0:
                    switch()
            return local if cuts else None

        def start(frame, event, arg):
            return local if cuts and frame.f_code.co_filename.startswith(env.SKYMAP_DIR) else None
        return start

    def body(self, i):
        self.wait(i)
        if self.switches[i]:
            sys.settrace(self.tracer(i))
        try:
            self.out[i] = ("value", self.calls[i]())
        except Exception as e:
            self.out[i] = ("error", e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.passOn(i)


def interleave(calls, switches):
    """Results of the calls; thread i passes its turn on at each (line count, bytecodes more) in switches[i]."""
    s = _Schedule(calls, switches)
    threads = [threading.Thread(target=s.body, args=(i,), daemon=True) for i in range(len(calls))]
    for t in threads:
        t.start()
    end = time.monotonic() + GIVE_UP
    for t in threads:
        t.join(max(0.01, end - time.monotonic()))
    if any(t.is_alive() for t in threads):
        raise Deadlock()
    return s.out
