"""Runs functions in threads under a schedule: one thread runs at a time, and the
baton passes after a given number of steps (lines or byte code instructions of
the package), so a schedule is data that replays.

If the thread that holds the baton does not get on (it waits for a lock that
another thread holds), all threads run freely from there on.
"""

import sys
import threading

from lib import sut

STALL = 0.5  # seconds without a step


class Baton:
    def __init__(self, n, gaps, opcodes):
        self.n = n
        self.gaps = gaps or [50]
        self.opcodes = opcodes
        self.cond = threading.Condition()
        self.holder = 0
        self.left = self.gaps[0]
        self.turn = 0
        self.steps = 0
        self.free = False
        self.alive = set(range(n))
        self.switches = 0
        self.inside = 0        # switches away from a thread that is inside the package
        self.prefix = sut.REPO

    # called with the baton in hand
    def pass_on(self):
        self.turn += 1
        self.left = self.gaps[self.turn % len(self.gaps)]
        if not self.alive:
            return
        order = sorted(self.alive)
        later = [i for i in order if i > self.holder]
        self.holder = (later or order)[0]
        self.switches += 1
        self.cond.notify_all()

    def wait_for(self, me):
        while self.holder != me and not self.free:
            before = self.steps
            if not self.cond.wait(STALL) and self.steps == before and self.holder != me:
                self.free = True
                self.cond.notify_all()

    def step(self, me):
        if self.free:
            return
        self.steps += 1
        self.left -= 1
        if self.left <= 0 and len(self.alive) > 1:
            with self.cond:
                self.inside += 1
                self.pass_on()
                self.wait_for(me)

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not self.opcodes):
                self.step(me)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.prefix):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return trace


def run(functions, gaps, opcodes=False, free=False):
    """Results of the functions ((True, value) or (False, exception)) and the baton."""
    b = Baton(len(functions), gaps, opcodes)
    b.free = free
    results = [None] * len(functions)

    def body(me):
        with b.cond:
            b.wait_for(me)
        if not free:
            sys.settrace(b.tracer(me))
        try:
            results[me] = True, functions[me]()
        except BaseException as e:
            results[me] = False, e
        finally:
            sys.settrace(None)
            with b.cond:
                b.alive.discard(me)
                if b.holder == me:
                    b.pass_on()
    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(functions))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
        if t.is_alive():
            raise sut.Violation("a thread hangs")
    return results, b
