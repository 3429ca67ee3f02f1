"""A deterministic scheduler for Python threads: one thread runs at a time, and a schedule says after
how many lines (or bytecodes) of the package under test the next thread takes over."""
import os
import sys
import threading

STUCK = 2.0


class Weave:
    """Run functions in one thread each, interleaved by `schedule` (steps before each switch).

    A thread that does not give the turn back in time (it waits for something another thread holds)
    dissolves the schedule: all threads then run freely. That is no failure."""

    def __init__(self, fns, schedule, opcodes=False):
        import webauthn_rp
        self.root = os.path.dirname(os.path.abspath(webauthn_rp.__file__)) + os.sep
        self.fns = fns
        self.schedule = list(schedule)
        self.opcodes = opcodes
        self.turn = [threading.Semaphore(0) for _ in fns]
        self.live = [True] * len(fns)
        self.free = False
        self.budget = self.next_budget()
        self.results = [None] * len(fns)
        self.switches = 0
        self.steps = [0] * len(fns)

    def next_budget(self):
        return self.schedule.pop(0) if self.schedule else None

    def follower(self, i):
        n = len(self.fns)
        for d in range(1, n):
            if self.live[(i + d) % n]:
                return (i + d) % n
        return None

    def tick(self, i):
        self.steps[i] += 1
        if self.free or self.budget is None:
            return
        self.budget -= 1
        if self.budget > 0:
            return
        self.switch(i)

    def switch(self, i):
        """Hand the turn to the next live thread and wait to get it back."""
        if self.free:
            return
        j = self.follower(i)
        if j is None:
            return
        self.budget = self.next_budget()
        self.switches += 1
        self.turn[j].release()
        if not self.turn[i].acquire(timeout=STUCK):
            self.free = True

    def tracer(self, i):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.tick(i)
            return local

        def on_call(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.root):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return on_call

    def body(self, i):
        if not self.turn[i].acquire(timeout=STUCK * len(self.fns) * 2):
            self.free = True
        sys.settrace(self.tracer(i))
        try:
            self.results[i] = ('done', self.fns[i]())
        except BaseException as e:
            self.results[i] = ('raised', e)
        finally:
            sys.settrace(None)
            self.live[i] = False
            j = self.follower(i)
            if j is not None:
                self.turn[j].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i, ), daemon=True)
                   for i in range(len(self.fns))]
        for t in threads:
            t.start()
        self.turn[0].release()
        for t in threads:
            t.join(60)
        return self.results
