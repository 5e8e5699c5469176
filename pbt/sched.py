"""Threads under a schedule: which one runs is decided at every step.

A thread holds the baton while it runs. After the number of steps (lines or
bytecode instructions of the code under test) that the schedule gives it, it
hands the baton on. Nothing but the schedule decides the interleaving, so a case
runs the same way again. Should a thread that holds the baton have to wait for
another one (the code under test may use locks), the others go on after a while.
"""
import queue
import sys
import threading

import env

STUCK = 0.5


class Run:
    def __init__(self, jobs, schedule, fine=False):
        self.jobs, self.schedule, self.fine = jobs, list(schedule), fine
        self.n = len(jobs)
        self.results = [None] * self.n
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.back = queue.SimpleQueue()
        self.left = [0] * self.n
        self.done = [False] * self.n
        self.switches = 0
        self.steps = 0

    def _step(self, i):
        self.steps += 1
        self.left[i] -= 1
        if self.left[i] <= 0:
            self.back.put(i)
            self.go[i].acquire()

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self._step(i)
            return local

        def on_call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(env.SRC):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return on_call

    def _thread(self, i):
        self.go[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            self.results[i] = ("ended", self.jobs[i]())
        except BaseException as e:
            self.results[i] = ("raised", e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.put(i)

    def run(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        out = set()  # threads that keep the baton, waiting for another one
        k = at = 0
        ended = set()

        def heard(i):
            """Thread i has handed its baton back, or has ended."""
            out.discard(i)
            if self.done[i]:
                ended.add(i)

        while len(ended) < self.n:
            free = [i for i in range(self.n) if i not in ended and i not in out]
            if not free:
                heard(self.back.get())
                continue
            at = min(free, key=lambda i: ((i - at - 1) % self.n))
            budget = self.schedule[k] if k < len(self.schedule) else 10 ** 9
            k += 1
            self.left[at] = budget
            self.switches += 1
            self.go[at].release()
            while True:
                try:
                    i = self.back.get(timeout=STUCK if len(ended) + 1 < self.n else None)
                except queue.Empty:
                    out.add(at)
                    break
                heard(i)
                if i == at:
                    break
        for t in threads:
            t.join()
        return self.results
