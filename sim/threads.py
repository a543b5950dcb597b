"""
A seeded scheduler for threads inside the simulated program: exactly one
thread runs at a time; at every density evaluation the running thread hands
the decision to the scheduler.  Real threads, simulated scheduling.
"""
import threading

from .core import HarnessError


class Scheduler:
    def __init__(self, rng, burst, preempt):
        self.rng, self.burst, self.preempt = rng, burst, preempt
        self.sem = {}
        self.ready = []
        self.ident = {}
        self.left = 0
        self.switches = 0
        self.decisions = 0
        self.error = {}
        self.done = threading.Semaphore(0)

    def run(self, jobs):
        """jobs: list of callables; returns their results (exceptions included)."""
        out = [None] * len(jobs)
        threads = []
        for k, job in enumerate(jobs):
            self.sem[k] = threading.Semaphore(0)
            threads.append(threading.Thread(target=self._body, args=(k, job, out), daemon=True))
            self.ready.append(k)
        for t in threads:
            t.start()
        self._pick(None)
        if not self.done.acquire(timeout=200):
            raise HarnessError('threads: no progress')
        for t in threads:
            t.join(20)
        return out

    def _body(self, k, job, out):
        self.ident[threading.get_ident()] = k
        self.sem[k].acquire()
        try:
            out[k] = ('ok', job())
        except BaseException as e:      # noqa
            out[k] = ('raised', e)
        self.ready.remove(k)
        if self.ready:
            self._pick(None)
        else:
            self.done.release()

    def _pick(self, current):
        k = self.rng.choice(self.ready)
        self.left = self.rng.randrange(1, self.burst + 1)
        self.decisions += 1
        if k != current:
            self.switches += 1
            self.sem[k].release()
            return True
        return False

    def hook(self, *_):
        k = self.ident.get(threading.get_ident())
        if k is None:
            return
        self.left -= 1
        if self.left <= 0 and len(self.ready) > 1:
            if self._pick(k):
                self.sem[k].acquire()
