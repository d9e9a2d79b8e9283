"""Runs jobs in forked worker processes; survives a worker that dies or does not answer."""
import multiprocessing as mp
import os
import signal
import time
from multiprocessing.connection import wait

PER_WORKER = 12


def _loop(conn, fn):
    n = 0
    while n < PER_WORKER:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        conn.send(fn(job))
        n += 1
    conn.close()
    os._exit(0)


class Sched:
    def __init__(self, fn, jobs, n, deadline, grace=60):
        self.fn, self.jobs, self.n, self.deadline, self.grace = fn, list(jobs), n, deadline, grace
        self.ctx = mp.get_context("fork")
        self.live = {}      # connection -> [process, job, jobs done]

    def start(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_loop, args=(b, self.fn), daemon=True)
        p.start()
        b.close()
        self.live[a] = [p, None, 0]
        self.give(a)

    def give(self, conn):
        w = self.live[conn]
        if w[2] >= PER_WORKER or not self.jobs:
            self.drop(conn)
            if self.jobs:
                self.start()
            return
        w[1] = self.jobs.pop(0)
        w[2] += 1
        conn.send(w[1])

    def drop(self, conn, kill=False):
        p = self.live.pop(conn)[0]
        if not kill:
            try:
                conn.send(None)
            except OSError:
                kill = True
        conn.close()
        if kill:
            try:
                os.kill(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        p.join(10)

    def results(self):
        """yields (job, result) or (job, None) for a job whose worker was lost"""
        for _ in range(min(self.n, len(self.jobs))):
            self.start()
        while self.live:
            left = self.deadline + self.grace - time.time()
            ready = wait(list(self.live), timeout=max(1, left))
            if not ready and left <= 0:
                for c in list(self.live):
                    job = self.live[c][1]
                    self.drop(c, True)
                    yield job, None
                return
            for c in ready:
                if c not in self.live:
                    continue
                job = self.live[c][1]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    self.drop(c, True)
                    yield job, None
                    if self.jobs:
                        self.start()
                    continue
                self.give(c)
                yield job, r

    def stop(self):
        for c in list(self.live):
            self.drop(c, True)
