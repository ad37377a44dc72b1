"""Deterministic threads: real threads, exactly one of which runs at any moment.

Every line of repository code a simulated thread is about to execute is a scheduling point.  The plan
lists the points (as fractions of the serial length) at which control is taken away and who gets it;
nothing else ever switches.  The same plan is the same interleaving.
"""
import sys
import threading

from . import env


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, n, preempt, ctx, budget=2_000_000):
        # preempt: sorted list of [step, thread]
        self.n = n
        self.preempt = sorted(([int(s), int(t)] for s, t in preempt), key=lambda p: p[0])
        self.pos = 0
        self.step = 0
        self.budget = budget
        self.ctx = ctx
        self.alive = set()
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.current = None
        self.switches = 0
        self.trace_log = []
        self.root = env.REPO.rstrip("/") + "/"
        self.over = False

    # -- called from simulated threads

    def point(self, frame):
        self.step += 1
        if self.step > self.budget:
            self.over = True
            raise Deadlock()
        if self.pos < len(self.preempt) and self.step >= self.preempt[self.pos][0]:
            target = self.preempt[self.pos][1]
            self.pos += 1
            others = sorted(self.alive - {self.current})
            if others:
                nxt = others[target % len(others)]
                self.switches += 1
                self.trace_log.append((self.step, self.current, nxt, frame.f_code.co_filename[len(self.root):], frame.f_lineno))
                me = self.current
                self.current = nxt
                self.go[nxt].release()
                self.go[me].acquire()

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._local

    def _body(self, i, fn, out):
        self.go[i].acquire()
        sys.settrace(self._tracer)
        try:
            out[i] = ("ok", fn())
        except BaseException as e:
            out[i] = ("raised", e)
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.alive:
                nxt = min(self.alive)
                self.current = nxt
                self.go[nxt].release()
            else:
                self.done.release()

    def run(self, fns):
        out = [None] * self.n
        ts = [threading.Thread(target=self._body, args=(i, f, out), daemon=True) for i, f in enumerate(fns)]
        self.alive = set(range(self.n))
        for t in ts:
            t.start()
        self.current = 0
        self.go[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        return out


def serial_length(fns):
    """Scheduling points of a serial execution (dry run on throw-away models)."""
    s = Scheduler(len(fns), [], None)
    s.run(fns)
    return s.step
