"""A controlled scheduler: runs the workers of a parallel program as threads of which exactly one moves at a time, and
explores all schedules up to a number of preemptions, statelessly (every schedule is a fresh run)."""
import threading


class Killed(BaseException):
    """unwinds the threads of an abandoned run"""


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, sched, idx, func):
        self.idx, self.func, self.s = idx, func, sched
        self.go = threading.Semaphore(0)
        self.enabled = None         # predicate while waiting, else None
        self.done = False
        self.error = None
        self.label = "start"
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        try:
            if not self.s.kill:
                self.func()
        except Killed:
            pass
        except BaseException as e:      # the worker failed
            self.error = e
        self.done = True
        self.s.back.release()

    def ready(self):
        return not self.done and (self.enabled is None or self.enabled())


class Sched:
    """choices: indices into the list of ready tasks (current first), taken at the decision points; beyond them the
    current task continues, and where it cannot, the first ready one does"""

    def __init__(self, funcs, choices=(), max_steps=200000, local=None):
        self.tasks = [Task(self, i, f) for i, f in enumerate(funcs)]
        self.back = threading.Semaphore(0)
        self.choices = list(choices)
        self.kill = False
        self.cur = None
        self.trace = []             # (number of ready tasks, choice, preempting?) per decision
        self.steps = 0
        self.max_steps = max_steps
        self.log = []
        self.crash_at = None        # stop everything before this step
        self.crashed = False
        self.on_stuck = None        # called when every task waits; True: try again

    # -- called by the workers -------------------------------------------------------------
    def point(self, label, enabled=None):
        """a place where another worker may run first; with a predicate: wait until it holds"""
        t = self.cur
        if self.kill:
            raise Killed()
        t.label, t.enabled = label, enabled
        self.back.release()
        t.go.acquire()
        if self.kill:
            raise Killed()
        t.enabled = None

    def me(self):
        return self.cur.idx

    # -- the controller --------------------------------------------------------------------
    def run(self):
        for t in self.tasks:
            t.thread.start()
        last = None
        try:
            while True:
                ready = [t for t in self.tasks if t.ready()]
                if not ready:
                    if all(t.done for t in self.tasks):
                        return
                    if self.on_stuck is not None and self.on_stuck():
                        continue
                    raise Deadlock([(t.idx, t.label) for t in self.tasks if not t.done])
                if self.steps >= self.max_steps:
                    raise Deadlock("more than %d steps" % self.max_steps)
                if self.crash_at is not None and self.steps >= self.crash_at:
                    self.crashed = True
                    return
                still = last is not None and last in ready
                if still:
                    ready.remove(last)
                    ready.insert(0, last)
                k = 0
                if len(ready) > 1:
                    n = len(self.trace)
                    k = self.choices[n] if n < len(self.choices) else 0
                    self.trace.append((len(ready), k, still))
                self.cur = last = ready[k]
                self.log.append((last.idx, last.label))
                self.steps += 1
                last.go.release()
                self.back.acquire()
        finally:
            self.kill = True
            for t in self.tasks:
                if not t.done:
                    self.cur = t
                    t.go.release()
                    t.thread.join(20)


def explore(make, bound, limit=None, visit=None):
    """make(choices) -> finished Sched; enumerates every schedule with at most `bound` preemptions (switching away from a
    task that could continue; which task goes on when one blocks is always explored).  -> number of schedules, complete?"""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, used = stack.pop()
        if limit is not None and n >= limit:
            return n, False
        s = make(prefix)
        n += 1
        if visit is not None and visit(s, prefix):
            return n, False
        cost = sum(1 for (_, k, still) in s.trace[:len(prefix)] if k and still)
        for i in range(len(prefix), len(s.trace)):
            m, k, still = s.trace[i]
            if still and cost >= bound:
                continue
            for alt in range(1, m):
                stack.append((tuple(c[1] for c in s.trace[:i]) + (alt,), cost + (1 if still else 0)))
    return n, True


def explore_delays(make, bound, limit=None, visit=None, part=(0, 1)):
    """(part (i, m): only the i-th of m shares of the schedules that depart at all; the default one belongs to share 0)
    every schedule that departs at most `bound` times from the default one (taking the k-th ready task instead of the
    first costs k).  -> number of schedules, complete?"""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, used = stack.pop()
        if limit is not None and n >= limit:
            return n, False
        s = make(prefix)
        if prefix or part[0] == 0:
            n += 1
            if visit is not None and visit(s, prefix):
                return n, False
        done = tuple(c[1] for c in s.trace)
        for i in range(len(prefix), len(s.trace)):
            for alt in range(1, min(s.trace[i][0], bound - used + 1)):
                if prefix or i % part[1] == part[0]:
                    stack.append((done[:i] + (alt,), used + alt))
    return n, True
