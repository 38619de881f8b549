"""Real threads under a seeded cooperative scheduler.

Exactly one thread runs at a time: it holds the baton. Before every line (or every bytecode) of library code that a thread executes, and
between its operations, the scheduler decides whether the baton moves on, and to whom. All decisions come from the run's seeded generator, or
from an explicit list of (point, target) when a failure is being minimised or replayed; the points are numbered globally in order of
execution, so that equal decisions give equal executions."""
import os
import sys
import threading

from .core import Violation
from .env import REPO

LIB = os.path.join(os.path.realpath(REPO), "continual") + os.sep
POLL, STALL = 0.05, 4    # the baton holder counts as blocked (on a lock of the library) if it was asleep, at the same point, STALL polls in a row


def _prime():
    """CPython 3.12 instruments code for opcode events only from the first settrace() after some frame asked for them: without this the
    first run of a process would have fewer scheduling points than all others."""
    def local(frame, event, arg):
        return local

    def top(frame, event, arg):
        frame.f_trace_opcodes = True
        return local

    old = sys.gettrace()
    sys.settrace(top)
    try:
        (lambda: None)()
    finally:
        sys.settrace(old)


_prime()


class Scheduler:
    def __init__(self, fns, policy, opcodes=False):
        self.fns, self.policy, self.opcodes = fns, policy, opcodes
        self.n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(self.n))
        self.cur = -1
        self.tids = [None] * self.n
        self.point = 0
        self.taken = []          # the decisions that were made: (point, target)
        self.errors = [None] * self.n
        self.idle = threading.Event()
        self.blocked = set()

    # -- the seam: called with the baton

    def yield_point(self, me):
        self._wait(me)           # returns at once, unless the baton was taken from a blocked thread which is running again
        self.blocked.discard(me)
        self.point += 1
        if len(self.alive) > 1:
            target = self.policy(self.point, me, self.alive)
            if target is not None and target != me and target in self.alive:
                self.taken.append([self.point, target])
                self.cur = target
                self.sems[target].release()
                self._wait(me)

    def _wait(self, me):
        while self.cur != me:
            self.sems[me].acquire()

    def _finish(self, me):
        self._wait(me)
        self.alive.discard(me)
        if not self.alive:
            self.idle.set()
            return
        self.point += 1
        target = self.policy(self.point, me, self.alive, True)
        if target not in self.alive:
            target = min(self.alive)
        else:
            self.taken.append([self.point, target])
        self.cur = target
        self.sems[target].release()

    # -- tracing

    def _tracer(self, me):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.yield_point(me)
            return local

        def top(frame, event, arg):
            if event != "call" or not frame.f_code.co_filename.startswith(LIB):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.yield_point(me)
            return local

        return top

    def _body(self, me):
        self.tids[me] = threading.get_native_id()
        self._wait(me)
        try:
            sys.settrace(self._tracer(me))
            try:
                self.fns[me](me)
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            self.errors[me] = e
        finally:
            self._finish(me)

    def _asleep(self, i):
        try:
            with open(f"/proc/self/task/{self.tids[i]}/stat") as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "S"
        except (OSError, IndexError):
            return False

    def run(self):
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        first = self.policy(0, -1, self.alive, True)
        self.cur = first if first in self.alive else 0
        self.taken.append([0, self.cur])
        self.sems[self.cur].release()
        last, polls, rounds = -1, 0, 0
        while not self.idle.wait(POLL):
            if self.point != last:
                last, polls, rounds = self.point, 0, 0
            elif not self._asleep(self.cur):
                polls = 0
            else:
                polls += 1
                if polls < STALL:
                    continue
                polls, rounds = 0, rounds + 1
                if rounds > 5 * self.n:
                    raise Violation("deadlock", f"threads {sorted(self.alive)} make no progress any more")
                self.blocked.add(self.cur)  # another thread must release what it waits for
                rest = sorted(self.alive - self.blocked) or sorted(self.alive - {self.cur})
                if rest:
                    self.cur = rest[rounds % len(rest)]
                    self.sems[self.cur].release()
        for t in threads:
            t.join()


def random_policy(rng, p):
    """At every point, with probability p, any other thread continues."""
    def policy(point, me, alive, must=False):
        if must or rng.random() < p:
            others = sorted(alive - {me})
            return others[rng.randrange(len(others))] if others else None
        return None
    return policy


def priority_policy(rng, n, changes):
    """The runnable thread of highest priority runs; at a few random points the running thread drops to the lowest."""
    prio = list(range(n))
    rng.shuffle(prio)
    low = [-1]

    def policy(point, me, alive, must=False):
        if point in changes and me >= 0:
            prio[me] = low[0]
            low[0] -= 1
        elif not must:
            return None
        return max(sorted(alive), key=lambda i: prio[i])
    return policy


def list_policy(switches):
    table = {int(p): t for p, t in switches}

    def policy(point, me, alive, must=False):
        return table.get(point)
    return policy
