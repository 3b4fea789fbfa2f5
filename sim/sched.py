"""Cooperative scheduler over real threads: exactly one thread runs, and the scenario decides who is next at every yield point.

Yield points: every executed line (optionally every bytecode) of the code under test, every socket operation, every lock operation,
every sleep. A schedule is a set of (step, target) switches, hence one schedule is one exactly repeatable execution.
"""
import random
import sys
import threading
import _thread

from . import world as wd

REAL_LOCK = _thread.allocate_lock


class Deadlock(BaseException):
    pass


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.state = "ready"          # ready, sleeping, blocked, done
        self.wake = 0.0
        self.lock = None
        self.ident = None
        self.steps = 0
        self.result = None
        self.error = None


class Sched:
    def __init__(self, prefix, plan, opcodes=False, max_steps=30_000_000):
        """plan: {"seed":, "mode":, ...} or {"switches": [[step, task], ...]}"""
        self.prefix = prefix
        self.tasks = []
        self.cur = None
        self.step = 0
        self.taken = []
        self.opcodes = opcodes
        self.world = None
        self.max_steps = max_steps
        self.main = REAL_LOCK()
        self.main.acquire()
        self.explicit = None
        self.nswitch = 0
        self.interleave = 0
        if "switches" in plan:
            self.explicit = {s: t for s, t in plan["switches"]}
            self.first = plan.get("first", 0)
            self.rng = None
        else:
            self.rng = random.Random(plan["seed"])
            self.mode = plan["mode"]
            self.q = plan.get("q", 0.01)
            self.first = None
            self.points = set(plan.get("points", []))
            self.gap = 0
            self.hot = "/" + plan.get("hot", "")
            self.cold = plan.get("cold", 0.0)
        self.in_hot = False
        self.dead = None
        self.tick = plan.get("tick", 0.0)      # virtual seconds one step of computation takes
        self.next_wake = None

    # -- API used by the simulated world -------------------------------------
    def mine(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    def sleep(self, dt):
        t = self.cur
        t.state, t.wake = "sleeping", self.world.now + dt
        if self.next_wake is None or t.wake < self.next_wake:
            self.next_wake = t.wake
        self._switch(self._pick(force=True))

    def yield_point(self, what):
        if not self.mine():
            return
        self.step += 1
        self.cur.steps += 1
        if self.step > self.max_steps:
            self.world.raise_hang(f"more than {self.max_steps} steps")
        if self.tick:
            self.world.now += self.tick
            if self.next_wake is not None and self.world.now >= self.next_wake:
                self._wake()
        nxt = self._decide()
        if nxt is not None and nxt is not self.cur:
            self.taken.append([self.step, nxt.i])
            self._switch(nxt)

    def _wake(self):
        self.next_wake = None
        for t in self.tasks:
            if t.state == "sleeping":
                if t.wake <= self.world.now:
                    t.state = "ready"
                elif self.next_wake is None or t.wake < self.next_wake:
                    self.next_wake = t.wake

    def _decide(self):
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            if t is None or t >= len(self.tasks) or self.tasks[t].state != "ready":
                return None
            return self.tasks[t]
        if self.mode == "points":
            if self.step not in self.points:
                return None
        elif self.mode == "hot":
            # switches cluster in one source file
            if self.rng.random() >= (self.q if self.in_hot else self.cold):
                return None
        elif self.gap > 0:
            self.gap -= 1
            return None
        else:
            # geometric gaps: one random draw per switch instead of one per line
            self.gap = int(self.rng.expovariate(self.q)) if self.q < 1 else 0
        r = [t for t in self.tasks if t.state == "ready" and t is not self.cur]
        return self.rng.choice(r) if r else None

    def _pick(self, force=False):
        """Someone who can run; advances virtual time when all are asleep."""
        while True:
            r = [t for t in self.tasks if t.state == "ready"]
            if r:
                # whom to run when the current task cannot go on is fixed (not a scheduling decision): the lowest number
                return r[0]
            s = [t for t in self.tasks if t.state == "sleeping"]
            if not s:
                return None
            w = min(t.wake for t in s)
            self.world.now = max(self.world.now, w)
            self._wake()

    def _switch(self, nxt):
        me = self.cur
        if nxt is me:
            return
        if nxt is None:
            if any(t.state == "blocked" for t in self.tasks):
                self.dead = "all threads wait for locks"
                self.world.hang = self.world.hang or self.dead
                for t in self.tasks:
                    if t.state == "blocked":
                        t.state = "ready"
                nxt = self._pick()
                if nxt is me:
                    raise Deadlock(self.dead)
            else:
                self.main.release()
                return
        self.nswitch += 1
        self.cur = nxt
        nxt.sem.release()
        if me is not None and me.state != "done":
            me.sem.acquire()
            if self.dead:
                raise Deadlock(self.dead)

    # -- tracing --------------------------------------------------------------
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.explicit is None:
                self.in_hot = frame.f_code.co_filename.endswith(self.hot)
            self.yield_point("line")
            self.in_hot = False
        return self.local

    # -- running ----------------------------------------------------------------
    def _body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        sys.settrace(self.trace)
        try:
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.state = "done"
            n = self._pick()
            if n is None and any(x.state == "blocked" for x in self.tasks):
                self.dead = "all threads wait for locks"
                self.world.hang = self.world.hang or self.dead
                for x in self.tasks:
                    if x.state == "blocked":
                        x.state = "ready"
                n = self._pick()
            if n is None:
                self.cur = None
                self.main.release()
            else:
                self.cur = n
                n.sem.release()

    def run(self, fns, world):
        self.world = world
        self.tasks = [Task(i, fn) for i, fn in enumerate(fns)]
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        if self.first is None:
            self.first = self.rng.randrange(len(self.tasks))
        self.cur = self.tasks[self.first % len(self.tasks)]
        self.cur.sem.release()
        self.main.acquire()
        return self.tasks


ACTIVE = None


class SimLock:
    """Replaces threading.Lock/RLock for the code under test: blocks in the simulator, not in the kernel."""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = ACTIVE
        if s is not None:
            s.yield_point("lock")
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if s is None or not s.mine():
                raise wd.HarnessError("lock contention outside the scheduler")
            if timeout is not None and timeout >= 0:
                s.sleep(timeout)
                if self.owner is not None:
                    return False
                break
            t = s.cur
            t.state, t.lock = "blocked", self
            s._switch(s._pick())
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = ACTIVE
            if s is not None:
                for t in s.tasks:
                    if t.state == "blocked" and t.lock is self:
                        t.state, t.lock = "ready", None
                s.yield_point("unlock")

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
