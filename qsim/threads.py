"""Cooperative scheduler for real threads: exactly one runs at any time.

Every executed source line of the library (or every bytecode instruction, if
asked) is a preemption point where a seeded scheduler may park the running
thread and resume another one.  Locks that the library creates are simulated,
so a thread that waits for a lock is parked too and a deadlock is detected.
"""
import threading
import _thread

from . import env, lines

_real_lock = _thread.allocate_lock
current = None          # the Scheduler in charge, or None


class Deadlock(Exception):
    pass


class Killed(BaseException):
    """Ends the threads that are left when the run is abandoned."""


class Scheduler:
    def __init__(self, rng, policy):
        self.rng = rng
        self.policy = policy
        self.gates = []
        self.alive = set()
        self.blocked = {}
        self.running = None
        self.left = 0
        self.count = 0
        self.switches = 0
        self.trace = []
        self.budget = None
        self.over = _real_lock()
        self.over.acquire()
        self.deadlock = False
        self.ids = {}
        self.places = set()
        if policy['kind'] == 'changes':
            self.points = sorted(policy['points'])
        self.meet = [list(p) for p in policy['points']] if policy['kind'] == 'meet' else None
        self.own = {}
        self.quantum()

    # -- decisions -----------------------------------------------------

    def quantum(self):
        p = self.policy
        if p['kind'] == 'quantum':
            self.left = 1 + int(self.rng.expovariate(1.0 / p['mean']))
        elif p['kind'] == 'changes':
            later = [x for x in self.points if x > self.count]
            self.left = (later[0] - self.count) if later else (1 << 60)
        elif p['kind'] == 'meet':
            self.left = 1 << 60
        else:
            self.left = 1

    def choose(self, exclude=None):
        ready = [t for t in sorted(self.alive) if t not in self.blocked and t != exclude]
        if not ready:
            return None
        return self.rng.choice(ready)

    # -- control -------------------------------------------------------

    def point(self, code, line):
        """Called at each preemption point, on the running thread."""
        me = self.running
        if me is None or self.ids.get(_thread.get_ident()) != me:
            return
        self.count += 1
        self.left -= 1
        if self.meet is not None:
            n = self.own[me] = self.own.get(me, 0) + 1
            mine = self.meet[me] if me < len(self.meet) else ()
            if mine and n >= mine[0]:
                mine.pop(0)
                nxt = self.choose(exclude=me)
                if nxt is not None:
                    self.places.add((code.co_qualname, line))
                    self.trace.append((self.count, me, nxt, code.co_qualname))
                    self.go(nxt)
                return
        if self.budget is not None and self.count > self.budget:
            self.budget = None
            raise lines.StepBudgetExceeded('more than the allowed number of steps in {} line {}'.format(code.co_qualname, line))
        if self.left <= 0:
            self.quantum()
            nxt = self.choose()
            if nxt != me:
                self.places.add((code.co_qualname, line))
                self.trace.append((self.count, me, nxt, code.co_qualname))
                self.go(nxt)

    def go(self, nxt):
        """Hand over to another thread, wait until resumed."""
        me = self.running
        self.switches += 1
        self.running = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()
        if self.deadlock:
            raise Killed()

    def block(self, key):
        """The running thread cannot go on until key is free."""
        me = self.running
        self.blocked[me] = key
        nxt = self.choose()
        if nxt is None:
            self.deadlock = True
            self.over.release()
            raise Killed()
        self.quantum()
        self.go(nxt)

    def unblock(self, key):
        for t in [t for (t, k) in self.blocked.items() if k is key]:
            del self.blocked[t]

    # -- running -------------------------------------------------------

    def run(self, bodies):
        global current
        out = [None] * len(bodies)

        def main(i):
            self.gates[i].acquire()
            if self.deadlock:
                return
            self.ids[_thread.get_ident()] = i
            try:
                out[i] = ('returned', bodies[i]())
            except Killed:
                return
            except BaseException as e:
                out[i] = ('raised', e)
            self.ids.pop(_thread.get_ident(), None)
            self.alive.discard(i)
            nxt = self.choose()
            if nxt is None:
                if self.alive:
                    self.deadlock = True
                self.running = None
                self.over.release()
                return
            self.quantum()
            self.running = nxt
            self.gates[nxt].release()

        threads = []
        for i in range(len(bodies)):
            g = _real_lock()
            g.acquire()
            self.gates.append(g)
            self.alive.add(i)
        for i in range(len(bodies)):
            threads.append(_thread.start_new_thread(main, (i,)))
        current = self
        self.running = self.choose()
        self.gates[self.running].release()
        self.over.acquire()
        current = None
        return out


class SimLock:
    """threading.Lock / RLock as seen by the library."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        tries = 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s = current
            if s is None or s.ids.get(me) is None:
                raise env.HarnessError('lock held outside the simulation')
            if timeout is not None and timeout >= 0 and tries > 3:
                return False
            tries += 1
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != self._me()):
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = current
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()
        return False


_patched = False


def patch_locks():
    """Locks created by the library's own source files are simulated."""
    global _patched
    if _patched:
        return
    _patched = True
    import sys
    real = {'Lock': threading.Lock, 'RLock': threading.RLock}

    def factory(name, reentrant):
        def make(*args, **kw):
            frame = sys._getframe(1)
            if frame.f_code.co_filename.startswith(env.REPO):
                return SimLock(reentrant)
            return real[name](*args, **kw)
        make.__name__ = name
        return make
    threading.Lock = factory('Lock', False)
    threading.RLock = factory('RLock', True)
