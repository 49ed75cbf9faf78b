"""The context of one simulated run: calls, faults, event log, verdict."""
import gc
import hashlib
import os
import sys
import traceback
import warnings

import numpy as np

from . import addr, env, lines, seams


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = detail


class Skip(Exception):
    """The run cannot be judged (recorded with its reason)."""


class Invalid(Exception):
    """The scenario makes no sense (only met while shrinking)."""


class Outcome:
    """What happened to one library call."""

    def __init__(self):
        self.ok = False
        self.value = None
        self.exc = None
        self.where = None
        self.lines = 0
        self.fired = None
        self.settings = None
        self.warnings = []
        self.out = ''
        self.err = ''
        self.solver_calls = 0
        self.solver_fired = []
        self.solver_log = []

    @property
    def hang(self):
        return isinstance(self.exc, lines.StepBudgetExceeded)

    def describe(self):
        if self.ok:
            return 'returned'
        return '{}: {} (at {})'.format(type(self.exc).__name__, str(self.exc)[:200], self.where)


DEFAULT_BUDGET = 3000000


def library_state():
    """Mutable objects that live in the library's modules, classes and functions."""
    out = []
    for name in sorted(sys.modules):
        m = sys.modules[name]
        if m is None or not (name == 'qosy' or name.startswith('qosy.')):
            continue
        for (k, v) in sorted(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, (dict, list, set, np.ndarray)):
                out.append(v)
            elif isinstance(v, type) and v.__module__ == name:
                out.extend(w for (a, w) in sorted(vars(v).items()) if not a.startswith('__') and isinstance(w, (dict, list, set, np.ndarray)))
                fns = [w for (_, w) in sorted(vars(v).items()) if hasattr(w, '__defaults__')]
                out.extend(d for w in fns for d in (w.__defaults__ or ()) if isinstance(d, (dict, list, set)))
            elif hasattr(v, '__defaults__') and getattr(v, '__module__', None) == name:
                out.extend(d for d in (v.__defaults__ or ()) if isinstance(d, (dict, list, set)))
                if v.__dict__:
                    out.append(v.__dict__)
            elif type(v).__module__ == name and hasattr(v, '__dict__'):
                out.append(v)
    return out


class Watch:
    """Notices changes of the mutable state of some objects, cheaply."""

    def __init__(self, objects):
        self.roots = objects
        self.keep = None
        self.collect()
        self.last = self.value()

    def collect(self):
        self.containers = []
        self.arrays = []
        todo = [(self.roots, 0)]
        seen = set()
        while todo and len(seen) < 400:
            (x, depth) = todo.pop()
            if id(x) in seen or depth > 6:
                continue
            if isinstance(x, np.ndarray):
                if x.dtype != object and x.size < 300:
                    self.arrays.append(x)
                    seen.add(id(x))
                continue
            if isinstance(x, dict):
                inner = list(x.values())
            elif isinstance(x, (list, tuple)):
                inner = x
            elif isinstance(x, set):
                inner = ()
            elif isinstance(x, (str, bytes, int, float, complex, type(None))) or type(x).__name__ == 'OperatorString':
                continue
            elif isinstance(getattr(x, '__dict__', None), dict) and not callable(x) and not isinstance(x, type):
                todo.append((x.__dict__, depth))
                continue
            else:
                continue
            seen.add(id(x))
            if not isinstance(x, tuple):
                self.containers.append(x)
            if len(inner) <= 24:
                todo.extend((y, depth + 1) for y in inner)

    def value(self):
        out = [len(c) for c in self.containers]
        out.extend([tuple(map(id, c.values() if isinstance(c, dict) else c)) for c in self.containers if len(c) <= 24 and not isinstance(c, set)])
        out.extend([a.tobytes() for a in self.arrays])
        return out

    def changed(self):
        v = self.value()
        if v == self.last:
            return False
        self.collect()
        self.last = self.value()
        return True


class Points:
    """Where a call could be interrupted, from an undisturbed trial run.

    watch: objects whose state is fingerprinted at every line, so that the
    instants right after a change (the middle of a compound update) are known.
    """

    def __init__(self, watch=None):
        self.watch = Watch([watch, library_state()]) if watch is not None else None
        self.n = 0
        self.first = {}
        self.changes = []

    def hook(self, code, line):
        self.n += 1
        key = (code.co_qualname, line)
        e = self.first.get(key)
        if e is None:
            self.first[key] = [self.n]
        elif len(e) < 40:
            e.append(self.n)
        if self.watch is not None and len(self.changes) < 4000:
            if self.watch.changed():
                self.changes.append(self.n)

    def places(self):
        return sorted(self.first.items())

    def pick(self, by, u, v=0.5):
        """A step (1-based), or None if nothing ran."""
        return pick_step(self.n, self.places(), self.changes, by, u, v)


def pick_step(n, places, changes, by, u, v=0.5):
    if n == 0:
        return None
    if by == 'change' and changes:
        return changes[int(u * len(changes)) % len(changes)]
    if by in ('place', 'change'):
        (_, when) = places[int(u * len(places)) % len(places)]
        return when[int(v * len(when)) % len(when)]
    return 1 + int(u * n)


BY = [(2, 'time'), (3, 'place'), (3, 'change')]


class Ctx:
    def __init__(self):
        self.faults_configured = {}
        self.faults_fired = {}
        self.probes = {}
        self.steps = 0
        self.calls = 0
        self.failed_calls = 0
        self.solver_calls = 0
        self.nontrivial = False
        self.digest = hashlib.sha256()
        self.nlog = 0
        self.functions = set()
        self.lines = 0
        self.trace = []
        self.keep_trace = False
        self.shape = hashlib.sha256()
        self.filters = []      # warning filters the library installed in this run

    # -- recording -----------------------------------------------------

    def log(self, *event):
        text = repr(event)
        self.digest.update(text.encode())
        self.digest.update(b'\n')
        self.nlog += 1
        if self.keep_trace:
            self.trace.append(text)

    def state(self, *parts):
        """Contributes to the measure of distinct executions."""
        self.shape.update(repr(parts).encode())

    def configured(self, kind, n=1):
        self.faults_configured[kind] = self.faults_configured.get(kind, 0) + n

    def fired(self, kind, n=1):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + n
        self.log('fault', kind, n)

    def cover(self, seen):
        mask = 0
        for place in seen:
            i = lines.TABLE.get(place)
            if i is not None:
                mask |= 1 << i
        self.lines |= mask

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, kind, detail):
        raise Violation(kind, detail)

    def check(self, condition, kind, detail):
        if not condition:
            raise Violation(kind, detail() if callable(detail) else detail)

    # -- running the code under test -----------------------------------

    def call(self, fn, *args, solver=None, at=None, exc=None, budget=DEFAULT_BUDGET, label=None,
             out=None, hook=None, warn_error=False, **kwargs):
        """Run one library call under simulation.

        solver: SolverSim in charge; at/exc: raise exc at that executed line;
        budget: maximum number of executed lines.
        """
        o = Outcome()
        sink = out if out is not None else seams.SimulatedOutput()
        solver = solver if solver is not None else seams.SolverSim('canon')
        errors = seams.SimulatedOutput()
        calls0 = solver.calls
        fired0 = len(solver.fired)
        log0 = len(solver.log)
        seen = set()
        settings0 = settings()
        st = lines.steps(budget=budget, at=at, exc=exc, seen=seen, hook=hook)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('error' if warn_error else 'always')
            if self.filters:
                # As in a real process, earlier calls' filters stay in force.
                warnings.filters[:0] = self.filters
                warnings._filters_mutated()
            base = list(warnings.filters)
            with seams.redirected(sink, errors), seams.scope(solver):
                try:
                    with st:
                        o.value = fn(*args, **kwargs)
                    o.ok = True
                except (Violation, Skip, Invalid, env.HarnessError):
                    raise
                except BaseException as e:
                    o.exc = e
                    o.where = _where(e)
            now = list(warnings.filters)
            if now != base:
                own = base[len(self.filters)]
                self.filters = now[:now.index(own)] if own in now else now
                self.log('warning filters changed', len(self.filters))
        o.settings = changed_settings(settings0)
        o.warnings = [str(w.message) for w in caught]
        o.lines = st.count
        o.fired = st.fired
        o.out = sink.text
        o.err = errors.text
        o.solver_calls = solver.calls - calls0
        o.solver_fired = solver.fired[fired0:]
        o.solver_log = solver.log[log0:]
        self.functions.update(q for (q, _) in seen)
        self.cover(seen)
        self.calls += 1
        self.steps += o.lines
        self.solver_calls += o.solver_calls
        if not o.ok:
            self.failed_calls += 1
        for (_, kind) in o.solver_fired:
            self.fired('solver-' + kind)
        if o.fired is not None:
            self.fired('line-' + type(exc).__name__)
        self.log('call', label or getattr(fn, '__name__', '?'), o.ok, type(o.exc).__name__, o.lines,
                 o.solver_calls, o.fired)
        return o

    def must_succeed(self, o, what):
        if o.hang:
            self.violate('no-progress', '{} did not finish within its step bound ({})'.format(what, o.where))
        if not o.ok:
            self.violate('unexpected-failure', '{} failed without any injected fault: {}'.format(what, o.describe()))
        return o.value


def settings():
    """Process-wide settings that no library call has any business with."""
    options = np.get_printoptions()
    return {'printoptions': {k: repr(v) for (k, v) in options.items()}, 'errstate': dict(np.geterr()), 'errcall': repr(np.geterrcall()),
            'recursionlimit': sys.getrecursionlimit(), 'cwd': os.getcwd(), 'environ': dict(os.environ),
            'excepthook': sys.excepthook, 'trace': sys.gettrace(), 'profile': sys.getprofile(), 'gc': gc.isenabled()}


def changed_settings(before):
    now = settings()
    if now == before:
        return None
    out = '; '.join('{}: {} -> {}'.format(k, before[k], now[k]) for k in sorted(before) if before[k] != now[k])
    return out[:500]


def _where(e):
    tb = e.__traceback__
    where = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(env.REPO):
            where = '{}:{} {}'.format(f.filename[len(env.REPO) + 1:], f.lineno, f.name)
    return where


def run(module, scenario, keep_trace=False):
    """Execute one scenario; returns a JSON-able record."""
    from . import model
    ctx = Ctx()
    ctx.keep_trace = keep_trace
    seams.seed_randomness(int(scenario.get('seed', 0)))
    addr.reset(int(scenario.get('seed', 0)))
    record = {'violation': None, 'skip': None, 'error': None}
    gc.disable()        # objects in cycles die when addr.collect() says so
    try:
        with np.errstate(), np.printoptions():
            module.execute(scenario, ctx)
    except Violation as v:
        record['violation'] = {'kind': v.kind, 'detail': str(v.detail)[:2000]}
    except Skip as s:
        record['skip'] = str(s)
    except model.Ambiguous as a:
        record['skip'] = 'numerically ambiguous'
    except Invalid as i:
        record['error'] = 'invalid scenario: {}'.format(i)
    except (env.HarnessError, MemoryError, OSError):
        record['error'] = traceback.format_exc()[-3000:]
    except Exception as e:
        # The machinery could not make sense of what the library returned.
        tb = traceback.format_exc()
        last = traceback.extract_tb(e.__traceback__)[-1]
        if getattr(module, 'STRICT', False):
            record['error'] = tb[-3000:]
        else:
            record['violation'] = {'kind': 'malformed-result',
                                   'detail': '{}: {} at {}:{}'.format(type(e).__name__, str(e)[:300], last.filename.split('/')[-1], last.name),
                                   'traceback': tb[-2500:]}
    gc.enable()
    if addr.current.used:
        ctx.probe('id-asked')
        ctx.probe('addresses-reused', addr.current.reused)
    if record['violation'] is not None:
        ctx.log('violation', record['violation']['kind'], record['violation']['detail'])
    record.update({
        'configured': ctx.faults_configured, 'fired': ctx.faults_fired, 'probes': ctx.probes,
        'steps': ctx.steps, 'calls': ctx.calls, 'failed': ctx.failed_calls, 'solver_calls': ctx.solver_calls,
        'nontrivial': ctx.nontrivial, 'digest': ctx.digest.hexdigest(), 'shape': ctx.shape.hexdigest()[:16],
        'functions': sorted(ctx.functions), 'lines': '{:x}'.format(ctx.lines),
    })
    if keep_trace:
        record['trace'] = ctx.trace
    return record
