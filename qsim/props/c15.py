"""C15: calls made from callbacks and signal handlers, in the middle of another call."""
import _thread
import json
import signal
import sys

import numpy as np

from .. import api, build, lines, seams, snap
from ..alone import alone, merge
from ..ctx import Invalid, Points, Skip, pick_step
from .c07 import compare, compare_state, same_objects, state_of, trimmed

RUNS = {'quick': 4000, 'thorough': 80000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
RULE = ('A run draws a call and one to four other calls that are made in the middle of it: by a real signal handler that the simulator makes due at a chosen executed line '
        "(by time, place or right after a change of the objects or of the library's own state), or by a user's function (transformation rule, search filter, norm, comparison) at a chosen call. Handlers may "
        'themselves be interrupted by handlers. Every result is compared with the same call alone in a pristine process, and a last call is made afterwards. Non-trivial when '
        'a nested call ran inside the library code of the outer one and both returned.')
REAL = ['every public function in qsim/api.py that does not plot; the Python signal machinery']
STUB = ['the instants at which signals become due', 'eigensolver answers (canonical)', 'standard output (one per call)']
SIGNAL = signal.SIGUSR1


def eligible(flags):
    return not flags.get('plots')


def busy(flags):
    return eligible(flags) and (flags.get('core') or flags.get('search'))


class _Trip:
    """Makes a signal due without letting the handler run at once.

    (A C function called through an operator: the interpreter looks for due
    signals after calls and at loop ends, so the handler runs when the
    interrupted library code gets there, as with a signal from outside.)
    """
    __add__ = _thread.interrupt_main


TRIP = _Trip()


def generate(rng, tier, index):
    (info, pool) = api.generate_pool(rng, tier)
    ruled = [n for n in ('t0', 't1') if pool[n]['spec']['kind'] == 'rule']
    call = api.generate_call(rng, info, rng.pick([(2, eligible), (1, busy)]), tier)
    if rng.chance(0.5):
        # a call that calls back
        for _ in range(40):
            c = api.generate_call(rng, info, eligible, tier)
            if set(ruled) & set(api.refs_of(c)) or calls_back(c):
                call = c
                break
    calls = [call]
    nested = []
    for _ in range(rng.pick([(4, 1), (3, 2), (1, 4)])):
        how = rng.pick([(2, 'random'), (1, 'busy'), (3, 'same'), (3, 'variant'), (4, 'objects')])
        if how == 'same':
            c = json.loads(json.dumps(rng.choice(calls)))
        elif how == 'variant':
            name = rng.choice(calls)['fn']
            c = api.TABLE[name][1](api.G(rng, info, tier)) | {'fn': name}
        elif how == 'objects':
            c = same_objects(rng, info, rng.choice(calls), tier)
            if c is None or not eligible(api.flags(c)):
                c = api.generate_call(rng, info, eligible, tier)
        else:
            c = api.generate_call(rng, info, busy if how == 'busy' else eligible, tier)
        calls.append(c)
        nested.append({'call': c, 'via': rng.pick([(4, 'signal'), (4, 'callback')]), 'by': rng.pick([(1, 'time'), (3, 'place'), (5, 'change')]),
                       'u': round(rng.random(), 6), 'v': round(rng.random(), 6), 'deep': rng.chance(0.25), 'own': rng.chance(0.15)})
    probe = same_objects(rng, info, call, tier)
    if probe is None or not eligible(api.flags(probe)):
        probe = api.generate_call(rng, info, eligible, tier)
    calls.append(probe)
    return {'info': info, 'pool': trimmed(pool, calls), 'call': call, 'nested': nested, 'probe': probe}


def calls_back(c):
    return c['fn'] in ('argsort', 'remove_duplicates') or c['fn'] == 'sci' and any(c['args'][1].get(k) for k in ('filter', 'trunc_filter', 'norm_fun', 'pre_filter'))


def reference(call, pool, places=False):
    def body(c):
        w = api.World(pool).build_all()
        points = Points(watch=w.objects) if places else None
        count = build.Callbacks.count
        r = api.invoke(c, w, call, budget=400000, hook=points.hook if places else None)
        if r.outcome.hang:
            raise Skip('the reference call is too long')
        return (r.key(), r.outcome.lines, build.Callbacks.count - count, points and (points.places(), points.changes))
    return alone(body)


class Nest:
    """Runs the nested calls when they are due."""

    def __init__(self, ctx, world, pool):
        (self.ctx, self.world, self.pool) = (ctx, world, pool)
        self.queue = []       # (line of the outer call, entry)
        self.due = []
        self.count = 0
        self.depth = 0
        self.results = []
        self.postponed = 0
        self.suspended = False
        self.callbacks = []
        self.first = build.Callbacks.count

    def hook(self, code, line):
        # (no call after the signal is made due: see _Trip)
        self.count += 1
        if self.due and not self.suspended:
            self.suspended = True
            TRIP + SIGNAL
            return
        if self.queue and self.count >= self.queue[0][0]:
            self.due.append(self.queue.pop(0)[1])
            self.suspended = True
            TRIP + SIGNAL

    def handler(self, signum, frame):
        self.suspended = False
        if not self.due:
            return
        f = frame
        inside = False
        while f is not None:
            name = f.f_code.co_filename
            if name == seams.__file__:
                # In the middle of the simulated solver: a little later.
                self.postponed += 1
                return
            if name == lines.__file__ or name.endswith('/qsim/ctx.py'):
                break
            inside = inside or 'qosy' in f.f_globals.get('__name__', '')
            f = f.f_back
        if not inside:
            return
        e = self.due.pop(0)
        self.run(e, frame.f_code.co_qualname, 'signal')

    def callback(self, index):
        if self.depth == 0:
            for (at, e) in self.callbacks:
                if at == index - self.first:
                    self.run(e, 'callback', 'callback')

    def run(self, entry, where, via):
        self.depth += 1
        # (only calls marked deep are themselves interrupted)
        (queue, self.queue) = (self.queue, self.queue if entry['deep'] else [])
        state = np.random.get_state()
        (out, err) = (sys.stdout, sys.stderr)
        sink = seams.SimulatedOutput()
        c = entry['call']
        world = api.World(self.pool).build_all() if entry['own'] else self.world
        args = [world.resolve(a) for a in c['args']]
        kw = {k: world.resolve(v) for (k, v) in c['kw'].items()}
        np.random.seed(12345)
        sys.stdout = sink
        try:
            got = ('returned', api.function(c)(*args, **kw))
        except Exception as e:
            got = ('raised', e)
        finally:
            (sys.stdout, sys.stderr) = (out, err)
            np.random.set_state(state)
            if not entry['deep']:
                self.queue = queue
            self.depth -= 1
        self.results.append((entry, got, sink.text, where))
        self.ctx.fired('nested-' + via)
        self.ctx.log('nested', c['fn'], where, got[0])


class Nested:
    def __init__(self, got, text):
        self.ok = got[0] == 'returned'
        self.value = got[1]
        self.text = text
        self.outcome = self

    def describe(self):
        return '{}: {}'.format(type(self.value).__name__, str(self.value)[:200])

    def key(self):
        if self.ok:
            return ('returned', snap.snap(self.value), self.text)
        return ('raised', type(self.value).__name__)


def execute(sc, ctx):
    (pool, call) = (sc['pool'], sc['call'])
    refs = {}
    for c in [call, sc['probe']] + [e['call'] for e in sc['nested']]:
        key = json.dumps(c, sort_keys=True)
        if key not in refs:
            (refs[key], stats) = reference(c, pool, places=c is call)
            merge(ctx, stats)
    (ref, n, ncallbacks, points) = refs[json.dumps(call, sort_keys=True)]
    (places, changes) = points
    world = api.World(pool).build_all()
    before = state_of(api.World(pool).build_all())
    nest = Nest(ctx, world, pool)
    total = n
    for e in sc['nested']:
        total += refs[json.dumps(e['call'], sort_keys=True)][1]
        if e['via'] == 'callback' and ncallbacks:
            ctx.configured('nested-callback')
            nest.callbacks.append((int(e['u'] * ncallbacks), e))
            continue
        ctx.configured('nested-signal')
        at = pick_step(n, places, changes, e['by'], e['u'], e['v'])
        if at is not None:
            nest.queue.append((at, e))
    nest.queue.sort(key=lambda x: x[0])
    old = signal.signal(SIGNAL, nest.handler)
    build.Callbacks.action = nest.callback
    try:
        r = api.invoke(ctx, world, call, hook=nest.hook, budget=20 * total + 20000)
    finally:
        nest.queue = []
        nest.due = []
        signal.signal(SIGNAL, old)
        build.Callbacks.action = None
    inner = [e['call']['fn'] for (e, _, _, _) in nest.results]
    ctx.state(call['fn'], tuple((e['call']['fn'], where) for (e, _, _, where) in nest.results), json.dumps(call, sort_keys=True))
    ctx.check(not r.outcome.hang, 'no-progress', lambda: '{} with {} nested in it did not finish within {} lines ({} alone)'.format(call['fn'], inner, 20 * total + 20000, total))
    for (e, got, text, where) in nest.results:
        x = Nested(got, text)
        ref2 = refs[json.dumps(e['call'], sort_keys=True)][0]
        compare(ctx, ref2, x, 'nested-call-differs', '{} made by a {} in the middle of {} (at {})'.format(
            e['call']['fn'], 'callback' if where == 'callback' else 'signal handler', call['fn'], where))
        ctx.log('result', snap.text(x.key()))
        ctx.probe('at-' + where)
    compare(ctx, ref, r, 'outer-call-differs', '{} with {} nested in it'.format(call['fn'], inner))
    compare_state(ctx, before, world, 'nested calls')
    if nest.results and r.ok:
        ctx.nontrivial = True
    p = api.invoke(ctx, world, sc['probe'])
    compare(ctx, refs[json.dumps(sc['probe'], sort_keys=True)][0], p, 'later-call-differs', '{} after {} with {} nested in it'.format(sc['probe']['fn'], call['fn'], inner))
    compare_state(ctx, before, world, 'the later call {}'.format(sc['probe']['fn']))
    ctx.log('result', snap.text(r.key()), snap.text(p.key()))
