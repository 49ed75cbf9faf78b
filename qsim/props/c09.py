"""C09: concurrent callers sharing inputs each get the result they would get alone."""
import _thread
import json
import warnings

import numpy as np

from .. import api, lines, seams, snap, threads
from ..alone import alone, merge
from ..ctx import Invalid, Points, Skip, changed_settings, pick_step, settings
from ..rng import rng as make_rng
from .c07 import compare, same_objects, state_of, compare_state, trimmed

RUNS = {'quick': 4000, 'thorough': 60000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
RULE = ('A run starts 2 to 4 real threads, each making 1 to 3 public calls on shared objects (sometimes on equal copies), under a seeded scheduler that keeps exactly one thread '
        'running and may switch at every executed line (in a quarter of the runs: at every bytecode instruction) of the library; each result is compared with the same call alone in a '
        'pristine process. Non-trivial when at least two threads were interleaved inside library code (a switch while a call was under way) and a call succeeded.')
REAL = ['every public function in qsim/api.py that neither prints, plots nor draws random numbers; real Python threads']
STUB = ['the thread scheduler', 'eigensolver answers (canonical)', 'threading.Lock/RLock if the library creates any']


def eligible(flags):
    return not flags.get('prints') and not flags.get('plots') and not flags.get('random')


def busy(flags):
    return eligible(flags) and (flags.get('core') or flags.get('search'))


def generate(rng, tier, index):
    (info, pool) = api.generate_pool(rng, tier)
    n = rng.pick([(5, 2), (3, 3), (1, 4)])
    ths = []
    calls = []
    for t in range(n):
        mine = []
        for _ in range(rng.pick([(4, 1), (2, 2), (1, 3)])):
            how = rng.pick([(3, 'random'), (2, 'busy'), (3 if calls else 0, 'same'), (3 if calls else 0, 'variant'), (3 if calls else 0, 'objects')])
            if how == 'same':
                c = json.loads(json.dumps(rng.choice(calls)))
            elif how == 'variant':
                name = rng.choice(calls)['fn']
                c = api.TABLE[name][1](api.G(rng, info, tier)) | {'fn': name}
            elif how == 'objects':
                c = same_objects(rng, info, rng.choice(calls), tier)
                if c is None or not eligible(api.flags(c)):
                    c = api.generate_call(rng, info, eligible, tier)
            else:
                c = api.generate_call(rng, info, busy if how == 'busy' else eligible, tier)
            mine.append(c)
            calls.append(c)
        ths.append({'calls': mine, 'own': rng.chance(0.2)})
    kind = rng.pick([(3, 'quantum'), (1, 'changes'), (1, 'every'), (4, 'meet')])
    policy = {'kind': kind}
    if kind == 'quantum':
        policy['mean'] = rng.choice([2, 5, 20, 100, 500])
    elif kind == 'changes':
        policy['fractions'] = [round(rng.random(), 6) for _ in range(rng.randint(1, 6))]
    elif kind == 'meet':
        # each thread is parked at chosen places, while the others go on as far as they can
        policy['stops'] = [[[rng.randrange(len(t['calls'])), rng.pick([(1, 'time'), (2, 'place'), (4, 'change')]), round(rng.random(), 6), round(rng.random(), 6)]
                            for _ in range(rng.pick([(3, 1), (2, 2), (1, 4)]))] for t in ths]
    return {'info': info, 'pool': trimmed(pool, calls), 'threads': ths, 'policy': policy,
            'grain': 'line' if kind == 'meet' else rng.pick([(3, 'line'), (1, 'instruction')]),
            'schedule_seed': rng.randrange(10 ** 9)}


def execute(sc, ctx):
    pool = sc['pool']
    refs = {}
    total = 0
    meet = sc['policy']['kind'] == 'meet'
    for th in sc['threads']:
        for c in th['calls']:
            key = json.dumps(c, sort_keys=True)
            if key in refs:
                continue

            def body(x, c=c):
                w = api.World(pool)
                w.build_all()
                points = Points(watch=w.objects) if meet else None
                r = api.invoke(x, w, c, budget=400000, hook=points.hook if meet else None)
                if r.outcome.hang:
                    raise Skip('the reference call is too long')
                return (r.key(), r.outcome.lines, points and (points.places(), points.changes), tuple(r.outcome.warnings))
            (v, stats) = alone(body)
            merge(ctx, stats)
            refs[key] = v
    if len(sc['threads']) < 1:
        raise Invalid('no threads')
    total = sum(refs[json.dumps(c, sort_keys=True)][1] for th in sc['threads'] for c in th['calls'])
    shared = api.World(pool).build_all()
    before = state_of(api.World(pool).build_all())
    results = []
    policy = dict(sc['policy'])
    grain = 8 if sc['grain'] == 'instruction' else 1
    if policy['kind'] == 'changes':
        policy['points'] = sorted(1 + int(f * total * grain) for f in policy['fractions'])
    elif meet:
        policy['points'] = [stops(th, chosen, refs) for (th, chosen) in zip(sc['threads'], policy['stops'])]
    bodies = []
    for th in sc['threads']:
        world = api.World(pool).build_all() if th['own'] else shared
        prepared = [(api.function(c), [world.resolve(a) for a in c['args']], {k: world.resolve(v) for (k, v) in c['kw'].items()}) for c in th['calls']]
        slot = []
        results.append(slot)

        def run(prepared=prepared, slot=slot):
            for (fn, args, kw) in prepared:
                try:
                    slot.append(('returned', fn(*args, **kw)))
                except threads.Killed:
                    raise
                except Exception as e:
                    slot.append(('raised', e))
        bodies.append(run)
    sched = threads.Scheduler(make_rng('schedule', sc['schedule_seed']), policy)
    sched.budget = (20 * total + 20000) * grain
    out = seams.SimulatedOutput()
    told = [[] for _ in bodies]

    def tell(message):
        i = sched.ids.get(_thread.get_ident())
        if i is not None:
            told[i].append((len(results[i]), str(message.message)))
    lines.listen(sc['grain'], sched.point)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('always')
            warnings._showwarnmsg_impl = tell
            warnings.showwarning = warnings._showwarning_orig
            filters = list(warnings.filters)
            settings0 = settings()
            with seams.redirected(out), seams.scope(seams.SolverSim('canon')):
                outcomes = sched.run(bodies)
            changed = changed_settings(settings0)
            filters_kept = list(warnings.filters) == filters and warnings._showwarnmsg_impl is tell
    finally:
        lines.listen(None, None)
    ctx.steps += sched.count
    ctx.calls += sum(len(s) for s in results)
    ctx.probe('switches', sched.switches)
    ctx.probe('grain-' + sc['grain'])
    if sched.switches:
        ctx.fired('preemption', sched.switches)
    ctx.state(tuple(sched.trace[:400]), sched.switches)
    ctx.log('schedule', sched.count, sched.switches, tuple(sched.trace[:50]))
    ctx.check(not sched.deadlock, 'deadlock', lambda: 'the threads wait for each other: {}'.format(sorted(sched.blocked)))
    ok = 0
    for (i, (th, slot, oc)) in enumerate(zip(sc['threads'], results, outcomes)):
        if oc[0] == 'raised':
            e = oc[1]
            if isinstance(e, lines.StepBudgetExceeded):
                ctx.violate('no-progress', 'thread {} did not finish within {} steps ({} alone)'.format(i, (20 * total + 20000) * grain, total * grain))
            raise e
        for (k, (c, got)) in enumerate(zip(th['calls'], slot)):
            (ref, _, _, said) = refs[json.dumps(c, sort_keys=True)]
            r = Concurrent(got)
            compare(ctx, ref, r, 'concurrency', 'thread {} of {}: {}'.format(i, len(results), c['fn']))
            heard = tuple(m for (j, m) in told[i] if j == k)
            ctx.check(heard == said, 'concurrency', lambda: 'thread {} of {}: {} warns {} and alone {}'.format(i, len(results), c['fn'], heard, said))
            ctx.probe('warnings', len(heard))
            ok += got[0] == 'returned'
            ctx.state(c['fn'])
            ctx.log('result', snap.text(r.key()))
    ctx.check(changed is None, 'settings-changed', lambda: 'concurrent calls left changed settings: {}'.format(changed))
    ctx.check(filters_kept, 'settings-changed', 'concurrent calls left other warning filters')
    compare_state(ctx, before, shared, 'concurrent calls')
    if ok and sched.switches:
        ctx.nontrivial = True


def stops(th, chosen, refs):
    """At which of its own steps a thread is parked."""
    found = [refs[json.dumps(c, sort_keys=True)] for c in th['calls']]
    out = set()
    for (k, by, u, v) in chosen:
        if k >= len(found):
            continue
        (_, n, (places, changes), _) = found[k]
        at = pick_step(n, places, changes, by, u, v)
        if at is not None:
            out.add(sum(f[1] for f in found[:k]) + at)
    return sorted(out)


class Concurrent:
    def __init__(self, got):
        self.ok = got[0] == 'returned'
        self.value = got[1]
        self.outcome = self

    def describe(self):
        return '{}: {}'.format(type(self.value).__name__, str(self.value)[:200])

    def key(self):
        if self.ok:
            return ('returned', snap.snap(self.value), '')
        return ('raised', type(self.value).__name__)
