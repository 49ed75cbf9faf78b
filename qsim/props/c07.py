"""C07: failed or interrupted calls leave their arguments intact and can be retried."""
import json

import numpy as np

from .. import api, build, gen, seams, snap
from ..alone import alone, merge
from ..ctx import BY, Invalid, Points, Skip, pick_step

RUNS = {'quick': 6000, 'thorough': 90000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
TOL = 1e-9
RULE = ('A run draws a pool of shared objects, a public call on some of them and a sequence of attempts at that call that are made to fail '
        '(interrupt or MemoryError at a chosen executed line, failing eigensolver, failing user rule, warnings or floating point problems turned into errors, '
        'an invalid argument), then repeats the call undisturbed and makes another call on the same objects; non-trivial when at least one injected failure made the call fail.')
REAL = ['every public function listed in qsim/api.py, on real objects']
STUB = ['eigensolver answers (a canonical legal answer that depends only on the matrix, so that runs can be compared)']

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
BAD = ['bogus', -1, 99, None, [], {'ref': 'oo'}, {'ref': 's0'}, {'ref': 'b1'}, {'ref': 'lb'}, {'ref': 't0'}, {'ref': 'nu'}, 1.5,
       {'ref': 'fo'}, {'ref': 'bo'}, {'ref': 'co'}, {'ref': 'sd'}]


def generate(rng, tier, index):
    (info, pool) = api.generate_pool(rng, tier)
    call = api.generate_call(rng, info, None, tier)
    if rng.chance(0.25):
        call = api.generate_call(rng, info, lambda f: f.get('core') or f.get('search'), tier)
    faults = []
    for _ in range(rng.pick([(2, 1), (3, 2), (3, 4), (1, 8)])):
        kind = rng.pick([(7, 'line'), (3, 'solver'), (2, 'rule'), (3, 'invalid'), (1, 'warning'), (1, 'fpe')])
        f = {'kind': kind, 'exc': rng.choice(sorted(EXC)), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
             'by': rng.pick(BY), 'look': rng.chance(0.6)}
        if kind == 'solver':
            f['solver'] = rng.choice(seams.FAULTS)
        elif kind == 'rule':
            f['rule'] = rng.choice(['rule', 'memory', 'interrupt'])
        elif kind == 'invalid':
            f['bad'] = rng.choice(BAD)
        faults.append(f)
    probe = api.generate_call(rng, info, None, tier)
    if rng.chance(0.4):
        # a call on the same objects
        probe = same_objects(rng, info, call, tier) or probe
    return {'info': info, 'pool': trimmed(pool, [call, probe], faults), 'call': call, 'faults': faults, 'probe': probe}


def same_objects(rng, info, call, tier):
    refs = set(api.refs_of(call))
    for _ in range(12):
        p = api.generate_call(rng, info, None, tier)
        if refs & set(api.refs_of(p)):
            return p
    return None


def needed(pool, names):
    out = set()
    todo = list(names)
    while todo:
        n = todo.pop()
        if n in out or n not in pool:
            continue
        out.add(n)
        spec = pool[n]
        todo.extend(spec.get('refs', []))
        if 'basis' in spec and isinstance(spec['basis'], str):
            todo.append(spec['basis'])
    return out


def trimmed(pool, calls, faults=()):
    """Only the objects the scenario can touch."""
    names = set()
    for c in calls:
        names.update(api.refs_of(c))
    for f in faults:
        b = f.get('bad')
        if isinstance(b, dict) and 'ref' in b:
            names.add(b['ref'])
    keep = needed(pool, names)
    return {n: pool[n] for n in sorted(keep)}


def state_of(world):
    return {n: snap.snap(world.objects[n]) for n in sorted(world.objects)}


def compare_state(ctx, before, world, what):
    for (n, s) in before.items():
        d = snap.diff(s, snap.snap(world.objects[n]))
        ctx.check(d is None, 'argument-modified', lambda: '{} changed the object {} ({}): {}'.format(what, n, world.pool[n]['kind'], d))


def compare(ctx, reference, result, kind, what):
    (a, b) = (reference, result.key())
    if a[0] == 'raised' and b[0] == 'raised' and a[1] == b[1]:
        return
    d = snap.diff(a, b, TOL)
    ctx.check(d is None, kind, lambda: '{}: alone it {}, here it {}: {}'.format(
        what, a[0] if a[0] == 'returned' else 'raised ' + a[1], b[0] if b[0] == 'returned' else 'raised {}'.format(result.outcome.describe()), d))


def reference_run(call, pool, places=False):
    """A call alone on fresh objects: its result, and when it passed each line."""
    def body(ctx):
        w = api.World(pool)
        w.build_all()
        before = state_of(api.World(pool).build_all())
        points = Points(watch=w.objects if places else None)
        r = api.invoke(ctx, w, call, hook=points.hook if places else None)
        if r.outcome.hang:
            raise Skip('the reference call is too long')
        compare_state(ctx, before, w, 'the call {} (which {})'.format(call['fn'], 'succeeded' if r.ok else 'failed'))
        rules = 0
        for o in w.objects.values():
            for u in build.user_rules(o):
                rules += u.calls
        return (r.key(), r.outcome.lines, r.outcome.solver_calls, rules, points.places(), points.changes)
    return alone(body)


def execute(sc, ctx):
    (call, pool) = (sc['call'], sc['pool'])
    ((ref, nlines, nsolver, nrules, places, changes), stats) = reference_run(call, pool, places=True)
    merge(ctx, stats)
    ((pref, _, _, _, _, _), stats) = reference_run(sc['probe'], pool)
    merge(ctx, stats)
    ctx.state(call['fn'], sc['probe']['fn'], json.dumps(call, sort_keys=True))
    world = api.World(pool)
    world.build_all()
    # (of other, equal objects: looking at an object may fill its caches)
    before = state_of(api.World(pool).build_all())
    for f in sc['faults']:
        (failed, what) = attempt(sc, ctx, world, f, ref, nlines, nsolver, nrules, places, changes)
        if failed is None:
            continue
        if f.get('look', True):
            compare_state(ctx, before, world, what)
        ctx.state(f['kind'], failed, what)
        if failed:
            ctx.nontrivial = True
            ctx.probe('failed-' + f['kind'])
    r = api.invoke(ctx, world, call)
    compare(ctx, ref, r, 'retry-differs', 'repeating {} after {} failure(s)'.format(call['fn'], len(sc['faults'])))
    compare_state(ctx, before, world, 'the repeated call {}'.format(call['fn']))
    p = api.invoke(ctx, world, sc['probe'])
    compare(ctx, pref, p, 'later-call-differs', '{} after failed calls of {}'.format(sc['probe']['fn'], call['fn']))
    compare_state(ctx, before, world, 'the later call {}'.format(sc['probe']['fn']))
    ctx.log('result', snap.text(r.key()), snap.text(p.key()))


def attempt(sc, ctx, world, f, ref, nlines, nsolver, nrules, places, changes):
    """One attempt at the call under a fault. Returns (failed?, description)."""
    call = sc['call']
    kw = {}
    kind = f['kind']
    what = call['fn']
    if kind == 'line':
        if nlines == 0:
            return (None, '')
        at = pick_step(nlines, places, changes, f['by'], f['u'], f['v'])
        kw = {'at': min(at, nlines), 'exc': EXC[f['exc']]('injected')}
        ctx.configured('line-' + f['exc'])
        what += ' ended by {} at step {}'.format(f['exc'], kw['at'])
    elif kind == 'solver':
        if nsolver == 0:
            return (None, '')
        k = int(f['u'] * nsolver)
        kw = {'solver': seams.SolverSim('canon', faults={k: f['solver']})}
        ctx.configured('solver-' + f['solver'])
        what += ' with solver call {} failing ({})'.format(k, f['solver'])
    elif kind == 'rule':
        rules = [u for n in sorted(world.objects) for u in build.user_rules(world.objects[n])]
        if not rules or nrules == 0:
            return (None, '')
        u = rules[int(f['v'] * len(rules)) % len(rules)]
        (u.calls, u.fail_at, u.kind) = (0, int(f['u'] * nrules), f['rule'])
        ctx.configured('rule-' + f['rule'])
        what += ' with a user rule failing at its application {}'.format(u.fail_at)
        r = api.invoke(ctx, world, call)
        if u.failures:
            ctx.fired('rule-' + f['rule'])
        (u.calls, u.fail_at, u.failures) = (0, None, 0)
        return _judge(ctx, ref, r, what)
    elif kind == 'invalid':
        bad = json.loads(json.dumps(call))
        places = list(range(len(bad['args'])))
        if call['fn'] == 'sci':
            # The first arguments describe the call, they are not the library's.
            places = places[3:] if bad['args'][0] == 'pool' else []
        if not places:
            return (None, '')
        i = places[int(f['u'] * len(places)) % len(places)]
        bad['args'][i] = f['bad']
        what += ' with argument {} replaced by {}'.format(i, json.dumps(f['bad']))
        ctx.configured('invalid-argument')
        try:
            r = api.invoke(ctx, world, bad, take=False, budget=300000)
        except Invalid:
            return (None, '')
        keeps_settings(ctx, r, what)
        if not r.ok:
            ctx.fired('invalid-argument')
        return (not r.ok, what)
    elif kind == 'warning':
        kw = {'warn_error': True}
        ctx.configured('warning-as-error')
        what += ' with warnings turned into errors'
        r = api.invoke(ctx, world, call, **kw)
        if not r.ok and isinstance(r.outcome.exc, Warning):
            ctx.fired('warning-as-error')
            return (True, what)
        return _judge(ctx, ref, r, what, strict=False)
    elif kind == 'fpe':
        what += ' with floating point problems turned into errors'
        ctx.configured('floating-point-error')
        with np.errstate(all='raise'):
            r = api.invoke(ctx, world, call)
        if not r.ok and isinstance(r.outcome.exc, FloatingPointError):
            ctx.fired('floating-point-error')
            return (True, what)
        return _judge(ctx, ref, r, what, strict=False)
    r = api.invoke(ctx, world, call, **kw)
    return _judge(ctx, ref, r, what)


def keeps_settings(ctx, r, what):
    ctx.check(r.outcome.settings is None, 'settings-changed', lambda: '{} changed process-wide settings: {}'.format(what, r.outcome.settings))


def _judge(ctx, ref, r, what, strict=True):
    keeps_settings(ctx, r, what)
    if r.ok:
        # The failure was not met, or the call coped with it: then it returned
        # what it should.
        compare(ctx, ref, r, 'wrong-result', what)
        return (False, what)
    return (True, what)
