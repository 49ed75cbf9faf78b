"""C11: output problems never corrupt results, and quiet mode is silent."""
import json

import numpy as np

from .. import api, build, seams, snap
from ..alone import alone, merge
from ..build import qosy
from ..ctx import Invalid, Skip
from .c07 import compare, compare_state, keeps_settings, same_objects, state_of, trimmed

RUNS = {'quick': 6000, 'thorough': 90000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
KINDS = ('eio', 'enospc', 'epipe', 'closed', 'short')
RULE = ('A run draws a call that prints (or one asked to be quiet) and a standard output that fails at chosen writes (I/O error, full disk, closed pipe, closed file, short write; once or for good), '
        'then repeats the call with a working output and makes another call on the same objects; non-trivial when a write failed, or when a quiet call that does real work was checked.')
REAL = ['print_vectors, print_operators, generate(verbose=...), selected_ci* and every other public function in qsim/api.py']
STUB = ['sys.stdout (collects text, fails on demand)', 'eigensolver answers (canonical)']


def prints(flags):
    return bool(flags.get('prints'))


def quiet_kinds(rng, info, tier):
    """A call asked to print nothing."""
    g = api.G(rng, info, tier)
    name = rng.pick([(3, 'generator'), (3, 'selected_ci_greedy'), (1, 'selected_ci_greedy_many_ops'), (2, 'generator_methods'), (2, 'greedy_options'),
                     (4, 'sci'), (2, 'other')])
    if name == 'generator_methods':
        c = api.TABLE['generator'][1](g)
        c['args'] = c['args'][:4]
        return {'fn': 'quiet_generator', 'args': c['args'] + [rng.chance(0.5), rng.chance(0.5)], 'kw': {}}
    if name == 'greedy_options':
        return {'fn': 'quiet_greedy', 'args': [{'ref': 'o0'}, {'ref': 'o1'}, rng.randint(1, 3), rng.randint(1, 3),
                                               {'target_operator': rng.choice([None, 'o0', 'o2']), 'target_fidelity': rng.choice([None, 0.5, 0.999]),
                                                'target_com_norm': rng.choice([None, 1e-3, 10.0]), 'min_relative_change': rng.choice([None, 1e-3, 0.5]),
                                                'num_O_terms': rng.randint(0, 2), 'orth_ops': rng.choice([None, 'l1']),
                                                'transformations': rng.choice([None, 'tp']), 'max_basis_size': rng.choice([3, 10, 100]),
                                                'num_vecs': rng.choice([None, 2])},
                                               {'ref': 'o0'}, {'ref': 'o2'}, {'ref': 'l1'}, {'ref': 'tp'}], 'kw': {}}
    if name == 'sci':
        c = api.sci_call(g, ('greedy', 'greedy', 'greedy', 'many_ops', 'many_ops2'), retries=0.6)
        c[1]['kw']['verbose'] = False
        return {'fn': 'sci', 'args': c, 'kw': {}}
    if name == 'other':
        return api.generate_call(rng, info, lambda f: not f.get('prints') and not f.get('plots'), tier)
    c = api.TABLE[name][1](g) | {'fn': name}
    return c


def _quiet_generator(basis, syms, modes, vecs, sparse, orth):
    g = qosy.SymmetricOperatorGenerator(basis)
    for (s, m, k) in zip(syms, modes, vecs):
        g.add_symmetry(s, operation_mode=m, num_vecs=k)
    out = []
    for mode in ('cumulative', 'noncumulative'):
        out.append(g.generate(mode=mode, sparsification=sparse, orthogonalization=orth, verbose=False))
    return out


def _quiet_greedy(init, H, steps, terms, options, o0, o2, l1, tp):
    kw = dict(options)
    if kw['target_operator'] is not None:
        kw['target_operator'] = {'o0': o0, 'o2': o2}[kw['target_operator']]
    else:
        kw['target_fidelity'] = None
    if kw['orth_ops'] is not None:
        kw['orth_ops'] = l1
    if kw['transformations'] is not None:
        kw['transformations'] = tp
    return qosy.selected_ci_greedy(init, H, steps, num_H_terms=terms, verbose=False, **kw)


api.TABLE['quiet_generator'] = (0, None, _quiet_generator, {})
api.TABLE['quiet_greedy'] = (0, None, _quiet_greedy, {})


def generate(rng, tier, index):
    (info, pool) = api.generate_pool(rng, tier)
    quiet = rng.chance(0.35)
    if quiet:
        call = quiet_kinds(rng, info, tier)
    else:
        call = api.generate_call(rng, info, prints, tier)
    faults = []
    for _ in range(rng.pick([(3, 1), (3, 2), (2, 4)])):
        faults.append({'u': round(rng.random(), 6), 'kind': rng.choice(KINDS), 'sticky': rng.chance(0.5),
                       'place': rng.pick([(5, 'any'), (1, 'first'), (1, 'last')])})
    probe = same_objects(rng, info, call, tier) if rng.chance(0.6) else None
    if probe is None:
        probe = api.generate_call(rng, info, lambda f: not f.get('plots'), tier)
    return {'info': info, 'pool': trimmed(pool, [call, probe]), 'call': call, 'quiet': quiet, 'faults': faults, 'probe': probe}


def reference(call, pool):
    def body(c):
        w = api.World(pool)
        w.build_all()
        before = state_of(w)
        out = seams.SimulatedOutput()
        r = api.invoke(c, w, call, out=out, budget=1500000)
        if r.outcome.hang:
            raise Skip('the reference call is too long')
        compare_state(c, before, w, 'the call {}'.format(call['fn']))
        return (r.key(), out.writes, r.outcome.err)
    return alone(body)


def quiet_call(call):
    f = api.flags(call)
    if f.get('sci'):
        return call['args'][1]['kw'].get('verbose') is False
    return not f.get('prints')


def execute(sc, ctx):
    (call, pool) = (sc['call'], sc['pool'])
    ((ref, writes, err), stats) = reference(call, pool)
    merge(ctx, stats)
    ((pref, _, perr), stats) = reference(sc['probe'], pool)
    merge(ctx, stats)
    ctx.state(call['fn'], json.dumps(call, sort_keys=True))
    for (c, r, e) in ((call, ref, err), (sc['probe'], pref, perr)):
        if quiet_call(c) and r[0] == 'returned':
            ctx.check(r[2] == '', 'not-quiet', lambda: '{} writes {!r}'.format(c['fn'], r[2][:100]))
            ctx.check(e == '', 'not-quiet', lambda: '{} writes {!r} to the standard error'.format(c['fn'], e[:100]))
            ctx.probe('quiet-calls')
            if c is call:
                ctx.nontrivial = True
    world = api.World(pool)
    world.build_all()
    before = state_of(world)
    text = ref[2] if ref[0] == 'returned' else None
    for f in sc['faults']:
        if writes == 0:
            at = 0
        elif f['place'] == 'first':
            at = 0
        elif f['place'] == 'last':
            at = writes - 1
        else:
            at = int(f['u'] * writes)
        out = seams.SimulatedOutput(fail_at=at, kind=f['kind'], sticky=f['sticky'])
        ctx.configured('write-' + f['kind'])
        r = api.invoke(ctx, world, call, out=out, budget=4000000)
        what = '{} with {} at write {}{}'.format(call['fn'], f['kind'], at, ' and after' if f['sticky'] else '')
        if out.failures:
            ctx.fired('write-' + f['kind'], out.failures)
            ctx.nontrivial = True
        ctx.state(f['kind'], at, f['sticky'], r.ok)
        if r.ok:
            # It coped: same result; text may lack what could not be written.
            d = snap.diff(ref[:2], r.key()[:2], 1e-9)
            ctx.check(d is None, 'wrong-result', lambda: '{}: {}'.format(what, d))
        elif not out.failures:
            ctx.check(ref[0] == 'raised' and ref[1] == type(r.outcome.exc).__name__, 'unexpected-failure', lambda: '{} (no write failed): {}'.format(what, r.outcome.describe()))
        if text is not None and out.before is not None:
            ctx.check(text.startswith(out.before), 'not-a-prefix', lambda: '{}: wrote {!r}'.format(what, out.before[-60:]))
        elif text is not None and r.ok:
            ctx.check(text == out.text, 'not-a-prefix', lambda: '{}: wrote {!r}'.format(what, out.text[-60:]))
        compare_state(ctx, before, world, what)
        keeps_settings(ctx, r, what)
    r = api.invoke(ctx, world, call, budget=4000000)
    compare(ctx, ref, r, 'retry-differs', 'repeating {} with a working output'.format(call['fn']))
    p = api.invoke(ctx, world, sc['probe'], budget=4000000)
    compare(ctx, pref, p, 'later-call-differs', '{} after output problems of {}'.format(sc['probe']['fn'], call['fn']))
    compare_state(ctx, before, world, 'later calls')
    ctx.log('result', snap.text(r.key()), snap.text(p.key()))
