"""C03: sharing an exploration record between searches never changes their answers."""
import copy

import numpy as np

from .. import gen, sci
from ..ctx import BY, Invalid, Points, Skip, Violation
from . import sci_common as common

RUNS = {'quick': 1800, 'thorough': 30000}
WALL = {'quick': 280.0, 'thorough': 2700.0}
RULE = ('A run draws two to four Hamiltonians that share terms and a history of two to six searches (all algorithms and options) that share one '
        'exploration record; some searches are killed at a seeded executed line, a solver call or a user callback. Every search that is not '
        'killed is judged by the search model, and compared with the same search on a fresh record wherever the answer is unique. Non-trivial '
        'when a search with a used record was judged.')
REAL = ['qosy.algorithms and everything below it', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['eigensolver answers (seeded choice among legal answers) in runs with solver mode legal', 'standard output', 'user callbacks']
ASSUMPTIONS = ['a violation that the same search also shows with a fresh record belongs to C04 or C05 and is left to them']
ALGS = tuple(a for a in sci.ALGS if a != 'simple')

EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def related(rng, typ, labs, ham):
    """A Hamiltonian that shares terms with another one."""
    ham = copy.deepcopy(ham)
    r = rng.random()
    if r < 0.35 and len(ham) > 1:
        for _ in range(rng.randint(1, len(ham) - 1)):
            del ham[rng.randrange(len(ham))]
    elif r < 0.7:
        for (c, s) in sci.hamiltonian(rng, typ, labs):
            if s not in [x[1] for x in ham] and rng.chance(0.5):
                ham.append([c, s])
    else:
        for t in ham:
            if rng.chance(0.5):
                t[0] = round(rng.uniform(0.2, 2.0), 3)
    if rng.chance(0.3):
        rng.shuffle(ham)
    return ham


def generate(rng, tier, index):
    deep = tier == 'thorough' and rng.chance(0.3)
    sc = common.scenario(rng, ALGS, real=0.1, deep=deep, n=rng.pick([(4, 2), (5, 3), (1, 4)]))
    (typ, labs) = (sc['type'], sc['labels'])
    for _ in range(rng.randint(0, 2)):
        base = rng.choice(sc['hams'])['terms']
        sc['hams'].append({'terms': related(rng, typ, labs, base) if rng.chance(0.8) else sci.hamiltonian(rng, typ, labs)})
    nsearch = rng.randint(2, 6 if deep else 4)
    sc['searches'] = []
    while len(sc['searches']) < nsearch:
        if sc['searches'] and rng.chance(0.3):
            s = copy.deepcopy(rng.choice(sc['searches']))
            s.pop('fault', None)
            if rng.chance(0.7):
                s['H'] = rng.randrange(len(sc['hams']))
            if rng.chance(0.3):
                s['init'] = sci.operator(rng, typ, labs)
        else:
            s = sci.search(rng, typ, labs, len(sc['hams']), ALGS, deep)
            if rng.chance(0.5):
                # a search with a unique answer
                s['kw'].pop('num_O_terms', None)
                s.pop('target', None)
                if 'num_H_terms' in s['kw']:
                    s['kw']['num_H_terms'] = 1000
        if rng.chance(0.4) and len(sc['searches']) < nsearch - 1:
            s['fault'] = rng.pick([(3, ['line', round(rng.random(), 6), rng.choice(['interrupt', 'memory']), rng.pick(BY), round(rng.random(), 6)]),
                                   (1, ['solver', rng.randint(0, 2), rng.choice(['linalg', 'noconv', 'memory', 'singular', 'interrupt'])])])
        sc['searches'].append(s)
        if s.get('fault') and rng.chance(0.6):
            sc['searches'].append(dict(copy.deepcopy(s), fault=None))
    return sc


def simplify(sc):
    yield from common.simplify(sc)
    for (i, s) in enumerate(sc['searches']):
        if s.get('fault'):
            c = copy.deepcopy(sc)
            c['searches'][i]['fault'] = None
            yield c


def unlimited(spec):
    return (spec['alg'] in ('selected_ci', 'sweep', 'greedy') and not spec['kw'].get('num_O_terms')
            and spec['kw'].get('num_H_terms', 1000) == 1000 and not spec.get('target')
            and spec.get('filter') in (None, 'lowest') and spec['kw'].get('expand_unitary') is None)


def one(ctx, sc, spec, record, k, mdl, what):
    """Run and judge; returns (judge, violation or None)."""
    common.seeded(sc, spec, k)
    o = common.run_search(ctx, sc, spec, record, label='{} {}'.format(spec['alg'], what))
    j = sci.Judge(ctx, spec, sc['hams'][spec['H']]['terms'], sc['type'], sc['labels'], mdl, '({})'.format(what))
    try:
        if not o.ok and (common.gave_up(o, sc['solver']['mode']) or common.legal_refusal(o, spec)):
            j.refused = True
            return (j, None)
        j.refused = False
        ctx.must_succeed(o, '{} ({})'.format(spec['alg'], what))
        j.judge(o.value)
    except Violation as v:
        return (j, v)
    return (j, None)


def execute(sc, ctx):
    record = sci.fresh_record()
    mdl = sci.Model(sc['type'], sc['labels'])
    used = 0
    for (k, spec) in enumerate(sc['searches']):
        fault = spec.get('fault')
        if spec['alg'] == 'simple':
            raise Invalid('simple')
        ctx.state(sc['type'], spec, sc['hams'][spec['H']] if spec['H'] < len(sc['hams']) else None)
        if fault:
            (kind, where, what) = fault[:3]
            (by, v) = fault[3:] or ('time', 0.5)
            ctx.configured('{}-{}'.format(kind, what))
            solver = sci.solver_for(spec, sc['solver'])
            (at, exc) = (None, None)
            if kind == 'line':
                common.seeded(sc, spec, k)
                trial = copy.deepcopy(record)
                points = Points(watch=trial if by == 'change' else None)
                common.run_search(ctx, sc, spec, trial, label='dry', hook=points.hook)
                at = points.pick(by, where, v)
                exc = EXCS[what]('injected')
            else:
                solver.faults = {int(where): what}
            common.seeded(sc, spec, k)
            o = common.run_search(ctx, sc, spec, record, solver=solver, at=at, exc=exc, label='killed ' + spec['alg'])
            if o.fired is not None or o.solver_fired:
                ctx.check(not o.ok, 'failure-swallowed', lambda: '{} returned although it was killed at {}'.format(spec['alg'], o.fired or o.solver_fired))
                ctx.probe('killed-' + spec['alg'])
            used += 1
            continue
        (j, v) = one(ctx, sc, spec, record, k, mdl, 'shared record')
        if used == 0:
            # this is itself a search with a fresh record
            if v is not None or j.refused:
                raise Skip('a matter of C04 or C05')
            used += 1
            continue
        (f, w) = one(ctx, sc, spec, sci.fresh_record(), k, mdl, 'fresh record')
        if w is not None:
            raise Skip('a matter of C04 or C05')
        if v is not None:
            raise v
        used += 1
        if j.refused or f.refused:
            ctx.check(j.refused == f.refused or sc['solver']['mode'] == 'real', 'different-answer',
                      lambda: '{}: refused with {} record only'.format(spec['alg'], 'the shared' if j.refused else 'a fresh'))
            ctx.probe('refused')
            continue
        ctx.nontrivial = True
        ctx.probe('judged-' + spec['alg'])
        if unlimited(spec):
            full = sci.same_answers(ctx, spec, f, j, '{} (shared against fresh record)'.format(spec['alg']))
            ctx.probe('compared-fully' if full else 'compared-partly')
