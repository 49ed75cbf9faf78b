"""Shared by the three properties about approximate-symmetry searches."""
import copy

import numpy as np
import scipy.sparse.linalg as ssla

from .. import gen, sci, seams
from ..ctx import Invalid, Skip, Violation


def scenario(rng, algs=sci.ALGS, real=0.2, deep=False, n=None):
    typ = gen.op_type(rng)
    if n is None:
        n = rng.pick([(3, 2), (5, 3), (2, 4)])
    labs = list(range(n))
    if rng.chance(0.15):
        shift = rng.randint(1, 3)
        labs = [l + shift + (2 if l == labs[-1] else 0) for l in labs]
    hams = [sci.hamiltonian(rng, typ, labs)]
    s = sci.search(rng, typ, labs, 1, algs, deep)
    mode = rng.pick([(60, 'legal'), (int(real * 100), 'real'), (15, 'canon')])
    return {'type': typ, 'labels': labs, 'hams': [{'terms': h} for h in hams], 'searches': [s],
            'solver': {'mode': mode, 'seed': rng.randrange(10 ** 9)}}


def simplify(sc):
    for (i, s) in enumerate(sc['searches']):
        for key in ('orth', 'transformations', 'coms', 'target', 'filter', 'trunc_filter', 'norm_fun', 'pre_filter'):
            if s.get(key):
                c = copy.deepcopy(sc)
                del c['searches'][i][key]
                yield c
        for key in list(s['kw']):
            if key not in ('threshold', 'max_basis_size', 'num_H_terms'):
                c = copy.deepcopy(sc)
                del c['searches'][i]['kw'][key]
                yield c
        if s['steps'] > 1 and not any(isinstance(v, list) for v in s['kw'].values()):
            c = copy.deepcopy(sc)
            c['searches'][i]['steps'] -= 1
            yield c
    if sc['solver']['mode'] == 'legal':
        c = copy.deepcopy(sc)
        c['solver']['mode'] = 'canon'
        yield c


def gave_up(o, mode):
    """The real iterative solver failed on its own account."""
    return mode == 'real' and isinstance(o.exc, (ssla.ArpackError, np.linalg.LinAlgError, RuntimeError))


def legal_refusal(o, spec):
    """Fewer strings than operators asked for."""
    if spec['alg'] == 'many_ops2' and len(spec['inits']) > 1 and isinstance(o.exc, (IndexError, TypeError, ValueError)):
        return True
    # the iterative solver refuses to return (almost) all the eigenvectors of
    # a small matrix: documented behaviour of the option
    if spec['alg'] == 'simple' and isinstance(o.exc, TypeError):
        return True
    return False


def run_search(ctx, sc, spec, record=None, solver=None, at=None, exc=None, label=None, hook=None, lib=None, out=None):
    hams = sc['hams']
    if not 0 <= spec['H'] < len(hams):
        raise Invalid('H')
    ham = hams[spec['H']]['terms']
    for (_, s) in [x for t in [ham, spec['init']] + (spec.get('inits') or []) for x in t]:
        for (_, l) in s:
            if l not in sc['labels']:
                raise Invalid('labels')
    lib = lib or sci.Search(spec, ham, sc['type'])
    (args, kw) = lib.args(record)
    solver = solver or sci.solver_for(spec, sc['solver'])
    solver.repeat_limit = sci.repeat_limit(spec, len(sc['labels']))
    solver.repeats = {}
    o = ctx.call(lib.fn, *args, solver=solver, at=at, exc=exc, budget=sci.budget(spec, len(ham), len(sc['labels'])),
                 label=label or spec['alg'], hook=hook, out=out, **kw)
    return o


def seeded(sc, spec, k):
    seams.seed_randomness(sc['seed'] + 7919 * k)
