"""C04: approximate-symmetry searches report truthful operators and norms."""
import copy

import numpy as np

from .. import build, gen, sci, seams
from ..build import qosy
from ..ctx import BY, Invalid, Points, Skip, Violation
from . import sci_common as common

RUNS = {'quick': 2500, 'thorough': 40000}
WALL = {'quick': 240.0, 'thorough': 2700.0}
RULE = ('A run draws a Hamiltonian, an initial operator and one approximate-symmetry search (seven algorithms, all options) and the '
        "solver's legal choices and numpy's random stream; every reported step is checked against the executable model of the search. In some runs "
        'the search is first hit by a solver failure, a failing output or an interruption at a seeded executed line, and then repeated with the '
        'same objects; whatever returns, faulted or not, is judged. '
        'Non-trivial when at least two steps were reported, or a constraint, target or truncation was in force.')
REAL = ['qosy.algorithms and everything below it', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['eigensolver answers (seeded choice among legal answers) in runs with solver mode legal', 'standard output', 'user filter callbacks']
ASSUMPTIONS = ['Hermitian strings, real Hamiltonians; orthogonality and symmetry penalties are decided to 1e-3, as they are finite (1e10) in the code']
# decided by C05
OTHERS = ('stopped-early', 'too-many-steps', 'no-progress')

EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def generate(rng, tier, index):
    sc = common.scenario(rng, deep=(tier == 'thorough' and rng.chance(0.3)))
    sc['faults'] = []
    for _ in range(rng.pick([(7, 0), (3, 1), (1, 2)])):
        what = rng.pick([(3, 'solver'), (2, 'write'), (3, 'line')])
        f = {'what': what}
        if what == 'solver':
            f['kind'] = rng.choice(['linalg', 'noconv', 'memory', 'singular', 'interrupt'])
            f['at'] = rng.randint(0, 4)
        elif what == 'write':
            f['kind'] = rng.choice(['eio', 'enospc', 'epipe', 'closed', 'short'])
            f['at'] = rng.randint(0, 30)
            f['sticky'] = rng.chance(0.5)
        else:
            f['kind'] = rng.choice(['interrupt', 'memory'])
            f['by'] = rng.pick(BY)
            (f['u'], f['v']) = (round(rng.random(), 6), round(rng.random(), 6))
        sc['faults'].append(f)
    if rng.chance(0.15):
        # The step that targets use, on its own.
        typ = sc['type']
        strings = gen.string_basis(rng, typ, sc['labels'], 10)
        others = gen.all_strings(typ, sc['labels'], 2)
        terms = rng.sample(strings, rng.randint(1, min(3, len(strings)))) + rng.sample(others, min(1, len(others)))
        sc['direct'] = {'strings': strings, 'count': rng.randint(1, len(strings)), 'seed': rng.randrange(10 ** 6), 'plain': rng.chance(0.4), 'verbose': rng.chance(0.2),
                        'target': [[rng.choice(gen.COEFFS), s] for (i, s) in enumerate(terms) if s not in terms[:i]]}
    return sc


def simplify(sc):
    if sc.get('direct'):
        yield {k: v for (k, v) in sc.items() if k != 'direct'}
        yield dict(sc, faults=[], searches=[])
    for i in range(len(sc.get('faults', []))):
        c = copy.deepcopy(sc)
        del c['faults'][i]
        yield c
    yield from common.simplify(sc)


def faulted(sc, spec, ctx, lib, f, k, ref):
    """The search hit by one fault; its outcome."""
    common.seeded(sc, spec, k)
    name = '{}-{}'.format(f['what'], f['kind'])
    if f['what'] == 'solver':
        ctx.configured(name)
        return common.run_search(ctx, sc, spec, lib=lib, solver=sci.solver_for(spec, sc['solver'], {f['at']: f['kind']}), label='faulted')
    if f['what'] == 'write':
        ctx.configured(name)
        out = seams.SimulatedOutput(fail_at=f['at'], kind=f['kind'], sticky=f['sticky'])
        o = common.run_search(ctx, sc, spec, lib=lib, out=out, label='faulted')
        if out.failures:
            ctx.fired(name, out.failures)
        return o
    exc = EXCS[f['kind']]
    ctx.configured('line-' + exc.__name__)
    return common.run_search(ctx, sc, spec, lib=lib, at=ref.pick(f['by'], f['u'], f['v']), exc=exc('injected'), label='faulted')


def direct(d, typ, ctx):
    """The combination of some eigenvectors that is closest to a target."""
    n = len(d['strings'])
    count = min(d['count'], n)
    if not d['target'] or count < 1:
        raise Invalid('target')
    rs = np.random.RandomState(d['seed'])
    vecs = np.eye(n)[:, rs.permutation(n)[:count]].astype(complex) if d['plain'] else \
        np.linalg.qr(rs.standard_normal((n, count)) + 1j * rs.standard_normal((n, count)))[0]
    vals = np.sort(rs.uniform(0.0, 4.0, count))
    strings = [build.st(s) for s in d['strings']]
    basis = qosy.Basis([build.lib_string(s, typ) for s in strings])
    goal = np.zeros(n, dtype=complex)
    for (s, c) in build.model_combo(d['target']).items():
        if s in strings:
            goal[strings.index(s)] = c
    o = ctx.call(qosy.algorithms.highest_fidelity_operator, build.lib_operator(d['target'], typ), vecs.copy(), vals.copy(), basis, verbose=d['verbose'])
    ctx.must_succeed(o, 'highest_fidelity_operator')
    (vector, norm, fidelity) = o.value
    overlaps = np.conj(vecs.T) @ goal
    size = float(np.linalg.norm(overlaps))
    ctx.check(abs(fidelity - size ** 2) < 1e-9 * max(1.0, size ** 2), 'wrong-fidelity', lambda: 'fidelity {} and not {}'.format(fidelity, size ** 2))
    vector = np.asarray(vector).reshape(-1)
    ctx.check(vector.shape == (n,) and abs(np.linalg.norm(vector) - 1.0) < 1e-9, 'not-normalised', lambda: 'norm {}'.format(np.linalg.norm(vector)))
    inside = np.conj(vecs.T) @ vector
    if size > 1e-6:
        best = vecs @ overlaps / size
        ctx.check(np.linalg.norm(vector - best) < 1e-7, 'not-closest', lambda: 'the operator is not the one closest to the target: {}'.format(np.linalg.norm(vector - best)))
    else:
        ctx.check(abs(np.linalg.norm(inside) - 1.0) < 1e-9, 'not-closest', 'the operator is not a combination of the given ones')
    truth = float(np.sum(np.abs(inside) ** 2 * vals))
    ctx.check(abs(norm - truth) < 1e-9 * max(1.0, truth), 'wrong-norm', lambda: 'reported norm {} of an operator with norm {}'.format(norm, truth))
    ctx.probe('targets-judged')


def execute(sc, ctx):
    if sc.get('direct'):
        direct(sc['direct'], sc['type'], ctx)
    faults = sc.get('faults', [])
    for (k, spec) in enumerate(sc['searches']):
        common.seeded(sc, spec, k)
        lib = ref = None
        if faults:
            lib = sci.Search(spec, sc['hams'][spec['H']]['terms'], sc['type'])
            trial = sci.Search(spec, sc['hams'][spec['H']]['terms'], sc['type'])
            if any(f['what'] == 'line' for f in faults):
                ref = Points([trial.init, trial.com, trial.kw])
                common.run_search(ctx, sc, spec, lib=trial, hook=ref.hook, label='trial')
        for f in faults:
            o = faulted(sc, spec, ctx, lib, f, k, ref)
            if o.ok:
                ctx.probe('returned-despite-fault')
                judge(sc, spec, ctx, o)
            elif not o.hang:
                ctx.probe('failed-by-fault')
                ctx.nontrivial = True
        common.seeded(sc, spec, k)
        o = common.run_search(ctx, sc, spec, lib=lib)
        if not o.ok and (common.gave_up(o, sc['solver']['mode']) or common.legal_refusal(o, spec)):
            ctx.probe('refused')
            raise Skip('the solver refused')
        n = judge(sc, spec, ctx, o)
        ctx.state(sc['type'], sc['labels'], spec, sc['hams'], n, o.solver_calls, faults)
        ctx.probe('steps-judged', n)
        ctx.probe('alg-' + spec['alg'])
        ctx.nontrivial = ctx.nontrivial or n >= 2 or bool(spec.get('orth') or spec.get('transformations') or spec.get('target'))


def judge(sc, spec, ctx, o):
    try:
        ctx.must_succeed(o, spec['alg'])
        j = sci.Judge(ctx, spec, sc['hams'][spec['H']]['terms'], sc['type'], sc['labels'])
        j.judge(o.value)
    except Violation as v:
        if v.kind in OTHERS:
            raise Skip('a matter of C05: ' + v.kind)
        raise
    return len(o.value[2]) if spec['alg'] not in ('many_ops', 'many_ops2') else len(o.value[0])
