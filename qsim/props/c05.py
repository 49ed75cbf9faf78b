"""C05: approximate-symmetry searches always finish within their step budget."""
import copy

from .. import gen, sci
from ..ctx import Skip, Violation
from . import sci_common as common

RUNS = {'quick': 3000, 'thorough': 50000}
WALL = {'quick': 240.0, 'thorough': 2700.0}
RULE = ('A run draws a Hamiltonian and one or two searches that share a record, with targets that may never be met (fidelity, commutator norm, '
        "relative change, tiny bases) and a number of steps up to 12; solver choices come from the seed, and a search may first be hit by a solver "
        'failure. Executed source lines are the simulated clock: each search has a bound on them. Non-trivial when a search had a target, stopped '
        'early, failed before, or ran at least three steps.')
REAL = ['qosy.algorithms and everything below it', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['eigensolver answers (seeded choice among legal answers) in runs with solver mode legal', 'standard output', 'user filter callbacks']
ASSUMPTIONS = ['the bound on executed lines is 1000000 + 800 x steps x operators x strings of the system x Hamiltonian terms '
               '(runs on the unchanged tree stay far below it); time inside one eigensolver call is not measured']
KINDS = ('stopped-early', 'too-many-steps', 'no-progress', 'unexpected-failure', 'failure-swallowed')

simplify = common.simplify


def generate(rng, tier, index):
    sc = common.scenario(rng, real=0.1, deep=True, n=rng.pick([(4, 2), (4, 3), (1, 4)]))
    if rng.chance(0.4):
        sc['searches'] = [sci.search(rng, sc['type'], sc['labels'], 1, ('greedy',), True)]
    if rng.chance(0.25):
        sc['searches'].append(sci.search(rng, sc['type'], sc['labels'], 1, sci.ALGS, True))
    for s in sc['searches']:
        kw = s['kw']
        listed = any(isinstance(v, list) for v in kw.values())
        if s['alg'] != 'sweep' and not listed:
            s['steps'] = rng.pick([(3, s['steps']), (3, rng.randint(1, 12)), (1, 0)])
        if rng.chance(0.4) and not listed:
            kw['max_basis_size'] = rng.choice([1, 2, 3, 4])
        if s['alg'] == 'greedy':
            if rng.chance(0.5):
                s['target'] = sci.operator(rng, sc['type'], sc['labels'], kmax=rng.choice([1, 2, 3]), hi=4)
                kw['target_fidelity'] = rng.choice([0.2, 0.5, 0.9, 0.99, 0.999999, 1.5, 2.0])
                kw['num_vecs'] = rng.choice([1, 1, 2, 4])
            if len(sc['labels']) > 2 and not listed and rng.chance(0.35):
                sci.retries(rng, s)
                continue
            if rng.chance(0.3):
                kw['min_relative_change'] = rng.choice([0.0, 1e-6, 1e-2, 0.3, 10.0])
            if rng.chance(0.3):
                kw['target_com_norm'] = rng.choice([-1.0, 0.0, 1e-12, 0.1, 1e6])
    sc['faults'] = []
    if rng.chance(0.25):
        sc['faults'] = [[0, rng.randint(0, 3), rng.choice(['linalg', 'noconv', 'memory', 'singular', 'interrupt'])]]
    return sc


def execute(sc, ctx):
    record = sci.fresh_record()
    for (k, spec) in enumerate(sc['searches']):
        common.seeded(sc, spec, k)
        faults = {c: kind for (i, c, kind) in sc['faults'] if i == k}
        if faults:
            for kind in faults.values():
                ctx.configured('solver-' + kind)
            solver = sci.solver_for(spec, sc['solver'], faults)
            o = common.run_search(ctx, sc, spec, record, solver=solver, label='faulted ' + spec['alg'])
            ctx.check(not o.hang, 'no-progress', lambda: '{} did not finish within its step bound after a failure ({})'.format(spec['alg'], o.where))
            if o.solver_fired:
                ctx.check(not o.ok, 'failure-swallowed', lambda: '{} returned although its solver failed'.format(spec['alg']))
                ctx.nontrivial = True
            common.seeded(sc, spec, k)
        o = common.run_search(ctx, sc, spec, record)
        ctx.check(not o.hang, 'no-progress', lambda: '{} did not finish within its step bound ({})'.format(spec['alg'], o.where))
        if not o.ok and (common.gave_up(o, sc['solver']['mode']) or common.legal_refusal(o, spec)):
            ctx.probe('refused')
            raise Skip('the solver refused')
        ctx.must_succeed(o, spec['alg'])
        j = sci.Judge(ctx, spec, sc['hams'][spec['H']]['terms'], sc['type'], sc['labels'])
        ctx.probe('budget-percent-{}'.format(min(100, 100 * o.lines // sci.budget(spec, len(sc['hams'][spec['H']]['terms']), len(sc['labels'])))))
        try:
            j.judge(o.value)
        except Violation as v:
            if v.kind not in KINDS:
                raise Skip('a matter of C04: ' + v.kind)
            raise
        if spec.get('target') and 'num_vecs =' in o.out:
            ctx.probe('retried-a-step', o.out.count('num_vecs ='))
        n = len(o.value[2]) if spec['alg'] not in ('many_ops', 'many_ops2') else len(o.value[0])
        ctx.state(sc['type'], sc['labels'], spec, sc['hams'], n, o.solver_calls, sc['faults'])
        ctx.probe('steps-judged', n)
        if n < spec['steps']:
            ctx.probe('ended-early-' + spec['alg'])
        ctx.nontrivial = ctx.nontrivial or n >= 3 or n < spec['steps'] or bool(spec.get('target'))
