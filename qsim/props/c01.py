"""C01: generated operators are exactly the symmetric ones, over any call history."""
import copy
import json

import numpy as np

from .. import build, gen, model, seams, space
from ..build import qosy
from ..ctx import BY, Invalid, Points, Skip

RUNS = {'quick': 5000, 'thorough': 120000}
WALL = {'quick': 200.0, 'thorough': 2700.0}
RULE = ('A run draws a search space and a history of add_symmetry/generate calls (both modes, all post-processing flags, dense or iterative '
        'solver), solver behaviours, and failures placed inside generate calls (solver call, user rule, any executed line); after every '
        'successful generate the span of every reported position is compared with the reference model. Non-trivial when at least two generate '
        'calls ran or a fault fired, and some reported space was neither empty nor everything.')
REAL = ['qosy.core.SymmetricOperatorGenerator and everything below it', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['eigensolver answers (seeded choice among legal answers) in runs with solver mode legal', 'standard output', 'user transformation rules']

EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def generate(rng, tier, index):
    typ = gen.op_type(rng)
    labs = gen.labels(rng, 1, 4 if rng.chance(0.35) else 3)
    sp = gen.search_space(rng, typ, labs, cap=36)
    n = len(sp.get('strings') or sp.get('operators'))
    pool = [gen.symmetry(rng, typ, labs) for _ in range(rng.randint(1, 3))]
    if typ == 'Pauli' and rng.chance(0.25):
        pool[rng.randrange(len(pool))] = {'kind': 'transformation', 'spec': {
            'kind': 'rule', 'name': rng.choice(['hadamard', 'flip', 'cycle', 'rotz']), 'angle': rng.choice([1.5707963267948966, 0.7])}}
    has_rule = '"rule"' in json.dumps(pool)
    sparse = rng.chance(0.3)
    ops = []
    adds = 0
    length = rng.randint(2, 7)
    while len(ops) < length or not any(o['op'] == 'generate' for o in ops):
        if any(o['op'] == 'generate' for o in ops) and rng.chance(0.12):
            ops.append({'op': 'tamper', 'how': rng.choice(['normalize', 'zero', 'clear', 'reverse'])})
            continue
        if adds == 0 or (adds < 4 and rng.chance(0.45)):
            nv = None
            if sparse and rng.chance(0.6):
                nv = rng.pick([(4, max(1, n - 2)), (2, rng.randint(1, max(1, n - 1))), (1, n)])
            ops.append({'op': 'add', 'sym': rng.randrange(len(pool)), 'num_vecs': nv,
                        'mode': rng.pick([(4, 'commutator'), (1, 'anticommutator')])})
            adds += 1
            continue
        if rng.chance(0.05):
            ops.append({'op': 'bad', 'what': rng.pick([(1, 'text'), (1, 'number'), (1, 'matrix'), (1, 'none'), (2, 'mode')]),
                        'mode': rng.pick([(1, 'commutator'), (1, 'anticommutator')]), 'sym': rng.randrange(len(pool))})
        g = {'op': 'generate', 'mode': rng.choice(['cumulative', 'noncumulative']),
             'sparsification': rng.chance(0.6), 'orthogonalization': rng.chance(0.4), 'verbose': rng.chance(0.3),
             'faults': []}
        if rng.chance(0.35):
            kind = rng.pick([(3, 'line'), (3, 'solver'), (6 if has_rule else 0, 'rule'), (1, 'output'), (1, 'badmode')])
            if kind == 'line':
                g['faults'] = [['line', round(rng.random(), 6), rng.choice(['interrupt', 'memory']), rng.pick(BY), round(rng.random(), 6)]]
            elif kind == 'solver':
                g['faults'] = [['solver', rng.randint(0, 2 * adds), rng.choice(seams.FAULTS)]]
            elif kind == 'rule':
                g['faults'] = [['rule', rng.randint(0, 12), rng.choice(['rule', 'memory', 'interrupt'])]]
            elif kind == 'output':
                g['verbose'] = True
                g['faults'] = [['output', rng.randint(0, 6 + 4 * adds), rng.choice(['eio', 'enospc', 'epipe'])]]
            else:
                g['faults'] = [['badmode', 0, '']]
        ops.append(g)
        if g['faults'] and rng.chance(0.7):
            ops.append(dict(g, faults=[]))
    if rng.chance(0.5) and ops[-1]['op'] == 'generate' and ops[-1]['faults']:
        ops.append(dict(ops[-1], faults=[]))
    sc = {'type': typ, 'labels': labs, 'space': sp, 'pool': pool, 'ops': ops, 'solver': gen.solver(rng, 0.15)}
    if typ == 'Pauli' and not has_rule and rng.chance(0.06):
        # A strong and a weak coupling that only turn the strong one, so that the answer stays clear.
        (a, b) = rng.sample(['X', 'Y', 'Z'], 2)
        (c, e) = (rng.choice(gen.COEFFS), rng.choice([5e-6, 2e-6, 5e-5, 1e-3]))
        sc['graded'] = True
        sc['labels'] = labs = labs[:2]
        sc['space'] = sp = {'kind': 'strings', 'strings': gen.all_strings(typ, labs, rng.choice([1, len(labs)]), rng.chance(0.5))}
        pool[rng.randrange(len(pool))] = {'kind': 'operator', 'terms': [[x, [[z, l]]] for l in labs for (x, z) in ((c, a), (c * e, b))]}
        for (i, s) in enumerate(pool):
            if not (s['kind'] == 'operator' and len(s['terms']) == 2 * len(labs) and s['terms'][0][1][0][0] == a):
                pool[i] = {'kind': 'transformation', 'spec': gen.permutation(rng, labs)}
        for o in ops:
            if o['op'] == 'add':
                o['num_vecs'] = None
            elif o['op'] == 'generate' and rng.chance(0.7):
                o['sparsification'] = False
    if rng.chance(0.3):
        # A second generator, for the same basis object or another space, in turns with the first.
        sc['second'] = 'same' if rng.chance(0.4) else gen.search_space(rng, typ, labs, cap=24)
        which = 0
        for (i, o) in enumerate(ops):
            if not (i and ops[i - 1].get('faults')) and rng.chance(0.4):
                which = 1 - which
            if i and o['op'] == 'add' and rng.chance(0.5):
                o['both'] = True
            o['g'] = which
    return sc


def simplify(sc):
    if sc.get('second'):
        c = copy.deepcopy(sc)
        c['second'] = None
        for o in c['ops']:
            o['g'] = 0
        yield c
    for (i, o) in enumerate(sc['ops']):
        if o['op'] in ('bad', 'tamper'):
            continue
        if o['op'] == 'generate':
            for key in ('sparsification', 'orthogonalization', 'verbose'):
                if o[key]:
                    c = copy.deepcopy(sc)
                    c['ops'][i][key] = False
                    yield c
        elif o['num_vecs'] is not None:
            c = copy.deepcopy(sc)
            c['ops'][i]['num_vecs'] = None
            yield c
    if sc['solver']['mode'] != 'canon':
        c = copy.deepcopy(sc)
        c['solver']['mode'] = 'canon'
        yield c
    for i in range(len(sc['pool'])):
        c = copy.deepcopy(sc)
        del c['pool'][i]
        c['ops'] = [o for o in c['ops'] if o['op'] in ('generate', 'tamper') or o['sym'] != i]
        for o in c['ops']:
            if o['op'] not in ('generate', 'tamper') and o['sym'] > i:
                o['sym'] -= 1
        yield c


class Run:
    def __init__(self, sc, ctx, spec=None, first=None):
        self.sc = sc
        self.ctx = ctx
        self.space = space.Space(sc['type'], sc['labels'], spec or sc['space'])
        self.syms = first.syms if first else [space.lib_symmetry(s, sc['type']) for s in sc['pool']]
        self.lib = first.lib if first and spec is None else self.space.library()
        self.generator = qosy.SymmetricOperatorGenerator(self.lib)
        self.added = []
        self.constraints = []
        self.generates = 0
        self.noncumulative = False    # some noncumulative call was made
        self.kept_complete = True
        self.smode = sc['solver']['mode']
        self.tampered = False         # the caller changed results that may be kept
        self.poisoned = False         # an accepted symmetry is none

    def add(self, o):
        if not 0 <= o['sym'] < len(self.syms):
            raise Invalid('symmetry')
        r = self.ctx.call(self.generator.add_symmetry, self.syms[o['sym']], operation_mode=o['mode'], num_vecs=o['num_vecs'])
        self.ctx.must_succeed(r, 'add_symmetry')
        self.added.append(o)
        self.constraints.append(self.space.constraint(self.sc['pool'][o['sym']], o['mode']))
        self.ctx.state('add', self.sc['pool'][o['sym']], o['mode'], o['num_vecs'])

    def bad(self, o):
        """Adds something that is no symmetry, which may be refused at once or when generating."""
        if not 0 <= o['sym'] < len(self.syms):
            raise Invalid('symmetry')
        thing = {'text': 'X 0', 'number': 1.0, 'matrix': np.eye(2), 'none': None, 'mode': self.syms[o['sym']]}[o['what']]
        mode = 'commute twice' if o['what'] == 'mode' else o['mode']
        r = self.ctx.call(self.generator.add_symmetry, thing, operation_mode=mode)
        self.ctx.configured('bad-symmetry')
        self.ctx.fired('bad-symmetry')
        self.ctx.state('bad', o['what'], o['mode'], r.ok)
        if r.ok:
            self.poisoned = True
        else:
            self.ctx.probe('refused-symmetry')

    def tamper(self, o):
        """The caller changes results it was given."""
        for part in list(self.generator.projected_output_operators) + list(self.generator.output_operators):
            if isinstance(part, np.ndarray):
                self.tampered = True
                if o['how'] == 'zero' and part.flags.writeable:
                    part *= 0.0
                elif o['how'] == 'reverse' and part.flags.writeable:
                    part[:] = part[::-1].copy()
            elif isinstance(part, list):
                for op in part:
                    if o['how'] == 'normalize' and len(op) and np.linalg.norm(op.coeffs) > 0:
                        op.normalize()
                    elif o['how'] == 'zero':
                        op *= 0.0
                if o['how'] == 'clear':
                    del part[:]
                elif o['how'] == 'reverse':
                    part.reverse()
        self.ctx.state('tamper', o['how'])
        self.ctx.probe('tampered')

    def kwargs(self, g):
        return {'mode': g['mode'], 'sparsification': g['sparsification'], 'orthogonalization': g['orthogonalization'],
                'verbose': g['verbose']}

    def generate(self, index, g):
        ctx = self.ctx
        seed = '{}/{}'.format(self.sc['solver']['seed'], index)
        kwargs = self.kwargs(g)
        solver = seams.SolverSim(self.smode, seed)
        (at, exc, out) = (None, None, None)
        rules = [r for s in self.syms for r in build.user_rules(s)]
        for r in rules:
            (r.calls, r.fail_at) = (0, None)
        configured = None
        for (kind, where, what, *how) in g['faults']:
            configured = kind
            (by, v) = how or ('time', 0.5)
            ctx.configured(kind + '-' + what)
            if kind == 'line':
                trial = copy.deepcopy(self.generator)
                points = Points(watch=trial if by == 'change' else None)
                dry = ctx.call(trial.generate, solver=seams.SolverSim(self.smode, seed), label='dry', hook=points.hook, **kwargs)
                if dry.hang:
                    ctx.must_succeed(dry, 'generate')
                at = points.pick(by, where, v)
                exc = EXCS[what]('injected')
            elif kind == 'solver':
                solver.faults = {int(where): what}
            elif kind == 'rule':
                for r in rules:
                    (r.fail_at, r.kind) = (where, what)
            elif kind == 'output':
                out = seams.SimulatedOutput(fail_at=where, kind=what)
            elif kind == 'badmode':
                kwargs['mode'] = 'commutative'
        failed_rules = sum(r.failures for r in rules)
        o = ctx.call(self.generator.generate, solver=solver, at=at, exc=exc, out=out, **kwargs)
        self.generates += 1
        if g['mode'] == 'noncumulative':
            self.noncumulative = True
        fired = None
        if o.fired is not None:
            fired = 'line'
        if o.solver_fired:
            fired = 'solver'
        if sum(r.failures for r in rules) > failed_rules:
            fired = 'rule'
            ctx.fired('rule')
        if out is not None and out.failures:
            fired = 'output'
            ctx.fired('output')
        if configured == 'badmode':
            fired = 'badmode'
            ctx.fired('badmode')
        for r in rules:
            r.fail_at = None
        ctx.state('generate', g['mode'], g['sparsification'], g['orthogonalization'], fired, o.ok)
        if o.hang:
            ctx.must_succeed(o, 'generate')
        if fired:
            ctx.probe('faulted-' + g['mode'])
            if o.ok and fired != 'output':
                ctx.violate('failure-swallowed', 'generate returned although a {} failure was injected'.format(fired))
        if self.poisoned:
            # (Generating may end early if nothing is left before the bad one.)
            if o.ok and g['mode'] == 'noncumulative':
                ctx.violate('failure-swallowed', 'generate returned although one of the symmetries is invalid')
            ctx.probe('poisoned')
            return
        if not o.ok:
            if not fired and not self.legitimate_refusal(o, g):
                ctx.must_succeed(o, 'generate (call {} of the history)'.format(index))
            if any('num_vecs' in w for w in o.warnings):
                self.kept_complete = False
            return
        if self.generates > 1:
            ctx.probe('repeated-' + g['mode'])
        self.check(o, g)

    def dims(self):
        """Dimension of the cumulative solutions before each symmetry."""
        out = [self.space.size]
        for i in range(len(self.added)):
            out.append(self.space.solutions(self.constraints[:i + 1]).shape[1])
        return out

    def legitimate_refusal(self, o, g):
        import scipy.sparse.linalg as ssla
        if self.smode == 'real' and any(a['num_vecs'] is not None for a in self.added):
            if isinstance(o.exc, (ssla.ArpackError, RuntimeError, np.linalg.LinAlgError)):
                return True
        if not isinstance(o.exc, (TypeError, ValueError)):
            return False
        # Too many eigenvectors asked of the iterative solver.
        dims = self.dims()
        for (i, a) in enumerate(self.added):
            if a['num_vecs'] is None:
                continue
            size = self.space.size if g['mode'] == 'noncumulative' else dims[i]
            if a['num_vecs'] >= size - 1:
                self.ctx.probe('refused')
                return True
            if g['mode'] == 'cumulative' and any(b['num_vecs'] is not None for b in self.added[:i]):
                # earlier truncation may have left fewer operators
                self.ctx.probe('refused')
                return True
        return False

    def check(self, o, g):
        ctx = self.ctx
        n = len(self.added)
        gen_ = self.generator
        truncated = any('num_vecs' in w for w in o.warnings)
        complete = not truncated
        if self.smode == 'real' and any(a['num_vecs'] is not None for a in self.added):
            complete = False
        if truncated:
            ctx.probe('truncated')
        proj = list(gen_.projected_output_operators)
        arrays = [p for p in proj if isinstance(p, np.ndarray)]
        lists = [p for p in proj if isinstance(p, list)]
        ctx.check(len(arrays) + len(lists) == len(proj), 'malformed-result', 'projected_output_operators holds {}'.format([type(p).__name__ for p in proj]))
        what = '{} generate number {}'.format(g['mode'], self.generates)
        expected = [self.space.operators(self.space.solutions(self.constraints[:i + 1])) for i in range(n)]
        dims = [e.shape[1] for e in expected]
        ctx.state(dims)
        if any(0 < d < self.space.size for d in dims) and (self.generates > 1 or ctx.faults_fired):
            ctx.nontrivial = True
        if g['mode'] == 'noncumulative':
            ctx.check(len(lists) == 0 and len(arrays) == n, 'wrong-positions',
                      lambda: '{}: {} positions reported for {} symmetries'.format(what, len(proj), n))
            self.check_noncumulative(what, arrays, expected, complete, self.tolerance(g))
            self.kept_complete = complete
            self.tampered = False
        else:
            # Results of earlier noncumulative calls may be kept in front, but
            # only for exactly the present symmetries.
            ctx.check(not arrays or (len(arrays) == n and self.noncumulative), 'wrong-positions',
                      lambda: '{}: results for {} symmetries kept, there are {}'.format(what, len(arrays), n))
            if arrays and not self.tampered:
                self.check_noncumulative(what + ' (kept part)', arrays, expected, self.kept_complete)
            ctx.check(len(lists) <= n, 'wrong-positions', lambda: '{}: {} positions reported for {} symmetries'.format(what, len(lists), n))
            for (i, ops) in enumerate(lists):
                cols = np.array([self.space.column_of(op) for op in ops]).T if ops else np.zeros((self.space.columns.shape[0], 0))
                for op in ops:
                    ctx.check(isinstance(op, qosy.Operator), 'malformed-result', '{}: reported {}'.format(what, type(op).__name__))
                # complete unless an earlier position was truncated
                space.judge(cols, expected[i], complete, '{} position {}'.format(what, i + 1), ctx, self.tolerance(g))
            missing = range(len(lists), n)
            for i in missing:
                ctx.check(i > 0 and (dims[i - 1] == 0 or (not complete and len(lists[i - 1] if i - 1 < len(lists) else []) == 0)),
                          'wrong-positions', lambda: '{}: no result for position {} although position {} has {} operators'.format(
                              what, i + 1, i, dims[i - 1] if i else '?'))

    def tolerance(self, g):
        # (The row reduction of sparsify may magnify rounding errors.)
        return 1e-6 if self.sc.get('graded') and not g['sparsification'] else 3e-4

    def check_noncumulative(self, what, arrays, expected, complete, tol=3e-4):
        ctx = self.ctx
        n = len(arrays)
        outs = list(self.generator.output_operators)
        ctx.check(len(outs) == n, 'wrong-positions', lambda: '{}: {} single-symmetry results for {} symmetries'.format(what, len(outs), n))
        for (i, arr) in enumerate(arrays):
            ctx.check(arr.ndim == 2 and arr.shape[0] == self.space.size, 'malformed-result', '{}: shape {}'.format(what, arr.shape))
            space.judge(self.space.columns @ arr, expected[i], complete, '{} position {}'.format(what, i + 1), ctx, tol)
        for (i, arr) in enumerate(outs):
            arr = np.asarray(arr)
            single = self.space.operators(self.space.solutions([self.constraints[i]]))
            space.judge(self.space.columns @ arr, single, complete, '{} symmetry {} alone'.format(what, i + 1), ctx, tol)


def execute(sc, ctx):
    runs = [Run(sc, ctx)]
    if sc.get('second'):
        runs.append(Run(sc, ctx, None if sc['second'] == 'same' else sc['second'], runs[0]))
        ctx.probe('two-generators')
    ctx.state(sc['type'], sc['labels'], sc['space'], sc.get('second'))
    for (i, o) in enumerate(sc['ops']):
        which = o.get('g', 0)
        if not 0 <= which < len(runs):
            raise Invalid('generator')
        run = runs[which]
        if o['op'] == 'add':
            run.add(o)
            if len(runs) > 1 and o.get('both'):
                runs[1 - which].add(o)
        elif o['op'] == 'bad':
            run.bad(o)
        elif o['op'] == 'tamper':
            run.tamper(o)
        elif run.added or run.poisoned:
            run.generate(i, o)
