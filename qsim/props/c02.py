"""C02: single-symmetry search under every legal eigensolver behaviour."""
import numpy as np

from .. import build, gen, model, seams, space
from ..build import qosy
from ..ctx import Invalid, Skip

RUNS = {'quick': 6000, 'thorough': 60000}
WALL = {'quick': 200.0, 'thorough': 2400.0}
RULE = ('A run draws orbitals, type (Pauli/Majorana), search space (strings or independent operators), a Hermitian operator or discrete '
        'transformation, mode, dense or iterative solver, and a solver behaviour (rotations, order, signs, round-off, failure of a call); '
        'non-trivial when the search space has >= 3 members and the symmetric space is neither empty nor everything, or when a failure fired.')
REAL = ['qosy.core.commuting_operators / invariant_operators and all the algebra below them', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['eigensolver answers (seeded choice among legal answers, computed by LAPACK) in runs with solver mode legal', 'user transformation rules']


def generate(rng, tier, index):
    typ = gen.op_type(rng)
    labs = gen.labels(rng, 1, 4 if tier == 'thorough' or rng.chance(0.5) else 3)
    sp = gen.search_space(rng, typ, labs, cap=40)
    n = len(sp.get('strings') or sp.get('operators'))
    sc = {
        'type': typ, 'labels': labs, 'space': sp, 'symmetry': gen.symmetry(rng, typ, labs),
        'mode': rng.pick([(3, 'commutator'), (1, 'anticommutator')]),
        'num_vecs': None, 'superoperator': rng.chance(0.3),
        'solver': gen.solver(rng), 'faults': [], 'again': rng.chance(0.3),
    }
    if rng.chance(0.5):
        sc['num_vecs'] = rng.pick([(3, max(1, n - 2)), (3, rng.randint(1, max(1, n - 1))), (1, n), (1, 1)])
    if rng.chance(0.2):
        sc['faults'] = [[rng.pick([(4, 0), (1, 1)]), rng.choice(seams.FAULTS)]]
    if sp['kind'] == 'strings' and rng.chance(0.08):
        wide(rng, sc, typ, labs)
    elif rng.chance(0.25):
        sc['tol'] = rng.choice([1e-11 if sp['kind'] == 'strings' else 1e-10, 1e-9, 1e-8])
    if rng.chance(0.25):
        sc['before'] = [rng.choice(['sparsify', 'generator', 'other', 'diagonalize', 'algebra', 'schmidt']) for _ in range(rng.randint(1, 2))]
    return sc


def wide(rng, sc, typ, labs):
    """A symmetry operator with coefficients of very different sizes."""
    terms = gen.hermitian(rng, typ, labs)
    top = max(abs(t[0]) for t in terms)
    terms = [[round(t[0] / top * rng.uniform(15.0, 20.0), 6), t[1]] for t in terms]
    for _ in range(rng.randint(1, 2)):
        s = gen.string(rng, typ, labs)
        if s not in [t[1] for t in terms]:
            terms.append([rng.choice([2e-4, -3e-4, 4e-4]), s])
    sc['symmetry'] = {'kind': 'operator', 'terms': terms}
    sc['wide'] = True
    sc['superoperator'] = False


def simplify(sc):
    for i in range(len(sc.get('before', []))):
        c = dict(sc)
        c['before'] = sc['before'][:i] + sc['before'][i + 1:]
        yield c
    for (key, value) in (('superoperator', False), ('again', False), ('num_vecs', None)):
        if sc.get(key) != value:
            c = dict(sc)
            c[key] = value
            yield c
    if sc['solver']['mode'] != 'canon':
        c = dict(sc)
        c['solver'] = dict(sc['solver'], mode='canon')
        yield c


def refusal_ok(exc, num_vecs, size):
    """The iterative solver cannot give (almost) all the eigenvectors."""
    return num_vecs is not None and isinstance(exc, (TypeError, ValueError)) and num_vecs >= size - 1


def solver_gave_up(o, mode):
    """The real iterative solver failed on its own account."""
    import scipy.sparse.linalg as ssla
    return mode == 'real' and isinstance(o.exc, (ssla.ArpackError, np.linalg.LinAlgError, RuntimeError))


def execute(sc, ctx):
    sp = space.Space(sc['type'], sc['labels'], sc['space'])
    mode = sc['mode']
    kmat = sp.constraint(sc['symmetry'], mode)
    sol = sp.solutions([kmat], low=1e-8, high=1e-4, absolute=True) if sc.get('wide') else sp.solutions([kmat])
    expected = sp.operators(sol)
    dim = sol.shape[1]
    lib = sp.library()
    sym = space.lib_symmetry(sc['symmetry'], sc['type'])
    fn = qosy.commuting_operators if sc['symmetry']['kind'] == 'operator' else qosy.invariant_operators
    kwargs = {'operation_mode': mode, 'num_vecs': sc['num_vecs'], 'return_superoperator': sc['superoperator']}
    if 'tol' in sc:
        kwargs['tol'] = sc['tol']
    smode = sc['solver']['mode']
    for (_, kind) in sc['faults']:
        ctx.configured('solver-' + kind)
    ctx.state(sc['type'], sp.size, dim, fn.__name__, kwargs['num_vecs'], mode, sc['labels'], sc['space'], sc['symmetry'])
    ctx.nontrivial = sp.size >= 3 and 0 < dim < sp.size

    def earlier(what):
        """Something else the user did before, in the same process."""
        few = lib
        if len(lib) > 20:
            few = list(lib)[:20] if isinstance(lib, list) else qosy.Basis(list(lib)[:20])
        nums = np.random.RandomState(int(sc['solver']['seed']) % 2 ** 31)
        if what == 'sparsify':
            m = nums.randn(5, 3)
            m[:, 2] = m[:, 0] - m[:, 1] if nums.rand() < 0.5 else m[:, 2]
            ctx.call(qosy.sparsify, m, orthogonalize=nums.rand() < 0.5)
        elif what == 'schmidt':
            ctx.call(qosy.gram_schmidt, nums.randn(5, 3), tol=1e-10)
        elif what == 'generator':
            g = qosy.SymmetricOperatorGenerator(few)
            ctx.call(g.add_symmetry, sym, operation_mode=mode)
            ctx.call(g.generate, mode=['cumulative', 'noncumulative'][nums.randint(2)], sparsification=True, orthogonalization=nums.rand() < 0.5)
        elif what == 'other':
            ctx.call(fn, few, sym, operation_mode='anticommutator' if mode == 'commutator' else 'commutator')
        elif what == 'diagonalize':
            op = qosy.Operator(np.array([1.0, 0.5]), [qosy.opstring('Z 0'), qosy.opstring('X 0')])
            ctx.call(qosy.diagonalize, op, 1)
        else:
            ctx.call(qosy.structure_constants, qosy.cluster_basis(1, [0, 1], 'Pauli'), qosy.cluster_basis(1, [0, 1], 'Pauli'))
        ctx.probe('before')

    for w in sc.get('before', []):
        earlier(w)

    def attempt(faults, seed):
        solver = seams.SolverSim(smode, seed, faults)
        o = ctx.call(fn, lib, sym, solver=solver, **kwargs)
        ctx.state(o.ok, o.solver_fired)
        if o.hang:
            ctx.must_succeed(o, fn.__name__)
        if o.solver_fired:
            ctx.nontrivial = True
            ctx.check(not o.ok, 'failure-swallowed', lambda: '{} returned although solver call {} failed with {}'.format(
                fn.__name__, *o.solver_fired[0]))
            return
        if not o.ok and (refusal_ok(o.exc, sc['num_vecs'], sp.size) or solver_gave_up(o, smode)):
            ctx.probe('refused')
            return
        ctx.must_succeed(o, fn.__name__)
        check(o)

    def check(o):
        value = o.value
        if sc['superoperator']:
            (vecs, sup, evals, evecs) = value
        else:
            vecs = value
        vecs = np.asarray(vecs)
        m = vecs.shape[1]
        warned = any('num_vecs' in w for w in o.warnings)
        exact = True
        if sc['num_vecs'] is not None:
            if m >= sc['num_vecs']:
                ctx.check(warned, 'silent-truncation',
                          '{}: all the {} vectors asked for are symmetric and there is no warning'.format(fn.__name__, m))
                exact = False
            # The real iterative solver may miss members of degenerate groups.
            exact = exact and smode != 'real'
            if warned:
                ctx.probe('warned')
        ctx.probe('iterative' if sc['num_vecs'] is not None else 'dense')
        ctx.check(vecs.shape[0] == sp.size, 'malformed-result', 'vectors have {} rows instead of {}'.format(vecs.shape[0], sp.size))
        # Reported vectors are coefficients in the search space.
        space.judge(sp.columns @ vecs, expected, exact, fn.__name__, ctx)
        if sc['num_vecs'] is not None and smode != 'real' and dim >= sc['num_vecs']:
            ctx.check(warned, 'silent-truncation', '{}: {} symmetric operators exist, {} asked for, no warning'.format(fn.__name__, dim, sc['num_vecs']))
        if sc['superoperator']:
            dense = sup.toarray() if hasattr(sup, 'toarray') else np.asarray(sup)
            ns = model.null_space(dense, low=1e-9, high=1e-5)
            ctx.check(model.same_span(sp.operators(ns), expected) is None, 'wrong-superoperator',
                      '{}: null space of the superoperator differs from the symmetric operators'.format(fn.__name__))
            resid = dense @ evecs - evecs * np.asarray(evals)[None, :]
            ctx.check(np.max(np.abs(resid), initial=0.0) < 1e-6 * max(1.0, np.max(np.abs(dense), initial=0.0)), 'wrong-eigenpairs',
                      '{}: returned eigenpairs are not eigenpairs of the returned superoperator'.format(fn.__name__))

    attempt({i: k for (i, k) in sc['faults']}, sc['solver']['seed'])
    if sc['faults'] or sc['again']:
        attempt({}, sc['solver']['seed'] + 1)
