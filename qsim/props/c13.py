"""C13: computations with subspaces are exact for every legal solver behaviour."""
import numpy as np
import scipy.sparse as ss

from .. import model, seams, snap
from ..build import qosy
from ..ctx import Invalid, Skip

RUNS = {'quick': 8000, 'thorough': 120000}
WALL = {'quick': 150.0, 'thorough': 2400.0}
RULE = ('A run draws matrices whose columns span subspaces with known relations (built from a few common integer vectors; real or complex, dense or sparse, with dependent or vanishing columns) and a '
        'sequence of orthonormalisations, intersections and sparsifications, each on the results of earlier ones, with a solver behaviour and possibly a failure, after which the call is repeated; '
        'non-trivial when a result of at least two dimensions, or a proper intersection, was compared with the model.')
REAL = ['qosy.tools: gram_schmidt, intersection, sparsify', 'LAPACK in calls with solver mode real']
STUB = ['eigensolver answers (rotations in degenerate groups, signs, round-off) and pivot choices of equal size in calls with solver mode legal']
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


# -- generation -----------------------------------------------------------------

def generate(rng, tier, index):
    n = rng.pick([(1, 1), (2, 2), (4, 3), (5, 4), (4, 5), (3, 6), (2, 8)])
    cplx = rng.chance(0.35)
    m = rng.randint(1, n + 1)
    common = []
    style = rng.pick([(3, 'sparse'), (2, 'dense'), (2, 'units')])
    for i in range(m):
        if style == 'units':
            v = [0] * n
            v[rng.randrange(n)] = 1
        else:
            v = [rng.randint(-2, 2) if style == 'dense' or rng.chance(0.5) else 0 for _ in range(n)]
        common.append([[x, rng.randint(-1, 1) if cplx and x and rng.chance(0.4) else 0] for x in v])
    steps = []
    names = []
    for i in range(rng.randint(1, 3)):
        cols = []
        for _ in range(rng.randint(1, min(n, m) + 1)):
            which = rng.sample(range(m), rng.randint(1, min(2, m)))
            cols.append([[k, rng.choice([1, -1, 2, 1, 0.5])] for k in which])
        if rng.chance(0.3):
            # slightly tilted, so nearly orthogonal or nearly parallel columns
            for c in cols:
                if rng.chance(0.7):
                    c.append([rng.randrange(m), rng.choice([1e-7, -3e-8, 2e-9, 1e-4, 1e-3])])
        if rng.chance(0.25):
            cols.insert(rng.randint(0, len(cols)), rng.choice([[], [list(x) for x in rng.choice(cols)]]))
        name = 'a{}'.format(len(names))
        names.append(name)
        steps.append({'do': 'given', 'out': name, 'cols': cols, 'sparse': rng.chance(0.25), 'scale': rng.choice([1, 1, 1, 1000.0, 1e-3])})
        steps.append(call(rng, 'gram_schmidt', [name], names))
    for _ in range(rng.randint(1, 5)):
        fn = rng.pick([(3, 'intersection'), (3, 'sparsify'), (1, 'gram_schmidt')])
        if fn == 'intersection':
            steps.append(call(rng, fn, [rng.choice(names), rng.choice(names)], names))
        else:
            steps.append(call(rng, fn, [rng.choice(names)], names))
    return {'n': n, 'complex': cplx, 'common': common, 'steps': steps}


def call(rng, fn, args, names):
    out = 'a{}'.format(len(names))
    names.append(out)
    s = {'do': fn, 'args': args, 'out': out, 'solver': {'mode': rng.pick([(6, 'legal'), (2, 'real'), (1, 'canon')]), 'seed': rng.randrange(10 ** 9)}}
    if fn == 'gram_schmidt':
        s['tol'] = rng.choice([1e-10, 1e-10, 1e-8, 0.0])
    elif fn == 'sparsify':
        s['orthogonalize'] = rng.chance(0.5)
        s['sparse'] = rng.chance(0.15)
    if rng.chance(0.2):
        s['fault'] = {'kind': rng.pick([(2, 'solver'), (2, 'line')]), 'solver': rng.choice(('linalg', 'memory', 'interrupt')),
                      'u': round(rng.random(), 6), 'exc': rng.choice(sorted(EXC))}
    return s


# -- the model ------------------------------------------------------------------

class Space:
    """A library value, and what it is known to be."""

    def __init__(self, value, q, independent, orthonormal, columns=None, cond=1.0):
        self.cond = cond                 # how much round-off is amplified
        self.value = value
        self.q = q                       # orthonormal basis of its span (from the model)
        self.independent = independent   # are the columns of the value independent?
        self.orthonormal = orthonormal
        self.columns = columns           # the exact columns, if it was given


def dense(x):
    return x.toarray() if ss.issparse(x) else np.asarray(x)


def span(cols):
    """Orthonormal basis of the column span; Skip when the rank is doubtful."""
    if cols.shape[1] == 0 or np.max(np.abs(cols), initial=0.0) == 0:
        return np.zeros((cols.shape[0], 0), dtype=complex)
    norms = np.linalg.norm(cols, axis=0)
    scaled = cols / np.where(norms > 0, norms, 1.0)
    (u, s, _) = np.linalg.svd(scaled)
    if any(1e-11 < x < LOW for x in s):
        raise Skip('doubtful rank')
    return u[:, :int(np.sum(s > LOW))].astype(complex)


LOW = 2e-5


def condition(cols):
    """Amplification of round-off by a process that orthonormalises the columns in turn."""
    kept = []
    worst = 1.0
    for j in range(cols.shape[1]):
        n = float(np.linalg.norm(cols[:, j]))
        if n == 0:
            continue
        a = cols[:, j] / n
        if kept:
            q = np.linalg.qr(np.array(kept).T)[0]
            rest = float(np.linalg.norm(a - q @ (np.conj(q.T) @ a)))
        else:
            rest = 1.0
        if 1e-12 < rest < LOW:
            raise Skip('doubtful rank')
        if rest < LOW:
            continue
        kept.append(a)
        worst = max(worst, 1 / rest)
    if kept:
        s = np.linalg.svd(np.array(kept).T, compute_uv=False)
        worst = max(worst, float(s[0] / s[-1]))
    return worst


def decided(cols, tol, cond):
    """Is what is left of each column clearly more or clearly less than tol?"""
    kept = []
    for j in range(cols.shape[1]):
        a = cols[:, j]
        n = float(np.linalg.norm(a))
        if kept:
            q = np.linalg.qr(np.array(kept).T)[0]
            n = float(np.linalg.norm(a - q @ (np.conj(q.T) @ a)))
        size = float(np.linalg.norm(a))
        if n > LOW * size:
            if n < 10 * tol:
                return False
            kept.append(a / size)
        elif 1e-14 * cond * size > 0.1 * tol:
            return False
    return True


def meet(p, q):
    if p.shape[1] == 0 or q.shape[1] == 0:
        return np.zeros((p.shape[0], 0), dtype=complex)
    # The sines of the angles between p and q.
    (_, s, vh) = np.linalg.svd(p - q @ (np.conj(q.T) @ p))
    s = np.concatenate([s, np.zeros(p.shape[1] - len(s))])
    if any(1e-11 < x < 2e-2 for x in s):
        raise Skip('doubtful intersection')
    return p @ np.conj(vh[s < 1e-2].T)


def close(ctx, fn, value, q, what, tol, size):
    v = dense(value)
    ctx.check(v.ndim == 2 and v.shape[0] == q.shape[0], 'malformed-result', lambda: '{}: shape {}'.format(what, v.shape))
    ctx.check(np.all(np.isfinite(v)), 'not-finite', lambda: '{}: not finite'.format(what))
    ctx.check(v.shape[1] == q.shape[1], 'wrong-dimension', lambda: '{}: {} vectors, the space has {} dimensions'.format(what, v.shape[1], q.shape[1]))
    if v.shape[1] == 0:
        return
    norms = np.linalg.norm(v, axis=0)
    ctx.check(np.min(norms) > 1e-9 * min(1.0, size), 'wrong-space', lambda: '{}: a vector vanishes'.format(what))
    v = v / norms
    rest = float(np.max(np.abs(v - q @ (np.conj(q.T) @ v))))
    ctx.check(rest < tol, 'wrong-space', lambda: '{}: a vector is not in the space (by {:.1e})'.format(what, rest))
    smallest = float(np.linalg.svd(v, compute_uv=False)[-1])
    ctx.check(smallest > 1e-7, 'wrong-space', lambda: '{}: the vectors do not span the space'.format(what))


def orthonormal(ctx, value, what, tol):
    v = dense(value)
    g = np.conj(v.T) @ v
    worst = float(np.max(np.abs(g - np.eye(g.shape[0])), initial=0.0))
    ctx.check(worst < tol, 'not-orthonormal', lambda: '{}: the vectors are not orthonormal (by {:.1e})'.format(what, worst))


# -- execution --------------------------------------------------------------------

def execute(sc, ctx):
    n = sc['n']
    common = [np.array([a + 1j * b for (a, b) in v], dtype=complex) for v in sc['common']]
    world = {}
    for s in sc['steps']:
        if s['do'] == 'given':
            cols = []
            for c in s['cols']:
                v = np.zeros(n, dtype=complex)
                for (k, x) in c:
                    if k >= len(common):
                        raise Invalid('column')
                    v = v + x * common[k]
                cols.append(s['scale'] * v)
            m = np.array(cols, dtype=complex).T
            if not sc['complex']:
                m = np.real(m)
            q = span(m)
            world[s['out']] = Space(ss.csr_matrix(m) if s['sparse'] else m, q, q.shape[1] == m.shape[1], False, np.array(m), condition(m))
            continue
        for a in s['args']:
            if a not in world:
                raise Invalid('no such space')
        spaces = [world[a] for a in s['args']]
        if any(x is None for x in spaces):
            world[s['out']] = None
            continue
        world[s['out']] = perform(ctx, s, spaces)


def perform(ctx, s, spaces):
    """Make a call; None when its requirements are not met."""
    fn = s['do']
    what = '{}({})'.format(fn, ', '.join('{}x{}'.format(*x.value.shape) for x in spaces))
    (args, kw) = ([x.value for x in spaces], {})
    a = spaces[0]
    if fn == 'gram_schmidt':
        if s['tol'] == 0.0 and not a.independent:
            return None
        kw['tol'] = s['tol']
        if s['tol'] > 0 and not decided(dense(a.value), s['tol'], a.cond):
            return None
        q = a.q
    elif fn == 'intersection':
        if not all(x.orthonormal for x in spaces):
            return None
        args = [dense(x) for x in args]
        q = meet(a.q, spaces[1].q)
    else:
        if not a.independent:
            return None
        args = [ss.csr_matrix(dense(args[0]))] if s['sparse'] else [dense(args[0])]
        kw['orthogonalize'] = s['orthogonalize']
        what += ' orthogonalize={}'.format(s['orthogonalize'])
        q = a.q
    what += ' [{}]'.format(s['solver']['mode'])
    before = [snap.snap(x) for x in args]
    f = s.get('fault')
    lib = getattr(qosy, fn)

    def run(**more):
        solver = seams.SolverSim(s['solver']['mode'], s['solver']['seed'], more.pop('faults', None))
        return ctx.call(lib, *args, label=fn, solver=solver, budget=300000, **kw, **more)

    def intact(when):
        for (x, y) in zip(before, args):
            d = snap.diff(x, snap.snap(y))
            ctx.check(d is None, 'argument-modified', lambda: '{}: {} changed its argument: {}'.format(what, when, d))
    if f is not None:
        if f['kind'] == 'solver':
            ctx.configured('solver-' + f['solver'])
            o = run(faults={0: f['solver']})
            if o.solver_fired:
                ctx.check(not o.ok, 'failure-swallowed', lambda: '{} returned although its solver failed'.format(what))
                ctx.nontrivial = True
        else:
            ctx.configured('line-' + f['exc'])
            trial = run()
            if trial.ok and trial.lines:
                o = run(at=1 + int(f['u'] * trial.lines), exc=EXC[f['exc']]('injected'))
        intact('a failing call')
    o = run()
    value = ctx.must_succeed(o, what)
    intact('the call')
    ctx.state(fn, [x.value.shape for x in spaces], q.shape[1], snap.text(snap.snap(value)))
    cond = max(x.cond for x in spaces)
    # (classical and modified Gram-Schmidt are both fine)
    tol = min(1e-5, 1e-11 * cond ** 2)
    close(ctx, fn, value, q, what, tol, float(np.max(np.abs(dense(args[0])), initial=0.0)))
    single = fn == 'sparsify' and dense(args[0]).shape[1] <= 1       # returned as it is
    if fn != 'sparsify' or (s['orthogonalize'] and not single):
        orthonormal(ctx, value, what, tol)
    elif not single:
        norms = np.linalg.norm(dense(value), axis=0)
        ctx.check(np.all(np.abs(norms - 1) < 1e-6), 'not-normalised', lambda: '{}: vectors have norms {}'.format(what, norms))
    if fn == 'gram_schmidt':
        left_to_right(ctx, dense(args[0]), dense(value), what, tol)
    if q.shape[1] >= 2 or (fn == 'intersection' and 0 < q.shape[1] < min(x.q.shape[1] for x in spaces)):
        ctx.nontrivial = True
        ctx.probe(fn)
    if fn == 'intersection' and q.shape[1] and any(q.shape[1] < x.q.shape[1] for x in spaces):
        ctx.probe('proper-intersections')
    ctx.log(fn, snap.text(snap.snap(value)))
    done = isinstance(value, np.ndarray) or ss.issparse(value)
    ctx.check(done, 'malformed-result', lambda: '{}: returned a {}'.format(what, type(value).__name__))
    ortho = fn != 'sparsify' or (s['orthogonalize'] and not single) or (single and a.orthonormal)
    return Space(value.copy(), q, True, ortho, None, 1e2 * cond if fn == 'intersection' else cond)


def left_to_right(ctx, given, value, what, tol):
    """The first vectors span what the first columns span."""
    k = 0
    for j in range(given.shape[1]):
        try:
            q = span(given[:, :j + 1])
        except Skip:
            return
        if q.shape[1] == k:
            continue
        k = q.shape[1]
        v = value[:, :k]
        rest = float(np.max(np.abs(v - q @ (np.conj(q.T) @ v)), initial=0.0))
        ctx.check(rest < tol, 'wrong-order', lambda: '{}: the first {} vectors are not in the span of the first {} columns (by {:.1e})'.format(what, k, j + 1, rest))


def simplify(sc):
    for (i, s) in enumerate(sc['steps']):
        if s.get('fault'):
            yield dict(sc, steps=[{k: v for (k, v) in x.items() if k != 'fault'} if i == j else x for (j, x) in enumerate(sc['steps'])])
        if s.get('solver', {}).get('mode') in ('legal', 'real'):
            yield dict(sc, steps=[dict(x, solver=dict(x['solver'], mode='canon')) if i == j else x for (j, x) in enumerate(sc['steps'])])
