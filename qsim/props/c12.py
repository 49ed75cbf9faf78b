"""C12: diagonalisation under every legal behaviour of the numerical solver."""
import numpy as np
import scipy.sparse.linalg as ssla

from .. import build, gen, model, seams
from ..build import qosy
from ..ctx import Invalid

RUNS = {'quick': 6000, 'thorough': 60000}
WALL = {'quick': 200.0, 'thorough': 2400.0}
RULE = ('A run draws an operator (Pauli, Majorana or Fermion strings; general, quadratic, hopping or pairing; with and without zero modes and '
        'degeneracies) and a sequence of diagonalisation calls, each with a solver behaviour (order, signs, rotations in degenerate groups, '
        'placement of the Schur blocks, round-off) and possibly a failing solver call; non-trivial when some call returned a spectrum with two different levels '
        'that was compared with the dense model, or when a failure fired.')
REAL = ['qosy.diagonalization (all of it), qosy.conversion and the operator classes', 'LAPACK/ARPACK in calls with solver mode real']
STUB = ['solver answers (seeded choice among the legal ones) in calls with solver mode legal']

FUNCTIONS = {
    'many': [(6, 'diagonalize'), (1, 'matrix')],
    'quadratic': [(2, 'diagonalize'), (4, 'quadratic'), (4, 'bdg')],
    'hopping': [(1, 'diagonalize'), (2, 'quadratic'), (2, 'bdg'), (4, 'tight')],
}


# -- operators -----------------------------------------------------------------

def fermion_terms(rng, n, kind):
    """[[coeff, [[op, label], [op, label]], imaginary?]...], distinct strings."""
    terms = []
    style = rng.pick([(3, 'chain'), (2, 'random'), (1, 'ring')])
    t = rng.choice(gen.COEFFS)
    d = rng.choice(gen.COEFFS + [t, -t])
    mu = rng.choice(gen.COEFFS + [0.0, 0.0])
    if style in ('chain', 'ring') and n > 1:
        bonds = [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if style == 'ring' and n > 2 else [])
        imag_t = rng.chance(0.15)
        imag_d = rng.chance(0.15)
        for (i, j) in bonds:
            terms.append([t, [['CDag', i], ['C', j]], imag_t])
            if kind == 'quadratic':
                terms.append([d, [['CDag', i], ['CDag', j]], imag_d])
        if mu:
            for i in range(n):
                terms.append([mu, [['CDag', i], ['C', i]], False])
    else:
        seen = set()
        for _ in range(rng.randint(1, 2 * n)):
            (i, j) = (rng.randrange(n), rng.randrange(n))
            what = rng.pick([(3, 'hop'), (3 if kind == 'quadratic' else 0, 'pair')])
            if i == j:
                what = 'hop'
            key = (what, min(i, j), max(i, j))
            if key in seen:
                continue
            seen.add(key)
            terms.append([rng.choice(gen.COEFFS), [['CDag', i], ['C' if what == 'hop' else 'CDag', j]], rng.chance(0.2) and i != j])
    rng.shuffle(terms)
    return terms


def majorana_terms(rng, n):
    terms = []
    seen = []
    style = rng.pick([(2, 'random'), (2, 'chain')])
    if style == 'chain' and n > 1:
        c = rng.choice(gen.COEFFS)
        (a, b) = rng.pick([(2, ('B', 'A')), (1, ('A', 'B')), (1, ('A', 'A'))])
        for i in range(n - 1):
            terms.append([c, [[a, i], [b, i + 1]]])
        if rng.chance(0.6):
            c = rng.choice(gen.COEFFS)
            for i in range(n):
                terms.append([c, [['D', i]]])
    else:
        for _ in range(rng.randint(1, 2 * n)):
            i = rng.randrange(n)
            j = rng.randrange(n)
            s = [['D', i]] if i == j else [[rng.choice('AB'), min(i, j)], [rng.choice('AB'), max(i, j)]]
            if s not in seen:
                seen.append(s)
                terms.append([rng.choice(gen.COEFFS), s])
    return terms


def generate(rng, tier, index):
    kind = rng.pick([(3, 'many'), (3, 'quadratic'), (2, 'hopping')])
    n = rng.pick([(1, 1), (3, 2), (4, 3), (2, 4)])
    labs = list(range(n))
    sc = {'kind': kind, 'n': n}
    if kind == 'many':
        sc['type'] = rng.pick([(3, 'Pauli'), (1, 'Majorana')])
        sc['terms'] = gen.hermitian(rng, sc['type'], labs)
        if rng.chance(0.15):
            sc['terms'] = sc['terms'] + [[rng.choice(gen.COEFFS), []]]
    elif kind == 'quadratic' and rng.chance(0.5):
        sc['type'] = 'Majorana'
        sc['terms'] = majorana_terms(rng, n)
    else:
        sc['type'] = 'Fermion'
        sc['terms'] = fermion_terms(rng, n, kind)
    if rng.chance(0.1):
        sc['n'] = n = n + 1       # an orbital the operator does not act on
    sc['calls'] = []
    for _ in range(rng.randint(1, 3)):
        fn = rng.pick(FUNCTIONS[kind])
        c = {'fn': fn, 'solver': gen.solver(rng), 'num_vecs': None}
        if fn == 'diagonalize':
            c['mode'] = rng.pick([(5, 'Hermitian'), (1, 'general')])
            if rng.chance(0.5):
                c['num_vecs'] = rng.randint(1, max(1, 2 ** n - 1))
        elif fn == 'tight':
            if rng.chance(0.5):
                c['num_vecs'] = rng.randint(1, max(1, n - 1))
        elif fn == 'bdg':
            if rng.chance(0.4):
                c['num_vecs'] = rng.randint(1, 2 * n - 1)
                c['sigma'] = rng.pick([(1, None), (1, 0.0)])
        if rng.chance(0.15):
            c['fault'] = rng.choice(seams.FAULTS)
        sc['calls'].append(c)
    return sc


def simplify(sc):
    for (i, c) in enumerate(sc['calls']):
        for (key, value) in (('num_vecs', None), ('sigma', None)):
            if c.get(key) is not None:
                d = dict(sc)
                d['calls'] = [dict(c, **{key: value}) if j == i else x for (j, x) in enumerate(sc['calls'])]
                yield d
        if c['solver']['mode'] != 'canon':
            d = dict(sc)
            d['calls'] = [dict(c, solver=dict(c['solver'], mode='canon')) if j == i else x for (j, x) in enumerate(sc['calls'])]
            yield d


class World:
    """The operator, and its dense matrix from the reference model."""

    def __init__(self, sc):
        n = sc['n']
        self.n = n
        self.type = sc['type']
        self.majorana = model.Algebra('Majorana', list(range(n)))
        a = [self.majorana.generator('A', i) for i in range(n)]
        b = [self.majorana.generator('B', i) for i in range(n)]
        self.c = [(x + 1j * y) / 2 for (x, y) in zip(a, b)]
        self.cdag = [np.conj(x.T) for x in self.c]
        dim = 2 ** n
        if self.type == 'Fermion':
            coeffs = []
            strings = []
            h = np.zeros((dim, dim), dtype=complex)
            for (coeff, ops, imag) in sc['terms']:
                labels = [int(l) for (_, l) in ops]
                if max(labels) >= n:
                    raise Invalid('label')
                pref = 1j if imag else 1.0
                strings.append(qosy.OperatorString([o for (o, _) in ops], labels, 'Fermion', prefactor=pref))
                coeffs.append(float(coeff))
                m = pref * coeff * np.eye(dim)
                for (o, l) in ops:
                    m = m @ (self.cdag[l] if o == 'CDag' else self.c[l])
                if [o for (o, _) in ops] == ['CDag', 'C'] and labels[0] == labels[1]:
                    if imag:
                        raise Invalid('not Hermitian')
                    # Conversions leave out the identity.
                    m = m - np.trace(m) / dim * np.eye(dim)
                else:
                    m = m + np.conj(m.T)
                h = h + m
            self.operator = qosy.Operator(np.array(coeffs), strings, 'Fermion')
            self.h = h
        else:
            alg = model.Algebra(self.type, list(range(n)))
            for (_, s) in sc['terms']:
                if any(l >= n for (_, l) in s):
                    raise Invalid('label')
            self.operator = build.lib_operator(sc['terms'], self.type)
            self.h = alg.combine(build.model_combo(sc['terms'])) if sc['terms'] else np.zeros((dim, dim), dtype=complex)
        self.scale = max(1.0, float(np.max(np.abs(self.h), initial=0.0)) * 4)
        self.tol = 1e-7 * self.scale

    def bracket(self, op):
        return self.h @ op - op @ self.h


def execute(sc, ctx):
    w = World(sc)
    levels = np.linalg.eigvalsh(w.h)
    ctx.state(sc['type'], sc['n'], sc['terms'])
    for c in sc['calls']:
        if c.get('fault'):
            ctx.configured('solver-' + c['fault'])
            run_call(w, c, ctx, levels, {0: c['fault']})
        run_call(w, c, ctx, levels, {})


def run_call(w, c, ctx, levels, faults):
    smode = c['solver']['mode']
    solver = seams.SolverSim(smode, c['solver']['seed'], faults)
    fn = c['fn']
    k = c.get('num_vecs')
    n = w.n
    if fn == 'diagonalize':
        kwargs = {} if c['mode'] == 'Hermitian' else {'mode': 'general'}
        o = ctx.call(qosy.diagonalize, w.operator, n, num_vecs=k, solver=solver, **kwargs)
        size = 2 ** n
    elif fn == 'quadratic':
        o = ctx.call(qosy.diagonalize_quadratic, w.operator, n, solver=solver)
    elif fn == 'bdg':
        o = ctx.call(qosy.diagonalize_bdg, w.operator, n, sigma=c.get('sigma'), num_vecs=k, solver=solver)
        size = 2 * n
    elif fn == 'tight':
        o = ctx.call(qosy.diagonalize_quadratic_tightbinding, w.operator, n, num_vecs=k, solver=solver)
        size = n
    else:
        return round_trip(w, ctx)
    ctx.state(fn, k, o.ok, o.solver_fired)
    if o.hang:
        ctx.must_succeed(o, fn)
    if o.solver_fired:
        ctx.nontrivial = True
        ctx.check(not o.ok, 'failure-swallowed', lambda: '{} returned although its solver failed with {}'.format(fn, o.solver_fired[0][1]))
        return
    if not o.ok and refusal(o, k, size if k is not None else 0, smode, c):
        ctx.probe('refused')
        return
    value = ctx.must_succeed(o, fn)
    ctx.probe(fn + ('' if k is None else ' partial'))
    exact = k is None or smode != 'real'
    if fn == 'diagonalize':
        check_many(w, c, ctx, value, levels, exact)
    elif fn == 'quadratic':
        check_quadratic(w, ctx, value, levels)
    elif fn == 'bdg':
        check_bdg(w, c, ctx, value, levels, exact)
    else:
        check_tight(w, c, ctx, value, exact)


def refusal(o, k, size, smode, c):
    if k is None:
        return False
    if isinstance(o.exc, (TypeError, ValueError)) and k >= size - 1:
        return True
    if c.get('sigma') is not None and isinstance(o.exc, RuntimeError):
        return True        # shift onto an eigenvalue
    return smode == 'real' and isinstance(o.exc, (ssla.ArpackError, np.linalg.LinAlgError, RuntimeError))


def pairs(ctx, fn, h, vals, vecs, tol, what='eigenpairs'):
    vals = np.asarray(vals)
    vecs = np.asarray(vecs)
    ctx.check(vecs.ndim == 2 and vecs.shape[0] == h.shape[0] and vals.shape == (vecs.shape[1],), 'malformed-result',
              lambda: '{}: {} values and vectors of shape {} for a matrix of size {}'.format(fn, vals.shape, vecs.shape, h.shape[0]))
    resid = np.max(np.abs(h @ vecs - vecs * vals[None, :]), initial=0.0)
    ctx.check(resid < tol, 'wrong-eigenpairs', lambda: '{}: a returned value and vector are not an eigenpair (residual {:.2e})'.format(fn, resid))
    norms = np.linalg.norm(vecs, axis=0)
    ctx.check(np.all(np.abs(norms - 1) < 1e-6), 'wrong-eigenpairs', lambda: '{}: vectors have norms {}'.format(fn, norms))


def orthonormal(ctx, fn, vecs, exact=True):
    g = np.conj(vecs.T) @ vecs
    if not exact:
        # The iterative solver does not orthogonalise degenerate vectors.
        ctx.check(model.rank(vecs) == vecs.shape[1], 'wrong-eigenpairs', lambda: '{}: vectors are linearly dependent'.format(fn))
        return
    ctx.check(np.max(np.abs(g - np.eye(g.shape[0])), initial=0.0) < 1e-6, 'wrong-eigenpairs', lambda: '{}: vectors are not orthonormal'.format(fn))


def count(ctx, fn, got, want):
    ctx.check(got == want, 'wrong-number', lambda: '{}: {} levels returned instead of {}'.format(fn, got, want))


def lowest(ctx, fn, vals, expected, tol, exact):
    ctx.check(np.all(np.diff(np.real(vals)) >= -tol), 'wrong-order', lambda: '{}: values {} are not in increasing order'.format(fn, vals))
    if exact:
        ctx.check(np.max(np.abs(np.asarray(vals) - expected[:len(vals)]), initial=0.0) < tol, 'wrong-levels',
                  lambda: '{}: values {} instead of {}'.format(fn, vals, expected[:len(vals)]))
    if len(expected) > 1 and expected[-1] - expected[0] > tol:
        ctx.nontrivial = True


def check_many(w, c, ctx, value, levels, exact):
    (vals, vecs) = value
    h = w.h
    k = c.get('num_vecs')
    count(ctx, 'diagonalize', len(vals), len(levels) if k is None else k)
    pairs(ctx, 'diagonalize', h, vals, vecs, w.tol)
    if c['mode'] == 'Hermitian':
        orthonormal(ctx, 'diagonalize', np.asarray(vecs), exact)
        lowest(ctx, 'diagonalize', vals, levels, w.tol, exact)
    elif exact:
        order = np.sort(np.abs(levels))[::-1]
        ctx.check(np.max(np.abs(np.sort(np.abs(vals))[::-1] - order[:len(vals)])) < w.tol, 'wrong-levels',
                  lambda: 'diagonalize: values {} of a matrix with levels {}'.format(vals, levels))


def check_quadratic(w, ctx, value, levels):
    (shift, energies, fermion, majorana) = value
    fn = 'diagonalize_quadratic'
    n = w.n
    energies = np.asarray(energies)
    count(ctx, fn, len(energies), n)
    ctx.check(np.all(energies > -w.tol), 'wrong-levels', lambda: '{}: energies {}'.format(fn, energies))
    ctx.check(abs(shift - levels[0]) < w.tol, 'wrong-levels', lambda: '{}: ground-state energy {} instead of {}'.format(fn, shift, levels[0]))
    spectrum = np.array([0.0])
    for e in energies:
        spectrum = np.concatenate([spectrum - e / 2, spectrum + e / 2])
    ctx.check(np.max(np.abs(np.sort(spectrum) - levels)) < w.tol, 'wrong-levels',
              lambda: '{}: the energies {} do not add up to the levels {}'.format(fn, energies, levels))
    if levels[-1] - levels[0] > w.tol:
        ctx.nontrivial = True
    majorana = np.asarray(majorana)
    fermion = np.asarray(fermion)
    ctx.check(majorana.shape == (2 * n, 2 * n) and fermion.shape == (2 * n, 2 * n), 'malformed-result', fn)
    basis = []
    for i in range(n):
        basis += [w.c[i] + w.cdag[i], 1j * (w.cdag[i] - w.c[i])]
    modes = [sum(majorana[l, m] * basis[l] for l in range(2 * n)) for m in range(2 * n)]
    eye = np.eye(2 ** n)
    for i in range(2 * n):
        for j in range(i + 1):
            d = modes[i] @ modes[j] + modes[j] @ modes[i] - (2 * eye if i == j else 0)
            ctx.check(np.max(np.abs(d)) < 1e-6, 'wrong-modes', '{}: Majorana modes {} and {} do not anticommute as they should'.format(fn, i, j))
    for m in range(n):
        # H = (i/2) sum_m e_m a_m b_m  =>  [H, a_m + i b_m] = -e_m (a_m + i b_m)
        x = modes[2 * m] + 1j * modes[2 * m + 1]
        ctx.check(np.max(np.abs(w.bracket(x) + energies[m] * x)) < w.tol, 'wrong-modes',
                  lambda: '{}: Majorana modes {}, {} do not have energy {}'.format(fn, 2 * m, 2 * m + 1, energies[m]))
    basis = w.c + w.cdag
    fmodes = [sum(fermion[l, m] * basis[l] for l in range(2 * n)) for m in range(2 * n)]
    for m in range(n):
        x = fmodes[m]
        ctx.check(np.max(np.abs(w.bracket(x) + energies[m] * x)) < w.tol, 'wrong-modes',
                  lambda: '{}: fermion mode {} does not have energy {}'.format(fn, m, energies[m]))
        ctx.check(np.max(np.abs(np.conj(x.T) - fmodes[n + m])) < 1e-6, 'wrong-modes',
                  lambda: '{}: fermion modes {} and {} are not conjugate'.format(fn, m, n + m))
        for l in range(n):
            d = x @ fmodes[n + l] + fmodes[n + l] @ x - (eye if l == m else 0)
            ctx.check(np.max(np.abs(d)) < 1e-6, 'wrong-modes', '{}: fermion modes {} and {} do not anticommute as they should'.format(fn, m, l))


def single_particle(w):
    """Non-negative single-particle energies (2n x 2n problem from the model)."""
    n = w.n
    basis = w.c + w.cdag
    m = np.zeros((2 * n, 2 * n), dtype=complex)
    dim = 2 ** n
    for (j, x) in enumerate(basis):
        y = w.bracket(x)
        for (i, z) in enumerate(basis):
            m[i, j] = np.trace(np.conj(z.T) @ y) / (dim / 2)
    return np.linalg.eigvalsh(m)[n:]


def check_bdg(w, c, ctx, value, levels, exact):
    (energies, u, v) = value
    fn = 'diagonalize_bdg'
    n = w.n
    k = c.get('num_vecs')
    energies = np.asarray(energies)
    want = n if k is None else min(n, k)
    count(ctx, fn, len(energies), want)
    u = np.asarray(u)
    v = np.asarray(v)
    if k is not None and k > n and not exact:
        u = u[:, :len(energies)]
        v = v[:, :len(energies)]
    ctx.check(u.shape == (n, want) and v.shape == (n, want), 'malformed-result', lambda: '{}: {} energies, U {}, V {}'.format(fn, len(energies), u.shape, v.shape))
    orthonormal(ctx, fn, np.concatenate([u, v]), exact)
    for m in range(want):
        x = sum(np.conj(u[l, m]) * w.c[l] + np.conj(v[l, m]) * w.cdag[l] for l in range(n))
        ctx.check(np.max(np.abs(w.bracket(x) - energies[m] * x)) < w.tol, 'wrong-modes',
                  lambda: '{}: mode {} does not have energy {}'.format(fn, m, energies[m]))
    if not exact:
        return
    sp = single_particle(w)
    got = np.sort(energies)
    if k is None or c.get('sigma') is None:
        expected = np.sort(sp)[n - want:]
    else:
        expected = np.sort(sp)[:want]
        if abs(expected[0]) < w.tol:
            return     # shift onto an eigenvalue
    ctx.check(np.max(np.abs(got - expected)) < w.tol, 'wrong-levels', lambda: '{}: energies {} instead of {}'.format(fn, got, expected))
    if levels[-1] - levels[0] > w.tol:
        ctx.nontrivial = True


def check_tight(w, c, ctx, value, exact):
    (vals, vecs) = value
    fn = 'diagonalize_quadratic_tightbinding'
    n = w.n
    k = c.get('num_vecs')
    t = np.zeros((n, n), dtype=complex)
    for j in range(n):
        # [H, c+_j] = sum_i t_ij c+_i
        y = w.bracket(w.cdag[j])
        for i in range(n):
            t[i, j] = np.trace(w.c[i] @ y) / 2 ** (n - 1)
    count(ctx, fn, len(vals), n if k is None else k)
    pairs(ctx, fn, t, vals, vecs, w.tol)
    orthonormal(ctx, fn, np.asarray(vecs), exact)
    lowest(ctx, fn, vals, np.linalg.eigvalsh(t), w.tol, exact)


def round_trip(w, ctx):
    """Matrix of the operator, and the operator read back from it."""
    if w.type != 'Pauli':
        return
    o = ctx.call(qosy.to_matrix, w.operator, w.n)
    m = ctx.must_succeed(o, 'to_matrix')
    ctx.check(np.max(np.abs(m.toarray() - w.h)) < w.tol, 'wrong-matrix', 'to_matrix: not the matrix of the operator')
    strings = [build.lib_string(build.st(s), 'Pauli') for s in gen.all_strings('Pauli', list(range(w.n)), w.n, True)]
    o = ctx.call(qosy.to_operator, m, qosy.Basis(strings), w.n)
    back = ctx.must_succeed(o, 'to_operator')
    ctx.check(build.combo_close(build.combo_of(back), build.combo_of(w.operator)), 'wrong-matrix', 'to_operator: not the operator of the matrix')
    ctx.probe('round trip')
