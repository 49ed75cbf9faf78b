"""C14: quantities computed from a solver's states, under every legal solver behaviour."""
import copy

import numpy as np
import scipy.sparse.linalg as ssla

from .. import build, gen, model, seams, snap
from ..build import qosy
from ..ctx import BY, Invalid, Points

RUNS = {'quick': 8000, 'thorough': 100000}
WALL = {'quick': 200.0, 'thorough': 2400.0}
RULE = ('A run draws an operator (often with a permutation symmetry, so that it has degenerate levels), diagonalises it with a seeded legal solver behaviour (or a '
        'failing one first) and computes a sequence of quantities from the returned states: reduced density matrices of columns, pairs and whole levels, '
        'entropies, transformed states, symmetry eigenvalues, operators read back from projectors, each possibly interrupted first. Non-trivial when a quantity of an '
        'entangled state or of a degenerate level was compared.')
REAL = ['qosy.diagonalization (states, density matrices, entropies, transformations of states, operators of matrices)', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['solver answers (seeded choice among the legal ones) in runs with solver mode legal']
EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def symmetric_terms(rng, labs, perm):
    """Terms that are invariant under a permutation of the orbitals."""
    seen = {}
    for (c, s) in gen.hermitian(rng, 'Pauli', labs):
        cur = tuple(sorted([(a, l) for (a, l) in s], key=lambda x: x[1]))
        for _ in range(24):
            if cur in seen:
                break
            seen[cur] = c
            cur = tuple(sorted([(a, perm[l]) for (a, l) in cur], key=lambda x: x[1]))
    items = [[c, [list(x) for x in s]] for (s, c) in seen.items()]
    rng.shuffle(items)
    return items


def generate(rng, tier, index):
    n = rng.pick([(1, 1), (3, 2), (4, 3), (2, 4)])
    labs = list(range(n))
    perm = list(range(n))
    if rng.chance(0.5):
        perm = perm[1:] + perm[:1]
    else:
        rng.shuffle(perm)
    kind = rng.pick([(3, 'symmetric'), (2, 'any')])
    terms = symmetric_terms(rng, labs, perm) if kind == 'symmetric' else gen.hermitian(rng, 'Pauli', labs)
    ops = []
    for _ in range(rng.randint(2, 7)):
        k = rng.pick([(4, 'rdm'), (2, 'pair'), (2, 'level'), (3, 'renyi'), (1, 'complement'), (3, 'transform'), (2, 'quantum'), (1, 'conf'), (2, 'readback'), (1, 'nested')])
        o = {'op': k, 'i': rng.randrange(64), 'j': rng.randrange(64), 'p': rng.randrange(8)}
        keep = rng.sample(labs, rng.randint(0, n))
        o['keep'] = keep
        o['form'] = rng.pick([(4, 'list'), (1, 'tuple'), (1, 'array')])
        o['n'] = rng.choice([2, 2, 3, 4])
        o['perms'] = rng.randint(1, 3)
        if rng.chance(0.2):
            other = list(range(n))
            rng.shuffle(other)
            o['perm'] = other
        if rng.chance(0.12):
            o['fault'] = [rng.choice(sorted(EXCS)), rng.pick(BY), round(rng.random(), 6), round(rng.random(), 6)]
        ops.append(o)
    sc = {'n': n, 'perm': perm, 'kind': kind, 'terms': terms, 'solver': gen.solver(rng), 'ops': ops, 'num_vecs': None}
    if rng.chance(0.3) and n > 1:
        sc['num_vecs'] = rng.randint(1, 2 ** n - 1)
    if rng.chance(0.15):
        sc['fault'] = rng.choice(seams.FAULTS)
    return sc


def simplify(sc):
    for (i, o) in enumerate(sc['ops']):
        for key in ('fault', 'perm'):
            if o.get(key):
                c = copy.deepcopy(sc)
                del c['ops'][i][key]
                yield c
    for key in ('fault', 'num_vecs'):
        if sc.get(key) is not None:
            c = copy.deepcopy(sc)
            c[key] = None
            yield c
    if sc['solver']['mode'] != 'canon':
        c = copy.deepcopy(sc)
        c['solver']['mode'] = 'canon'
        yield c


# -- the model -----------------------------------------------------------------

def permute(v, perm, n):
    """Orbital l of the old state becomes orbital perm[l]."""
    t = np.asarray(v).reshape([2] * n)
    inv = [0] * n
    for (l, p) in enumerate(perm):
        inv[p] = l
    return np.transpose(t, inv).reshape(-1)


def reduced(v, w, keep, n):
    """Tr over the other orbitals of |v><w|, kept orbitals in the given order."""
    rest = [l for l in range(n) if l not in keep]
    a = np.transpose(np.asarray(v).reshape([2] * n), list(keep) + rest).reshape(2 ** len(keep), -1)
    b = np.transpose(np.asarray(w).reshape([2] * n), list(keep) + rest).reshape(2 ** len(keep), -1)
    return a @ np.conj(b.T)


class World:
    def __init__(self, sc):
        n = self.n = sc['n']
        alg = model.Algebra('Pauli', list(range(n)))
        for (_, s) in sc['terms']:
            if any(l >= n for (_, l) in s):
                raise Invalid('label')
        if sorted(sc['perm']) != list(range(n)):
            raise Invalid('perm')
        if not sc['terms']:
            raise Invalid('terms')
        self.operator = build.lib_operator(sc['terms'], 'Pauli')
        self.h = alg.combine(build.model_combo(sc['terms']))
        (self.levels, vecs) = np.linalg.eigh(self.h)
        self.scale = max(1.0, float(np.max(np.abs(self.levels))))
        # groups of equal levels, when they are clearly apart
        self.groups = []
        for i in range(len(self.levels)):
            if i and self.levels[i] - self.levels[i - 1] < 1e-9 * self.scale:
                self.groups[-1].append(i)
            else:
                self.groups.append([i])
        gaps = np.diff(self.levels)
        self.clear = not np.any((gaps >= 1e-9 * self.scale) & (gaps < 1e-4 * self.scale))
        self.projectors = [vecs[:, g] @ np.conj(vecs[:, g].T) for g in self.groups]
        self.full = [build.lib_string(build.st(s), 'Pauli') for s in gen.all_strings('Pauli', list(range(n)), n, True)]


def execute(sc, ctx):
    w = World(sc)
    n = w.n
    smode = sc['solver']['mode']
    k = sc.get('num_vecs')
    ctx.state(n, sc['terms'], sc['perm'], k)
    if sc.get('fault'):
        ctx.configured('solver-' + sc['fault'])
        o = ctx.call(qosy.diagonalize, w.operator, n, num_vecs=k, solver=seams.SolverSim(smode, sc['solver']['seed'], {0: sc['fault']}))
        ctx.check(not (o.solver_fired and o.ok), 'failure-swallowed', lambda: 'diagonalize returned although its solver failed with {}'.format(sc['fault']))
    o = ctx.call(qosy.diagonalize, w.operator, n, num_vecs=k, solver=seams.SolverSim(smode, sc['solver']['seed']))
    if not o.ok and k is not None and (k >= 2 ** n - 1 or smode == 'real' and isinstance(o.exc, (ssla.ArpackError, np.linalg.LinAlgError, RuntimeError))):
        ctx.probe('refused')
        return
    (vals, vecs) = ctx.must_succeed(o, 'diagonalize')
    vals = np.asarray(vals)
    vecs = np.asarray(vecs)
    if k is not None and smode == 'real' and not np.allclose(np.conj(vecs.T) @ vecs, np.eye(vecs.shape[1]), atol=1e-8):
        # The iterative solver does not orthogonalise degenerate vectors.
        (vecs, _) = np.linalg.qr(vecs)
    s = Session(w, sc, ctx, vals, vecs)
    for op in sc['ops']:
        s.step(op)


class Session:
    def __init__(self, w, sc, ctx, vals, vecs):
        (self.w, self.sc, self.ctx) = (w, sc, ctx)
        (self.vals, self.vecs) = (vals, vecs)
        self.states = [vecs[:, i] for i in range(vecs.shape[1])]
        self.matrices = []
        self.exact = sc.get('num_vecs') is None or sc['solver']['mode'] != 'real'

    def call(self, o, fn, *args):
        """The call; sometimes interrupted first, with its inputs compared."""
        ctx = self.ctx
        name = fn.__name__
        if o.get('fault'):
            (kind, by, u, v) = o['fault']
            points = Points(watch=None)
            ctx.must_succeed(ctx.call(fn, *args, hook=points.hook), name)
            at = points.pick('time' if by == 'change' else by, u, v)
            if at is not None:
                before = snap.snap(args)
                ctx.configured('line-' + EXCS[kind].__name__)
                r = ctx.call(fn, *args, at=at, exc=EXCS[kind]('injected'))
                d = snap.diff(before, snap.snap(args))
                ctx.check(d is None, 'argument-modified', lambda: '{} interrupted at line {} changed its inputs: {}'.format(name, at, d))
                ctx.check(not (r.ok and r.fired), 'failure-swallowed', lambda: '{} returned although it was interrupted'.format(name))
        before = snap.snap(args)
        value = ctx.must_succeed(ctx.call(fn, *args), name)
        d = snap.diff(before, snap.snap(args))
        ctx.check(d is None, 'argument-modified', lambda: '{} changed its inputs: {}'.format(name, d))
        return value

    def same(self, got, want, what, tol=1e-9):
        (got, want) = (np.asarray(got), np.asarray(want))
        self.ctx.check(got.shape == want.shape, 'wrong-shape', lambda: '{}: shape {} instead of {}'.format(what, got.shape, want.shape))
        err = float(np.max(np.abs(got - want), initial=0.0))
        self.ctx.check(err < tol, 'wrong-value', lambda: '{}: wrong by {:.2e}'.format(what, err))

    def labels(self, o):
        keep = [l for l in o['keep'] if l < self.w.n]
        if o['form'] == 'tuple':
            return (keep, tuple(keep))
        if o['form'] == 'array':
            return (keep, np.array(keep, dtype=int))
        return (keep, list(keep))

    def state(self, i):
        return self.states[i % len(self.states)]

    def step(self, o):
        (w, ctx, n) = (self.w, self.ctx, self.w.n)
        op = o['op']
        v = self.state(o['i'])
        (keep, arg) = self.labels(o)
        ctx.state(op, keep, o['i'] % len(self.states))
        ctx.probe(op)
        if op in ('rdm', 'nested'):
            rho = self.call(o, qosy.reduced_density_matrix, v, arg, n)
            self.same(rho, reduced(v, v, keep, n), 'reduced density matrix of orbitals {}'.format(keep))
            self.same(np.trace(rho), np.vdot(v, v), 'trace of a reduced density matrix')
            self.matrices.append((rho, keep))
            if len(keep) not in (0, n) and np.linalg.matrix_rank(rho, 1e-6) > 1:
                ctx.nontrivial = True
            if op == 'nested' and keep:
                # in two steps, through the eigenvectors of the reduced matrix
                (ps, us) = np.linalg.eigh(rho)
                sub = list(range(len(keep)))[:max(1, len(keep) - 1)]
                total = sum(p * self.call(o, qosy.reduced_density_matrix, us[:, m], sub, len(keep)) for (m, p) in enumerate(ps))
                self.same(total, reduced(v, v, [keep[l] for l in sub], n), 'reduced density matrix in two steps')
        elif op == 'pair':
            x = self.state(o['j'])
            rho = self.call(o, qosy.reduced_density_matrix, (v, x), arg, n)
            self.same(rho, reduced(v, x, keep, n), 'reduced transition matrix of orbitals {}'.format(keep))
        elif op == 'level':
            g = self.group(o['i'])
            if g is None:
                return
            (cols, proj) = g
            total = sum(self.call(o, qosy.reduced_density_matrix, self.vecs[:, c], arg, n) for c in cols)
            (ps, us) = np.linalg.eigh(proj)
            want = sum(p * reduced(us[:, m], us[:, m], keep, n) for (m, p) in enumerate(ps))
            self.same(total, want, 'reduced density matrix of a whole level', 1e-7)
            if len(cols) > 1:
                ctx.nontrivial = True
        elif op == 'renyi':
            if not self.matrices:
                return
            (rho, _) = self.matrices[o['j'] % len(self.matrices)]
            ps = np.linalg.eigvalsh((rho + np.conj(rho.T)) / 2)
            s = self.call(o, qosy.renyi_entropy, rho, o['n'])
            self.same(s, np.log(np.sum(ps ** o['n'])) / (1 - o['n']), 'Renyi entropy {}'.format(o['n']), 1e-7)
        elif op == 'complement':
            rest = [l for l in range(n) if l not in keep]
            s1 = self.call(o, qosy.renyi_entropy, self.call(o, qosy.reduced_density_matrix, v, arg, n), o['n'])
            s2 = self.call(o, qosy.renyi_entropy, self.call(o, qosy.reduced_density_matrix, v, rest, n), o['n'])
            self.same(s1, s2, 'entropies of two complementary sets of orbitals', 1e-7)
        elif op == 'transform':
            perm = o.get('perm') or self.sc['perm']
            t = qosy.label_permutation(np.array(perm, dtype=int))
            x = v
            for _ in range(o['perms']):
                y = self.call(o, qosy.apply_transformation, t, x, n)
                self.same(y, permute(x, perm, n), 'state transformed by {}'.format(perm))
                x = y
            i = o['i'] % len(self.states)
            self.states.append(x)
            g = self.group(i) if i < self.vecs.shape[1] else None
            if self.sc['kind'] == 'symmetric' and not o.get('perm') and g is not None:
                self.same(g[1] @ x, x, 'a symmetry takes a state out of its level', 1e-7)
        elif op == 'quantum':
            g = self.group(o['i'])
            if self.sc['kind'] != 'symmetric' or g is None:
                return
            (cols, proj) = g
            t = qosy.label_permutation(np.array(self.sc['perm'], dtype=int))
            images = [self.call(o, qosy.apply_transformation, t, self.vecs[:, c], n) for c in cols]
            u = np.conj(self.vecs[:, cols].T) @ np.array(images).T
            self.same(u @ np.conj(u.T), np.eye(len(cols)), 'the symmetry within a level is not unitary', 1e-6)
            p = np.array([permute(e, self.sc['perm'], n) for e in np.eye(2 ** n)]).T
            self.same(np.trace(u), np.trace(proj @ p), 'character of a symmetry in a level', 1e-6)
            if len(cols) > 1:
                ctx.nontrivial = True
        elif op == 'conf':
            perm = o.get('perm') or self.sc['perm']
            t = qosy.label_permutation(np.array(perm, dtype=int))
            c = o['j'] % 2 ** n
            got = self.call(o, qosy.diagonalization.apply_transformation_conf, t, c, n)
            e = np.zeros(2 ** n)
            e[c] = 1
            self.same(got, np.argmax(permute(e, perm, n)), 'transformed configuration')
        elif op == 'readback':
            self.readback(o, v)

    def readback(self, o, v):
        """The operator of a projector has the state as its lowest one."""
        (w, ctx, n) = (self.w, self.ctx, self.w.n)
        proj = np.outer(v, np.conj(v))
        basis = qosy.Basis(w.full)
        a = self.call(o, qosy.to_operator, -np.asmatrix(proj), basis, n)
        m = self.call(o, qosy.to_matrix, a, n)
        self.same(m.toarray(), -proj, 'operator read back from a projector')
        if n > 1:
            (vals, vecs) = ctx.must_succeed(ctx.call(qosy.diagonalize, a, n, solver=seams.SolverSim(self.sc['solver']['mode'], self.sc['solver']['seed'] + 1)), 'diagonalize')
            self.same(vals[0], -np.real(np.vdot(v, v)), 'lowest level of a projector', 1e-7)
            self.same(abs(np.vdot(vecs[:, 0], v)), np.real(np.vdot(v, v)), 'overlap with the lowest state of a projector', 1e-6)

    def group(self, i):
        """Columns and projector of the level that holds column i, if all of it was computed."""
        w = self.w
        if not w.clear or not self.exact:
            return None
        i = i % self.vecs.shape[1]
        for (g, p) in zip(w.groups, w.projectors):
            if i in g:
                return (g, p) if g[-1] < self.vecs.shape[1] else None
        return None
