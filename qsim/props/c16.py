"""C16: every step of a workflow is exact, whatever was computed before it and how."""
import copy
import itertools
import math

import numpy as np

from .. import build, gen, model, seams, snap, space
from ..build import qosy
from ..ctx import BY, Invalid, Points

RUNS = {'quick': 9000, 'thorough': 120000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
RULE = ('A run draws a workflow of 4 to 14 steps over a pool of operators, bases, transformations and lattices, in which each step takes results of earlier steps: products and '
        'brackets, sums, conversions, transformations, searches with a legal (or first a failing) solver, spectral projectors, group averages, Lie algebras, structure constants, '
        'basis enumeration. Steps may be interrupted first. Each result is compared with dense matrices of its actual inputs, and at the end all results are compared '
        'again. Non-trivial when a step used a result that came out of at least two earlier steps or of the eigensolver.')
REAL = ['qosy.algebra, basis, operatorstring, conversion, transformation, symmetrization, lattice, core (single searches), diagonalization (matrices)', 'LAPACK/ARPACK in runs with solver mode real']
STUB = ['solver answers (seeded choice among the legal ones) in runs with solver mode legal']
EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}

# Executed lines after which a call is taken not to end (at least ten times what the slowest one needs).
BUDGETS = {'symmetrize_lattice': 40000000, 'symmetry_matrix': 20000000, 'generate_lie_algebra': 20000000}

STEPS = [(6, 'product'), (2, 'strings'), (4, 'combine'), (5, 'convert'), (5, 'apply'), (2, 'tproduct'), (1, 'tpower'), (3, 'symmatrix'), (4, 'search'), (3, 'constants'),
         (3, 'liouvillian'), (3, 'symmetrize'), (3, 'lie'), (2, 'matrix'), (2, 'spectral'), (1, 'parse'), (4, 'cluster'), (2, 'distance'), (2, 'union'), (1, 'convmatrix'),
         (1, 'lattice'), (2, 'spacegroup')]


def generate(rng, tier, index):
    n = rng.pick([(1, 1), (3, 2), (4, 3), (1, 4)])
    labs = list(range(n))
    if n > 1 and rng.chance(0.25):
        # few orbitals out of many
        labs = sorted(rng.sample(range(0, 13), n))
    typ = gen.op_type(rng)
    ops = []
    for _ in range(rng.randint(1, 3)):
        t = typ if rng.chance(0.75) else gen.op_type(rng)
        ops.append([t, gen.hermitian(rng, t, labs)])
    transformations = []
    for _ in range(rng.randint(1, 3)):
        t = typ if rng.chance(0.75) else gen.op_type(rng)
        transformations.append([t, gen.transformation(rng, t, labs)])
    steps = []
    for _ in range(rng.randint(4, 14)):
        k = rng.pick(STEPS)
        o = {'op': k, 'i': rng.randrange(64), 'j': rng.randrange(64), 'k': rng.randrange(64), 'flag': rng.chance(0.5), 'list': rng.chance(0.4), 'type': rng.choice(['Pauli', 'Majorana', 'Fermion']),
             'mode': rng.choice(['product', 'commutator', 'anticommutator']), 'c': [rng.choice(gen.COEFFS), rng.choice(gen.COEFFS)], 'late': rng.chance(0.7)}
        if k in ('cluster', 'distance', 'convmatrix'):
            o['labels'] = sorted(rng.sample(labs, rng.randint(1, n)))
            if rng.chance(0.2):
                rng.shuffle(o['labels'])
            o['size'] = rng.randint(1, n) if rng.chance(0.6) else sorted(rng.sample(range(0, n + 1), rng.randint(1, n)))
            o['form'] = rng.pick([(3, 'list'), (1, 'array')])
        if k in ('distance', 'lattice', 'spacegroup'):
            o['lattice'] = lattice_spec(rng, n)
            o['R'] = rng.choice([0.5, 1.0, 1.0, 1.5, 2.0, 1.0001])
        if k == 'lattice':
            o['group'] = rng.choice(['rotation', 'mirrors', 'both'])
            o['expansions'] = rng.pick([(4, 1), (1, 2)])
        if k == 'symmetrize':
            o['perms'] = [gen.permutation(rng, labs)['perm'] for _ in range(rng.randint(1, 3))]
            if rng.chance(0.2):
                o['perms'].append(list(range(max(labs) + 1)))
        if k == 'tpower':
            o['n'] = rng.randint(1, 4)
        if k == 'combine' and rng.chance(0.3):
            o['c'][1] = [o['c'][1], rng.choice(gen.COEFFS)]
        if rng.chance(0.1):
            o['fault'] = [rng.choice(sorted(EXCS)), rng.pick(BY), round(rng.random(), 6), round(rng.random(), 6)]
        if k in ('search', 'spectral') and rng.chance(0.2):
            o['solver_fault'] = rng.choice(seams.FAULTS)
        steps.append(o)
    return {'n': n, 'labels': labs, 'ops': ops, 'transformations': transformations, 'solver': gen.solver(rng), 'steps': steps}


def lattice_spec(rng, n):
    kind = rng.pick([(3, 'chain'), (3, 'square'), (2, 'triangular'), (2, 'kagome'), (2, 'cell'), (1, 'cubic')])
    spec = {'kind': kind, 'periodic': [rng.chance(0.6) for _ in range(3 if kind == 'cubic' else 2)], 'builder': rng.chance(0.5)}
    if kind == 'chain':
        spec['n'] = [rng.pick([(2, n), (1, rng.randint(1, 5))])]
    elif kind == 'square':
        spec['n'] = rng.choice([[2, 2], [1, 3], [3, 1], [2, 3], [1, n], [2, 1]])
    elif kind == 'cubic':
        spec['n'] = rng.choice([[2, 2, 2], [1, 2, 2], [2, 1, 1], [1, 1, 3]])
    else:
        spec['n'] = rng.choice([[1, 1], [2, 1], [1, 2], [2, 2]])
    if kind in ('chain', 'square', 'triangular') and rng.chance(0.3):
        spec['orbitals'] = rng.choice([['Up', 'Dn'], ['a'], ['Dn', 'Up']])
    if kind == 'cell':
        spec['atoms'] = [[rng.choice([0.0, 0.25, 0.5, 0.3]), rng.choice([0.0, 0.25, 0.5, 0.1])]]
        if rng.chance(0.5):
            spec['atoms'].append([spec['atoms'][0][0] + rng.choice([0.125, 0.4]), rng.choice([0.0, 0.25, 0.5, 0.1])])
    return spec


def simplify(sc):
    for (i, o) in enumerate(sc['steps']):
        for key in ('fault', 'solver_fault'):
            if o.get(key):
                c = copy.deepcopy(sc)
                del c['steps'][i][key]
                yield c
    if sc['solver']['mode'] != 'canon':
        c = copy.deepcopy(sc)
        c['solver']['mode'] = 'canon'
        yield c


# -- the model -----------------------------------------------------------------

class Rep:
    """All string types as matrices on the same orbitals (Jordan-Wigner)."""

    def __init__(self, labels):
        self.labels = sorted(labels)
        n = self.n = len(self.labels)
        self.dim = 2 ** n
        self.eye = np.eye(self.dim)
        self.algebras = {t: model.Algebra(t, self.labels) for t in ('Pauli', 'Majorana')}
        maj = self.algebras['Majorana']
        self.ann = {l: (maj.generator('A', l) + 1j * maj.generator('B', l)) / 2 for l in self.labels}
        self._fermions = {}

    def fermion(self, prefactor, dagger, annihilate):
        """prefactor c+_i1 ... c+_im c_jl ... c_j1 (+ H.c. if these are different labels)."""
        m = np.eye(self.dim, dtype=complex) * prefactor
        for l in dagger:
            m = m @ np.conj(self.ann[l].T)
        for l in annihilate:
            m = m @ self.ann[l]
        if tuple(dagger) != tuple(annihilate)[::-1]:
            m = m + np.conj(m.T)
        return m

    def string(self, os):
        if os.op_type == 'Fermion':
            pairs = tuple((str(a), int(l)) for (a, l) in zip(os.orbital_operators, os.orbital_labels))
            key = (pairs, complex(os.prefactor))
            if key not in self._fermions:
                d = [l for (a, l) in pairs if a == 'CDag']
                c = [l for (a, l) in pairs if a == 'C']
                if [a for (a, _) in pairs] != ['CDag'] * len(d) + ['C'] * len(c):
                    raise ValueError('not a fermion string: {}'.format(pairs))
                self._fermions[key] = self.fermion(complex(os.prefactor), d, c)
            return self._fermions[key]
        return self.algebras[os.op_type].matrix(build.model_string(os))

    def operator(self, op):
        m = np.zeros((self.dim, self.dim), dtype=complex)
        for (c, os) in op:
            m = m + complex(c) * self.string(os)
        return m

    def norm(self, m):
        return float(np.linalg.norm(m)) / math.sqrt(self.dim)

    def columns(self, mats):
        cols = [m.reshape(-1) for m in mats]
        return np.array(cols).T / math.sqrt(self.dim) if cols else np.zeros((self.dim ** 2, 0), dtype=complex)

    def bracket(self, a, b, mode):
        if mode == 'product':
            return a @ b
        return a @ b + b @ a if mode == 'anticommutator' else a @ b - b @ a


def string_names(typ, labels, size, identity):
    """Names of the strings of a cluster, by definition."""
    labels = sorted(labels)
    allowed = list(range(size + 1)) if isinstance(size, int) else list(size)
    out = []
    if identity:
        out.append('1.0 ')

    def name(prefactor, ops, labs):
        return prefactor + ' ' + ''.join('{} {} '.format(a, l) for (a, l) in zip(ops, labs))

    for k in range(1, len(labels) + 1):
        if k not in allowed:
            continue
        for pos in itertools.combinations(labels, k):
            if typ != 'Fermion':
                for let in itertools.product(gen.LET[typ], repeat=k):
                    nab = sum(1 for a in let if a in 'AB')
                    imaginary = typ == 'Majorana' and (nab * (nab - 1) // 2) % 2
                    out.append(name('1j' if imaginary else '1.0', let, pos))
                continue
            out.append(name('1.0', ['CDag'] * k + ['C'] * k, pos + pos[::-1]))
            for m in range(0, k + 1):
                for back in itertools.combinations(labels, m):
                    if m < k or back < pos:
                        for pre in ('1.0', '1j'):
                            out.append(name(pre, ['CDag'] * k + ['C'] * m, pos + back[::-1]))
    return out


class ModelLattice:
    """Positions, labels and distances of a lattice, by definition."""

    def __init__(self, spec):
        kind = spec['kind']
        num = [int(x) for x in spec['n']]
        d = len(num)
        orbs = spec.get('orbitals') or ['']
        if kind in ('chain', 'square', 'cubic'):
            self.vectors = [np.eye(d)[i] for i in range(d)]
            atoms = [np.zeros(d)]
        else:
            self.vectors = [np.array([1.0, 0.0]), np.array([0.5, math.sqrt(3) / 2])]
            atoms = [np.zeros(2)]
            if kind == 'cell':
                self.vectors = [np.array([1.0, 0.0]), np.array([0.0, 1.0])]
                atoms = [np.array(a, dtype=float) for a in spec['atoms']]
            if kind == 'kagome':
                (a, b) = self.vectors
                atoms = [a / 2, b / 2, (a + b) / 2] if not spec.get('builder') else [np.zeros(2), a / 2, b / 2]
        for i in range(len(atoms)):
            for j in range(i):
                if np.linalg.norm(atoms[i] - atoms[j]) < 0.01:
                    raise Invalid('atoms')
        self.kind = kind
        self.builder = bool(spec.get('builder'))
        self.num = num
        self.d = d
        self.atoms = atoms
        self.orbs = orbs
        self.periodic = [bool(p) for p in spec['periodic']][:d]
        self.sites = []
        for cell in itertools.product(*[range(x) for x in num]):
            for a in atoms:
                pos = a + sum(c * v for (c, v) in zip(cell, self.vectors))
                for o in orbs:
                    self.sites.append((pos, o))

    def library(self, full_periodic=False):
        bc = tuple([True] * self.d if full_periodic else self.periodic)
        if self.builder and self.kind == 'chain':
            return qosy.lattice.chain(self.num[0], bc[0], orbital_names=list(self.orbs))
        if self.builder and self.kind == 'square':
            return qosy.lattice.square(self.num[0], self.num[1], bc, list(self.orbs))
        if self.builder and self.kind == 'cubic':
            return qosy.lattice.cubic(3, tuple(self.num), bc, list(self.orbs))
        if self.builder and self.kind == 'kagome' and self.orbs == ['']:
            return qosy.lattice.kagome(self.num[0], self.num[1], bc)
        uc = qosy.UnitCell([v.copy() for v in self.vectors])
        for a in self.atoms:
            uc.add_atom(a, list(self.orbs))
        return qosy.Lattice(uc, tuple(self.num), periodic_boundaries=[True] * self.d if full_periodic else self.periodic)

    def distance(self, i, j):
        steps = [(-2, -1, 0, 1, 2) if p else (0,) for p in self.periodic]
        delta = self.sites[i][0] - self.sites[j][0]
        return min(np.linalg.norm(delta + sum(s * k * v for (s, k, v) in zip(t, self.num, self.vectors))) for t in itertools.product(*steps))

    def find(self, pos, orb):
        """Label of the orbital at a position, through periodic boundaries."""
        steps = [(-3, -2, -1, 0, 1, 2, 3) if p else (0,) for p in self.periodic]
        for t in itertools.product(*steps):
            shifted = pos + sum(s * k * v for (s, k, v) in zip(t, self.num, self.vectors))
            for (i, (p, o)) in enumerate(self.sites):
                if o == orb and np.linalg.norm(p - shifted) < 1e-6:
                    return i
        return None


class Entry:
    def __init__(self, op, matrix, typ, depth, name):
        (self.op, self.m, self.typ, self.depth, self.name) = (op, matrix, typ, depth, name)
        self.value = snap.snap(op)


def execute(sc, ctx):
    labels = [int(l) for l in sc.get('labels', range(sc['n']))]
    if len(labels) != sc['n'] or len(set(labels)) != len(labels) or min(labels) < 0:
        raise Invalid('labels')
    rep = Rep(labels)
    w = Workflow(sc, ctx, rep)
    for o in sc['steps']:
        try:
            w.step(o)
        except model.Ambiguous:
            ctx.probe('ambiguous')
    w.finish()


class Workflow:
    def __init__(self, sc, ctx, rep):
        (self.sc, self.ctx, self.rep) = (sc, ctx, rep)
        self.n = rep.n
        self.labels = rep.labels
        self.size = max(self.labels) + 1
        # whether the orbitals are numbered from 0 without gaps
        self.dense = self.size == self.n
        if not self.dense:
            ctx.probe('wide-labels')
        self.pool = []
        self.bases = []
        self.transformations = []
        self.smode = sc['solver']['mode']
        self.seed = int(sc['solver']['seed'])
        for (typ, terms) in sc['ops']:
            if not terms or any(int(l) not in self.labels for (_, s) in terms for (_, l) in s):
                raise Invalid('terms')
            op = build.lib_operator(terms, typ)
            m = rep.algebras[typ].combine(build.model_combo(terms))
            self.pool.append(Entry(op, m, typ, 0, 'input'))
        for (typ, spec) in sc['transformations']:
            if any(len(s) < self.size or any(s[l] not in self.labels for l in self.labels) for s in sizes(spec)):
                raise Invalid('permutation')
            self.transformations.append((typ, build.lib_transformation(spec), build.model_symmetry(spec, typ), 0))
        if not self.pool or not self.transformations:
            raise Invalid('empty')

    # -- plumbing ----------------------------------------------------------

    def solver(self, fault=None):
        self.seed += 1
        return seams.SolverSim(self.smode, self.seed, {0: fault} if fault else {})

    def call(self, o, fn, *args, solver=False, budget=None, **kwargs):
        ctx = self.ctx
        name = getattr(fn, '__name__', '?')

        def sim():
            return self.solver() if solver else None
        if o.get('fault'):
            (kind, by, u, v) = o['fault']
            points = Points(watch=[args, [e.op for e in self.pool]] if by == 'change' else None)
            first = ctx.call(fn, *args, hook=points.hook, solver=sim(), **kwargs)
            at = points.pick(by, u, v)
            if first.ok and at is not None:
                before = snap.snap(args)
                ctx.configured('line-' + EXCS[kind].__name__)
                r = ctx.call(fn, *args, at=at, exc=EXCS[kind]('injected'), solver=sim(), **kwargs)
                d = snap.diff(before, snap.snap(args))
                ctx.check(d is None, 'argument-modified', lambda: '{} interrupted at line {} changed its inputs: {}'.format(name, at, d))
                ctx.check(not (r.ok and r.fired), 'failure-swallowed', lambda: '{} returned although it was interrupted'.format(name))
        if solver and o.get('solver_fault'):
            ctx.configured('solver-' + o['solver_fault'])
            r = ctx.call(fn, *args, solver=self.solver(o['solver_fault']), **kwargs)
            ctx.check(not (r.solver_fired and r.ok), 'failure-swallowed', lambda: '{} returned although its solver failed'.format(name))
        before = snap.snap(args)
        value = ctx.must_succeed(ctx.call(fn, *args, solver=sim(), budget=budget or BUDGETS.get(name, 2000000), **kwargs), name)
        d = snap.diff(before, snap.snap(args))
        ctx.check(d is None, 'argument-modified', lambda: '{} changed its inputs: {}'.format(name, d))
        return value

    def same(self, got, want, what, scale=1.0, tol=1e-9):
        (got, want) = (np.asarray(got), np.asarray(want))
        self.ctx.check(got.shape == want.shape, 'wrong-shape', lambda: '{}: shape {} instead of {}'.format(what, got.shape, want.shape))
        err = float(np.max(np.abs(got - want), initial=0.0))
        self.ctx.check(err < tol * max(1.0, scale), 'wrong-value', lambda: '{}: wrong by {:.2e}'.format(what, err))

    def add(self, op, m, typ, depth, name):
        size = self.rep.norm(m)
        if 1e-3 < size < 1e3 and len(op) <= 80 and len(self.pool) < 40:
            self.pool.append(Entry(op, m, typ, depth, name))

    def find(self, i, types=('Pauli', 'Majorana'), late=True, hermitian=False, limit=None):
        found = [e for e in self.pool if e.typ in types and (limit is None or len(e.op) <= limit)
                 and (not hermitian or np.max(np.abs(np.imag(e.op.coeffs)), initial=0.0) < 1e-12)]
        if not found:
            return None
        if late:
            found = found[-4:]
        return found[i % len(found)]

    def used(self, *entries):
        d = max((e.depth for e in entries), default=0)
        if d >= 2:
            self.ctx.nontrivial = True
        return d + 1

    def basis(self, i, typ, limit=64):
        """A string basis of a type: one made before, or the strings of an operator."""
        found = [(b, d) for (t, b, d) in self.bases if t == typ and len(b) <= limit]
        if found:
            found = found[-4:]
            return found[i % len(found)]
        e = self.find(i, (typ,), limit=limit)
        if e is None or len(e.op) == 0:
            return None
        return (qosy.Basis(list(e.op._basis.op_strings)) if hasattr(e.op, '_basis') else qosy.Basis([s for (_, s) in e.op]), e.depth)

    def family(self, i, typ, limit=8):
        """Some operators that are clearly linearly independent."""
        out = []
        depth = 0
        for e in reversed(self.pool):
            if e.typ != typ or len(e.op) > 30:
                continue
            cols = self.rep.columns([x.m for x in out] + [e.m])
            s = np.linalg.svd(cols, compute_uv=False)
            if cols.shape[1] <= cols.shape[0] and s[-1] > 0.1 and s[0] < 100:
                out.append(e)
                depth = max(depth, e.depth)
            if len(out) >= 1 + i % limit:
                break
        return (out, depth)

    def searchspace(self, o, typ):
        """(library object, matrices, depth) of a string basis or operator list."""
        if o['list']:
            (es, depth) = self.family(o['j'], typ)
            if not es:
                return None
            return ([e.op for e in es], [e.m for e in es], depth)
        b = self.basis(o['j'], typ)
        if b is None:
            return None
        return (b[0], [self.rep.string(s) for s in b[0]], b[1])

    # -- steps -------------------------------------------------------------

    def step(self, o):
        self.ctx.state(o['op'], o['i'] % 4, o['mode'], o['list'], o['flag'], len(self.pool))
        getattr(self, 'do_' + o['op'])(o)

    def do_product(self, o):
        a = self.find(o['i'], late=o['late'])
        if a is None:
            return
        b = self.find(o['j'], (a.typ,))
        if len(a.op) * len(b.op) > 500:
            return
        fn = {'product': qosy.product, 'commutator': qosy.commutator, 'anticommutator': qosy.anticommutator}[o['mode']]
        r = self.call(o, fn, a.op, b.op)
        m = self.rep.bracket(a.m, b.m, o['mode'])
        self.same(self.rep.operator(r), m, o['mode'], self.rep.norm(a.m) * self.rep.norm(b.m))
        self.ctx.check(r.op_type == a.typ, 'wrong-type', lambda: '{} of {} operators is of type {}'.format(o['mode'], a.typ, r.op_type))
        depth = self.used(a, b)
        if o['mode'] == 'commutator' and o['flag']:
            # i [A, B] is Hermitian for Hermitian A and B
            (r, m) = (1j * r, 1j * m)
        self.add(r, m, a.typ, depth, o['mode'])
        self.ctx.probe('product')

    def do_strings(self, o):
        a = self.find(o['i'], late=o['late'])
        if a is None or len(a.op) == 0:
            return
        b = self.find(o['j'], (a.typ,), late=o['late'])
        if len(b.op) == 0:
            return
        s = list(a.op)[o['k'] % len(a.op)][1]
        t = list(b.op)[(o['i'] + o['j']) % len(b.op)][1]
        fn = {'product': qosy.product, 'commutator': qosy.commutator, 'anticommutator': qosy.anticommutator}[o['mode']]
        (c, u) = self.call(o, fn, s, t)
        got = np.zeros_like(self.rep.eye) if u is None else complex(c) * self.rep.string(u)
        self.ctx.check(u is not None or c == 0, 'wrong-value', lambda: '{} of strings: coefficient {} without a string'.format(o['mode'], c))
        self.same(got, self.rep.bracket(self.rep.string(s), self.rep.string(t), o['mode']), '{} of strings {}and {}'.format(o['mode'], s, t))
        self.used(a, b)

    def do_combine(self, o):
        a = self.find(o['i'], ('Pauli', 'Majorana', 'Fermion'), late=o['late'])
        b = self.find(o['j'], (a.typ,))
        (x, y) = (build.cnum(o['c'][0]), build.cnum(o['c'][1]))
        how = o['k'] % 3

        def combine(p, q):
            if how == 0:
                return x * p + y * q
            if how == 1:
                return x * (p - q)
            r = -1.0 * p
            r += y * q
            return r.remove_zeros(tol=1e-13)
        m = [x * a.m + y * b.m, x * (a.m - b.m), -a.m + y * b.m][how]
        r = self.call(o, combine, a.op, b.op)
        self.same(self.rep.operator(r), m, 'linear combination', self.rep.norm(a.m) + self.rep.norm(b.m))
        self.add(r, m, a.typ, self.used(a, b), 'combination')

    def do_convert(self, o):
        a = self.find(o['i'], ('Pauli', 'Majorana', 'Fermion'), late=o['late'], limit=40)
        if a is None:
            return
        to = o['type']
        if not self.dense and to != a.typ and 'Pauli' in (to, a.typ):
            # these involve all the orbitals in between
            return
        r = self.call(o, qosy.convert, a.op, to, include_identity=o['flag'])
        got = self.rep.operator(r)
        fermion = 'Fermion' in (a.typ, to) and a.typ != to
        if o['flag'] or not fermion:
            self.same(got, a.m, 'conversion from {} to {}'.format(a.typ, to), self.rep.norm(a.m))
        else:
            rest = got - a.m
            rest = rest - np.trace(rest) / self.rep.dim * self.rep.eye
            self.same(rest, 0 * rest, 'conversion from {} to {}, apart from the identity'.format(a.typ, to), self.rep.norm(a.m))
            self.ctx.check(all(len(s.orbital_labels) > 0 or abs(c) < 1e-12 for (c, s) in r), 'wrong-value', 'conversion without the identity contains it')
        self.ctx.check(r.op_type == to, 'wrong-type', lambda: 'conversion to {} gives {}'.format(to, r.op_type))
        if a.typ == 'Fermion' or to == 'Fermion':
            self.ctx.probe('convert-fermion')
        r = r.remove_zeros(tol=1e-13)
        self.add(r, got, to, self.used(a), 'conversion')

    def transformation(self, o, typ=None):
        found = [t for t in self.transformations if typ is None or t[0] == typ]
        return found[o['k'] % len(found)] if found else None

    def do_apply(self, o):
        t = self.transformation(o)
        a = self.find(o['i'], (t[0],), late=o['late'])
        if a is None:
            return
        r = self.call(o, t[1].apply, a.op)
        m = t[2].apply_combo(self.rep.algebras[t[0]], build.combo_of(a.op))
        self.same(self.rep.operator(r), m, 'transformed operator', self.rep.norm(a.m))
        self.add(r, m, a.typ, self.used(a) + t[3], 'transformed')
        self.ctx.probe('apply')

    def do_tproduct(self, o):
        t = self.transformation(o)
        found = [x for x in self.transformations if x[0] == t[0]]
        s = found[o['j'] % len(found)]
        if t[3] + s[3] >= 3:
            return
        r = self.call(o, lambda x, y: x * y, t[1], s[1])
        self.transformations.append((t[0], r, model.Composite([t[2], s[2]]), t[3] + s[3] + 1))
        self.check_transformation(o)

    def do_tpower(self, o):
        t = self.transformation(o)
        if t[3] >= 2:
            return
        r = self.call(o, lambda x, k: x ** k, t[1], int(o['n']))
        self.transformations.append((t[0], r, model.Composite([t[2]] * int(o['n'])), t[3] + 1))
        self.check_transformation(o)

    def check_transformation(self, o):
        """The newest transformation on a string."""
        (typ, lib, mod, _) = self.transformations[-1]
        alg = self.rep.algebras[typ]
        letters = gen.LET[typ]
        s = tuple((letters[(o['i'] + 5 * x + o['j']) % 3], l) for (x, l) in enumerate(self.labels) if (o['k'] >> x) & 1)
        r = self.call(o, lib.apply, build.lib_string(s, typ))
        self.same(self.rep.operator(r), mod.apply_string(alg, s), 'product of transformations on {}'.format(s))

    def do_symmatrix(self, o):
        t = self.transformation(o)
        found = self.searchspace(o, t[0])
        if found is None:
            return
        (lib, mats, depth) = found
        r = self.call(o, qosy.symmetry_matrix, lib, t[1])
        alg = self.rep.algebras[t[0]]
        v = self.rep.columns(mats)
        if isinstance(lib, list):
            images = [t[2].apply_combo(alg, build.combo_of(x)) for x in lib]
        else:
            images = [t[2].apply_string(alg, build.model_string(s)) for s in lib]
        want = np.linalg.pinv(v) @ self.rep.columns(images)
        self.same(r.toarray(), want, 'symmetry matrix', np.max(np.abs(want), initial=0.0) * 10)
        if depth >= 2:
            self.ctx.nontrivial = True

    def do_search(self, o):
        with_op = o['flag']
        t = None
        if with_op:
            a = self.find(o['i'], hermitian=True, late=o['late'], limit=30)
            if a is None:
                return
            typ = a.typ
        else:
            t = self.transformation(o)
            typ = t[0]
        mode = 'anticommutator' if o['mode'] == 'anticommutator' else 'commutator'
        found = self.searchspace(o, typ)
        if found is None:
            return
        (lib, mats, depth) = found
        v = self.rep.columns(mats)
        alg = self.rep.algebras[typ]
        if with_op:
            k = self.rep.columns([self.rep.bracket(m, a.m, mode) for m in mats])
        else:
            if isinstance(lib, list):
                images = [t[2].apply_combo(alg, build.combo_of(x)) for x in lib]
            else:
                images = [t[2].apply_string(alg, build.model_string(s)) for s in lib]
            k = self.rep.columns(images) - (1.0 if mode == 'commutator' else -1.0) * v
        if np.linalg.norm(k, 2) > 20:
            # round-off in the squares reaches the absolute tolerance
            return
        sol = model.null_space(k, low=1e-7, high=1e-3)
        expected = model.orth(v @ sol)
        if with_op:
            vecs = self.call(o, qosy.commuting_operators, lib, a.op, solver=True, operation_mode=mode)
        else:
            vecs = self.call(o, qosy.invariant_operators, lib, t[1], solver=True, operation_mode=mode)
        vecs = np.asarray(vecs)
        self.ctx.check(vecs.shape[0] == len(mats), 'malformed-result', 'vectors have {} rows instead of {}'.format(vecs.shape[0], len(mats)))
        space.judge(v @ vecs, expected, True, 'search', self.ctx)
        self.ctx.probe('search')
        if self.smode == 'legal' and vecs.shape[1]:
            self.ctx.nontrivial = True
        if vecs.shape[1] == 0:
            return
        column = vecs[:, o['j'] % vecs.shape[1]]
        if isinstance(lib, list):
            r = column[0] * lib[0]
            for (c, x) in zip(column[1:], lib[1:]):
                r += c * x
        else:
            r = qosy.Operator(column, list(lib))
        m = sum(complex(c) * x for (c, x) in zip(column, mats))
        self.add(r, m, typ, depth + 2, 'found')

    def do_constants(self, o):
        typ = o['type'] if o['type'] != 'Fermion' else 'Pauli'
        b1 = self.basis(o['i'], typ)
        b2 = self.basis(o['j'], typ, limit=16)
        if b1 is None or b2 is None or len(b1[0]) * len(b2[0]) > 600:
            return
        (ba, bb) = (b1[0], b2[0])
        (consts, ext) = self.call(o, qosy.structure_constants, ba, bb, operation_mode=o['mode'], return_extended_basis=True)
        self.judge_constants(consts, ext, ba, bb, o['mode'])
        if o['flag']:
            again = self.call(o, qosy.structure_constants, ba, bb, operation_mode=o['mode'])
            self.ctx.check(set(again) == set(consts) and all(np.array_equal(again[s].toarray(), consts[s].toarray()) for s in consts), 'wrong-value', 'structure constants differ without the extended basis')
        if max(b1[1], b2[1]) >= 2:
            self.ctx.nontrivial = True
        if 0 < len(ext) <= 64:
            self.bases.append((typ, ext, max(b1[1], b2[1]) + 1))

    def judge_constants(self, consts, ext, ba, bb, mode):
        strings = list(ext)
        self.ctx.check(len(set(s.name for s in strings)) == len(strings), 'duplicate-string', 'extended basis lists a string twice')
        mats = [self.rep.string(s) for s in strings]
        needed = set()
        for t in bb:
            c = consts[t].toarray()
            self.ctx.check(c.shape == (len(strings), len(ba)), 'wrong-shape', lambda: 'structure constants of shape {}'.format(c.shape))
            for (i, s) in enumerate(ba):
                want = self.rep.bracket(self.rep.string(s), self.rep.string(t), mode)
                rows = np.nonzero(c[:, i])[0]
                got = sum((c[r, i] * mats[r] for r in rows), np.zeros_like(want))
                self.same(got, want, 'structure constants of {}and {}'.format(s, t))
                needed.update(int(r) for r in rows)
        self.ctx.check(len(needed) == len(strings), 'wrong-value', lambda: 'extended basis has {} strings, {} are produced'.format(len(strings), len(needed)))

    def do_liouvillian(self, o):
        a = self.find(o['i'], late=o['late'], limit=20)
        if a is None:
            return
        found = self.searchspace(o, a.typ)
        if found is None:
            return
        (lib, mats, depth) = found
        mode = 'anticommutator' if o['mode'] == 'anticommutator' else 'commutator'
        scale = 1 + self.rep.norm(a.m) ** 2
        want = self.rep.columns([self.rep.bracket(m, a.m, mode) for m in mats])
        if o['k'] % 2:
            (r, ext) = self.call(o, qosy.liouvillian_matrix, lib, a.op, operation_mode=mode, return_extended_basis=True)
            e = self.rep.columns([self.rep.string(s) for s in ext])
            self.same(e @ r.toarray(), want, 'Liouvillian matrix', scale * 10)
            if 0 < len(ext) <= 64:
                self.bases.append((a.typ, ext, depth + 1))
        else:
            r = self.call(o, qosy.commutant_matrix, lib, a.op, operation_mode=mode)
            self.same(r.toarray(), np.conj(want.T) @ want, 'commutant matrix', scale * 10)
        if max(depth, a.depth) >= 2:
            self.ctx.nontrivial = True

    def do_symmetrize(self, o):
        typ = o['type'] if o['type'] != 'Fermion' else 'Majorana'
        b = self.basis(o['i'], typ)
        if b is None:
            return
        perms = [tuple(int(x) for x in p) for p in o['perms']]
        if any(sorted(p) != list(range(self.size)) or any(p[l] not in self.labels for l in self.labels) for p in perms):
            raise Invalid('perms')
        gens = [qosy.label_permutation(np.array(p, dtype=int)) for p in perms]
        r = self.call(o, qosy.symmetrize_basis, b[0], gens)
        # the group
        group = {tuple(range(self.size))}
        todo = list(group)
        while todo:
            g = todo.pop()
            for p in perms:
                h = tuple(g[p[l]] for l in range(self.size))
                if h not in group:
                    group.add(h)
                    todo.append(h)
        alg = self.rep.algebras[typ]
        syms = [build.model_symmetry({'kind': 'permutation', 'perm': list(g)}, typ) for g in sorted(group)]
        averages = []
        for s in b[0]:
            s = build.model_string(s)
            averages.append(sum(g.apply_string(alg, s) for g in syms) / len(syms))
        expected = model.orth(self.rep.columns(averages))
        mats = [self.rep.operator(x) for x in r]
        for (x, m) in zip(r, mats):
            self.ctx.check(abs(self.rep.norm(m) - 1) < 1e-9, 'wrong-value', lambda: 'symmetrized operator of norm {}'.format(self.rep.norm(m)))
            for p in perms:
                g = build.model_symmetry({'kind': 'permutation', 'perm': list(p)}, typ)
                self.same(g.apply_combo(alg, build.combo_of(x)), m, 'symmetrized operator under a generator')
        space.judge(self.rep.columns(mats), expected, True, 'symmetrize_basis', self.ctx)
        self.ctx.probe('symmetrize')
        if len(group) > 2:
            self.ctx.nontrivial = True
        if r:
            x = o['j'] % len(r)
            self.add(r[x], mats[x], typ, b[1] + 1, 'symmetrized')

    def do_lie(self, o):
        typ = o['type'] if o['type'] != 'Fermion' else 'Pauli'
        if o['list']:
            if self.n > 2:
                return
            (es, depth) = self.family(o['j'] % 3, typ)
            es = [e for e in es if np.max(np.abs(np.imag(e.op.coeffs)), initial=0.0) < 1e-12 and e.name != 'found']
            if not es:
                return
            lib = [e.op for e in es]
            mats = [e.m for e in es]
        else:
            b = self.basis(o['j'], typ, limit=40)
            if b is None:
                return
            (depth, few) = (b[1], list(b[0])[:1 + o['i'] % 4])
            lib = qosy.Basis(few)
            mats = [self.rep.string(s) for s in few]
        expected = self.closure(mats)
        if expected.shape[1] > 64:
            return
        # All pairs of its members (and of dependent generators), each with a dense commutator.
        bound = None
        if isinstance(lib, list):
            bound = 50000 + (expected.shape[1] + len(lib)) ** 2 * (500 + 60 * 16 ** self.n)
        r = self.call(o, qosy.generate_lie_algebra, lib, budget=bound)
        if isinstance(lib, list):
            got = [self.rep.operator(x) for x in r]
        else:
            got = [self.rep.string(s) for s in r]
        space.judge(self.rep.columns(got), expected, True, 'generate_lie_algebra', self.ctx)
        self.ctx.probe('lie')
        if depth >= 2:
            self.ctx.nontrivial = True
        if not isinstance(lib, list) and len(r) <= 64:
            self.bases.append((typ, r, depth + 1))

    def closure(self, mats):
        """Orthonormal basis of the Lie algebra, judged only if its rank is clear."""
        span = model.orth(self.rep.columns(mats), low=1e-9, high=1e-2)
        while True:
            ms = [span[:, i].reshape(self.rep.dim, self.rep.dim) * math.sqrt(self.rep.dim) for i in range(span.shape[1])]
            new = [self.rep.bracket(x, y, 'commutator') for (x, y) in itertools.combinations(ms, 2)]
            # Directions outside of the span, then only the clear ones
            c = self.rep.columns(new)
            c = c - span @ (np.conj(span.T) @ c)
            more = model.orth(c, low=1e-9, high=1e-2)
            if more.shape[1] == 0:
                return span
            span = np.hstack([span, more])
            if span.shape[1] > 70:
                return span

    def do_matrix(self, o):
        if not self.dense:
            return
        a = self.find(o['i'], ('Pauli',), late=o['late'])
        if a is None:
            return
        r = self.call(o, qosy.to_matrix, a.op, self.n)
        self.same(r.toarray(), a.m, 'matrix', self.rep.norm(a.m))
        full = qosy.Basis([build.lib_string(build.st(s), 'Pauli') for s in gen.all_strings('Pauli', list(range(self.n)), self.n, True)]) if self.n <= 2 else None
        if full is not None:
            back = self.call(o, qosy.to_operator, r, full, self.n)
            self.same(self.rep.operator(back), a.m, 'operator of the matrix', self.rep.norm(a.m))
            self.add(back.remove_zeros(tol=1e-12), a.m, 'Pauli', self.used(a), 'matrix')

    def do_spectral(self, o):
        """A spectral projector: an operator made of eigenvectors."""
        if self.n > 2 or not self.dense:
            return
        a = self.find(o['i'], ('Pauli',), hermitian=True, late=o['late'])
        if a is None or len(a.op) == 0:
            return
        (vals, vecs) = self.call(o, qosy.diagonalize, a.op, self.n, solver=True)
        (vals, vecs) = (np.asarray(vals), np.asarray(vecs))
        self.same(np.real(vals), np.linalg.eigvalsh(a.m), 'levels', 10 * self.rep.norm(a.m))
        self.same(a.m @ vecs, vecs * vals, 'eigenvectors', 10 * self.rep.norm(a.m))
        v = vecs[:, o['j'] % vecs.shape[1]]
        proj = np.outer(v, np.conj(v)) / np.real(np.vdot(v, v))
        full = qosy.Basis([build.lib_string(build.st(s), 'Pauli') for s in gen.all_strings('Pauli', list(range(self.n)), self.n, True)])
        p = self.call(o, qosy.to_operator, np.asmatrix(proj), full, self.n)
        self.same(self.rep.operator(p), proj, 'operator of a projector')
        c = self.call(o, qosy.commutator, p, a.op)
        self.same(self.rep.operator(c), np.zeros_like(proj), 'commutator with a spectral projector', 10 * self.rep.norm(a.m))
        self.ctx.nontrivial = True
        self.add(p, proj, 'Pauli', a.depth + 2, 'found')

    def do_parse(self, o):
        a = self.find(o['i'], ('Pauli', 'Majorana', 'Fermion'), late=o['late'])
        for (_, s) in list(a.op)[:6]:
            t = self.call(o, qosy.opstring, str(s), a.typ)
            self.ctx.check(t == s and hash(t) == hash(s) and t.name == s.name, 'wrong-value', lambda: '{} parses to {}'.format(s, t))
            if len(s.orbital_labels):
                t = self.call(o, qosy.opstring, str(s))
                self.ctx.check(t == s and t.op_type == a.typ, 'wrong-value', lambda: '{} parses to {} of type {}'.format(s, t, t.op_type))

    def do_cluster(self, o):
        labels = [int(l) for l in o['labels']]
        if any(l not in self.labels for l in labels) or not labels:
            raise Invalid('labels')
        size = o['size'] if isinstance(o['size'], int) else [int(x) for x in o['size']]
        arg = np.array(labels) if o['form'] == 'array' else list(labels)
        k = np.array(size) if o['form'] == 'array' and not isinstance(size, int) else size
        b = self.call(o, qosy.cluster_basis, k, arg, o['type'], include_identity=o['flag'])
        want = string_names(o['type'], labels, size, o['flag'])
        got = [s.name for s in b]
        self.ctx.check(sorted(got) == sorted(want), 'wrong-basis', lambda: 'cluster_basis({}, {}, {}): {}'.format(size, labels, o['type'], difference(got, want)))
        self.ctx.probe('cluster')
        if got and len(got) <= 64:
            self.bases.append((o['type'], b, 1))

    def do_distance(self, o):
        ml = ModelLattice(o['lattice'])
        count = len(ml.sites)
        typ = o['type']
        if count > 12 or (typ == 'Fermion' and count > 6):
            return
        lat = ml.library()
        most = 3 if count <= (4 if typ == 'Fermion' else 6) else 2
        size = min(most, o['size']) if isinstance(o['size'], int) else o['size']
        if not isinstance(size, int):
            size = [int(x) for x in size if x <= most] or [1]
        kw = {'include_identity': o['flag']}
        allowed = list(range(count))
        if o['list']:
            allowed = [l for l in range(count) if (o['i'] + 7 * l) % 3] or [0]
            kw['allowed_orbitals'] = list(allowed)
        b = self.call(o, qosy.distance_basis, lat, size, o['R'], typ, **kw)
        near = {(i, j): ml.distance(i, j) <= o['R'] + 1e-9 for i in allowed for j in allowed}
        want = ['1.0 '] if o['flag'] else []
        for name in string_names(typ, allowed, size, False):
            labs = sorted(set(int(x) for x in name.split()[2::2]))
            if all(near[p] for p in itertools.combinations(labs, 2)):
                want.append(name)
        if typ == 'Fermion':
            # up to k creation operators; the annihilation operators come on top
            pass
        got = [s.name for s in b]
        self.ctx.check(sorted(got) == sorted(want), 'wrong-basis', lambda: 'distance_basis({}, {}, {}, {}, {}): {}'.format(o['lattice'], size, o['R'], typ, kw, difference(got, want)))
        for i in range(count):
            for j in range(count):
                d = lat.distance(i, j)
                self.ctx.check(abs(d - ml.distance(i, j)) < 1e-9 or not plain(o['lattice']), 'wrong-value', lambda: 'distance of {} and {} is {} instead of {}'.format(i, j, d, ml.distance(i, j)))
        self.ctx.probe('distance')
        inside = [s for s in b if all(int(l) in self.labels for l in s.orbital_labels)]
        if 0 < len(inside) <= 64:
            self.bases.append((typ, qosy.Basis(inside), 1))

    def do_union(self, o):
        typ = o['type']
        found = [(b, d) for (t, b, d) in self.bases if t == typ]
        if not found:
            return
        (a, d1) = found[o['i'] % len(found)]
        (b, d2) = found[o['j'] % len(found)]
        r = self.call(o, lambda x, y: x + y, a, b)
        names = [s.name for s in a]
        names += [s.name for s in b if s.name not in set(names)]
        self.ctx.check([s.name for s in r] == names, 'wrong-basis', 'sum of bases: {}'.format(difference([s.name for s in r], names)))
        for (i, s) in enumerate(r):
            self.ctx.check(r.index(s) == i, 'wrong-value', lambda: 'index of string {} is {}'.format(i, r.index(s)))
        if len(r) <= 64:
            self.bases.append((typ, r, max(d1, d2) + 1))

    def do_convmatrix(self, o):
        labels = self.labels[:3]
        types = ['Pauli', 'Majorana', 'Fermion']
        (t1, t2) = (types[o['i'] % 3], types[o['j'] % 3])
        if not self.dense and t1 != t2 and 'Pauli' in (t1, t2):
            return
        b1 = self.call(o, qosy.cluster_basis, len(labels), labels, t1)
        b2 = self.call(o, qosy.cluster_basis, len(labels), labels, t2)
        r = self.call(o, qosy.conversion_matrix, b1, b2).toarray()
        v1 = self.rep.columns([self.rep.string(s) for s in b1])
        v2 = self.rep.columns([self.rep.string(s) for s in b2])
        rest = v2 @ r - v1
        e = self.rep.columns([self.rep.eye])
        rest = rest - e @ (np.conj(e.T) @ rest)
        self.same(rest, 0 * rest, 'conversion matrix from {} to {}'.format(t1, t2))
        if t1 != t2 and 'Fermion' in (t1, t2):
            self.ctx.probe('conversion-matrix')

    def do_spacegroup(self, o):
        ml = ModelLattice(o['lattice'])
        if len(ml.sites) > 16:
            return
        lat = ml.library()
        for (i, (pos, orb)) in enumerate(ml.sites):
            got = self.call(o, lat.index, pos, orb) if i == o['i'] % len(ml.sites) else lat.index(pos, orb)
            self.ctx.check(got == i, 'wrong-value', lambda: 'orbital {} is found at {}'.format(i, got))
            self.same(lat.position(i), pos, 'position of an orbital')
        r = point_group(o['lattice'], o['mode'])
        shift = sum((s * v for (s, v) in zip([o['i'] % 3, o['j'] % 3], ml.vectors)), np.zeros(ml.d)) if o['flag'] else np.zeros(ml.d)
        images = [ml.find(r @ pos + shift, orb) for (pos, orb) in ml.sites]
        if None in images or sorted(images) != list(range(len(images))) or not reachable(ml, r, shift):
            return
        t = self.call(o, qosy.space_group_symmetry, lat, r, shift)
        self.ctx.check([int(x) for x in t.info] == images, 'wrong-value', lambda: 'space group symmetry maps the orbitals to {} instead of {}'.format(list(t.info), images))
        self.ctx.probe('space-group')
        if self.dense and len(images) == self.n:
            typ = 'Majorana' if o['list'] else 'Pauli'
            self.transformations.append((typ, t, build.model_symmetry({'kind': 'permutation', 'perm': images}, typ), 1))

    def do_lattice(self, o):
        """A lattice symmetrised by its point group."""
        ml = ModelLattice(o['lattice'])
        gens = {'rotation': [point_group(o['lattice'], 'product')], 'mirrors': [point_group(o['lattice'], 'commutator'), point_group(o['lattice'], 'anticommutator')]}
        gens['both'] = gens['rotation'] + gens['mirrors']
        gens = gens[o['group']]
        lat = ml.library(full_periodic=True)
        r = self.call(o, qosy.symmetrize_lattice, lat, gens, num_expansions=int(o['expansions']))
        e = int(o['expansions']) + 1
        vectors = [e * v for v in ml.vectors]
        self.same(np.array(r.unit_cell.lattice_vectors), np.array(vectors), 'vectors of a symmetrized lattice')
        group = [np.eye(ml.d)]
        for g in group:
            for h in gens:
                if not any(np.allclose(g @ h, x) for x in group):
                    group.append(g @ h)
        want = []
        for cell in itertools.product(range(e), repeat=ml.d):
            for a in ml.atoms:
                for g in group:
                    p = g @ (a + sum(c * v for (c, v) in zip(cell, ml.vectors)))
                    if not any(equivalent(p, q, vectors) for q in want):
                        want.append(p)
        got = r.unit_cell.atom_positions
        for p in want:
            self.ctx.check(sum(1 for q in got if equivalent(p, q, vectors)) == 1, 'wrong-lattice', lambda: 'symmetrized lattice has {} atoms at {}'.format(
                sum(1 for q in got if equivalent(p, q, vectors)), np.round(p, 3)))
        self.ctx.check(len(got) == len(want), 'wrong-lattice', lambda: 'symmetrized lattice has {} atoms instead of {}'.format(len(got), len(want)))
        self.ctx.check(all(list(x) == list(ml.orbs) for x in r.unit_cell.atom_orbitals), 'wrong-lattice', 'symmetrized lattice has other orbitals')
        self.ctx.probe('symmetrize-lattice')

    def finish(self):
        for e in self.pool:
            d = snap.diff(e.value, snap.snap(e.op))
            self.ctx.check(d is None, 'result-modified', lambda: 'an earlier result ({}) has changed: {}'.format(e.name, d))
            self.same(self.rep.operator(e.op), e.m, 'earlier result ({})'.format(e.name), self.rep.norm(e.m), 1e-8)


def plain(spec):
    """Lattices whose nearest images are within one boundary vector per direction."""
    return spec['kind'] in ('chain', 'square', 'cell', 'cubic')


def point_group(spec, which):
    """A point group operation of the Bravais lattice."""
    if spec['kind'] == 'cubic':
        return {'product': np.array([[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]), 'commutator': np.array([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]),
                'anticommutator': np.diag([1.0, 1.0, -1.0])}[which]
    if spec['kind'] == 'chain':
        return np.array([[-1.0]]) if which != 'anticommutator' else np.array([[1.0]])
    if which == 'anticommutator':
        return np.array([[1.0, 0.0], [0.0, -1.0]])
    if spec['kind'] in ('square', 'cell'):
        return np.array([[0.0, -1.0], [1.0, 0.0]]) if which == 'product' else np.array([[0.0, 1.0], [1.0, 0.0]])
    t = math.pi / 3 if which == 'product' else 2 * math.pi / 3
    return np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])


def reachable(ml, r, shift):
    """Lattice.index looks at most one boundary vector away."""
    for (pos, orb) in ml.sites:
        q = r @ pos + shift
        steps = [(-1, 0, 1) if p else (0,) for p in ml.periodic]
        if not any(np.linalg.norm(p - q - sum(s * k * v for (s, k, v) in zip(t, ml.num, ml.vectors))) < 1e-7 and o == orb
                   for t in itertools.product(*steps) for (p, o) in ml.sites):
            return False
    return True


def equivalent(p, q, vectors):
    c = np.linalg.solve(np.array(vectors).T, p - q)
    return bool(np.max(np.abs(c - np.round(c))) < 1e-6)


def sizes(spec):
    if spec['kind'] == 'permutation':
        return [spec['perm']]
    if spec['kind'] == 'product':
        return [x for f in spec['factors'] for x in sizes(f)]
    if spec['kind'] == 'power':
        return sizes(spec['base'])
    return []


def difference(got, want):
    (g, w) = (set(got), set(want))
    return 'missing {}, extra {}, {} listed twice'.format(sorted(w - g)[:3], sorted(g - w)[:3], len(got) - len(g))
