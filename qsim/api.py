"""The public functions of the library as simulated calls on a pool of objects.

A world is a JSON pool of named object specifications.  A call is JSON too:
{'fn': name, 'args': [...], 'kw': {...}} whose arguments are literals or
{'ref': name} references to pool objects.
"""
import json
import math

import numpy as np
import scipy.sparse as ss

from . import build, gen, seams
from .build import qosy
from .ctx import Invalid

alg = qosy.algorithms


# -- pool objects --------------------------------------------------------------

def make(spec, world):
    kind = spec['kind']
    typ = spec.get('type')
    if kind == 'basis':
        return qosy.Basis([build.lib_string(build.st(s), typ) for s in spec['strings']])
    if kind == 'strings':
        return [build.lib_string(build.st(s), typ) for s in spec['strings']]
    if kind == 'string':
        if typ == 'Fermion':
            return qosy.OperatorString([a for (a, _) in spec['s']], [l for (_, l) in spec['s']], 'Fermion')
        return build.lib_string(build.st(spec['s']), typ)
    if kind == 'normalized':
        out = build.lib_operator(spec['terms'], typ)
        out.normalize()
        return out
    if kind == 'operator':
        if typ == 'Fermion':
            strings = [qosy.OperatorString([o for (o, _) in ops], [l for (_, l) in ops], 'Fermion', prefactor=1j if imag else 1.0)
                       for (_, ops, imag) in spec['terms']]
            return qosy.Operator(np.array([c for (c, _, _) in spec['terms']]), strings, 'Fermion')
        return build.lib_operator(spec['terms'], typ)
    if kind == 'operator_on':
        basis = world.get(spec['basis'])
        coeffs = [spec['coeffs'][i % len(spec['coeffs'])] for i in range(len(basis))]
        return qosy.Operator(np.array(coeffs, dtype=complex), basis)
    if kind == 'operators':
        return [build.lib_operator(t, typ) for t in spec['operators']]
    if kind == 'transformation':
        return build.lib_transformation(spec['spec'])
    if kind == 'transformations':
        return [build.lib_transformation(s) for s in spec['specs']]
    if kind == 'lattice':
        return build.lattice_from(spec['spec'])
    if kind == 'unitcell':
        cell = qosy.UnitCell([np.array(v, dtype=float) for v in spec['vectors']])
        for (pos, orbs) in spec['atoms']:
            if orbs is None:
                cell.add_atom(np.array(pos, dtype=float))
            else:
                cell.add_atom(np.array(pos, dtype=float), list(orbs))
        return cell
    if kind == 'array':
        data = spec['data']
        if spec.get('complex'):
            return np.array(data, dtype=float)[..., 0] + 1j * np.array(data, dtype=float)[..., 1]
        return np.array(data, dtype=int if spec.get('int') else float)
    if kind == 'sparse':
        return ss.csr_matrix(np.array(spec['data'], dtype=float))
    if kind == 'arrays':
        return [np.array(a, dtype=float) for a in spec['data']]
    if kind == 'list':
        return [list(x) if isinstance(x, list) else x for x in spec['data']]
    if kind == 'dict':
        return dict(spec['data'])
    if kind == 'text':
        return spec['data']
    if kind == 'list_of':
        return [world.get(n) for n in spec['refs']]
    raise Invalid('kind ' + kind)


class World:
    def __init__(self, pool):
        self.pool = pool
        self.objects = {}

    def get(self, name):
        if name not in self.objects:
            if name not in self.pool:
                raise Invalid('no object ' + name)
            self.objects[name] = make(self.pool[name], self)
        return self.objects[name]

    def build_all(self):
        for name in sorted(self.pool):
            self.get(name)
        return self

    def resolve(self, arg):
        if isinstance(arg, dict) and 'ref' in arg:
            return self.get(arg['ref'])
        if isinstance(arg, dict) and 'refs' in arg:
            return [self.get(n) for n in arg['refs']]
        if isinstance(arg, dict) and 'inf' in arg:
            return math.inf
        return arg


def refs_of(call):
    out = []
    for a in list(call['args']) + list(call['kw'].values()):
        if isinstance(a, dict):
            if 'ref' in a:
                out.append(a['ref'])
            out.extend(a.get('refs', []))
    return out


# -- world generator -----------------------------------------------------------

def generate_pool(rng, tier='quick', rules=True):
    typ = rng.pick([(3, 'Pauli'), (2, 'Majorana')])
    n = rng.pick([(1, 1), (4, 2), (3, 3)])
    labs = list(range(n))
    other = 'Majorana' if typ == 'Pauli' else 'Pauli'
    pool = {}
    for i in range(2):
        pool['b{}'.format(i)] = {'kind': 'basis', 'type': typ, 'strings': gen.string_basis(rng, typ, labs, 12)}
    k = min(n, 2)
    full = gen.all_strings(typ, labs, k, True)
    pool['bf'] = {'kind': 'basis', 'type': typ, 'strings': full}
    pool['bo'] = {'kind': 'basis', 'type': other, 'strings': gen.all_strings(other, labs, k, True)}
    for i in range(3):
        pool['o{}'.format(i)] = {'kind': 'operator', 'type': typ, 'terms': gen.hermitian(rng, typ, labs)}
    pool['ob'] = {'kind': 'operator_on', 'type': typ, 'basis': 'b0', 'coeffs': [rng.choice(gen.COEFFS) for _ in range(4)]}
    zeros = gen.hermitian(rng, typ, labs)
    small = rng.choice([0.0, 0.0, 1e-14])
    pool['oz'] = {'kind': 'operator', 'type': typ, 'terms': [[c if rng.chance(0.6) else small, s] for (c, s) in zeros]}
    pool['on'] = {'kind': 'normalized', 'type': typ, 'terms': pool['o{}'.format(rng.choice([0, 0, 1, 2]))]['terms']}
    pool['oo'] = {'kind': 'operator', 'type': other, 'terms': gen.hermitian(rng, other, labs)}
    pool['l0'] = {'kind': 'operators', 'type': typ, 'operators': gen.operator_list(rng, typ, labs, 8)}
    pool['pr'] = {'kind': 'strings', 'type': typ, 'strings': gen.string_basis(rng, typ, labs, 2)}
    pool['l1'] = {'kind': 'list_of', 'refs': ['o0', 'o1']}
    for i in range(2):
        pool['s{}'.format(i)] = {'kind': 'string', 'type': typ, 's': gen.string(rng, typ, labs)}
    pool['ss'] = {'kind': 'strings', 'type': typ, 'strings': gen.string_basis(rng, typ, labs, 6)}
    for i in range(2):
        pool['t{}'.format(i)] = {'kind': 'transformation', 'spec': gen.transformation(rng, typ, labs, rules=rules and typ == 'Pauli')}
    pool['tp'] = {'kind': 'transformations', 'specs': [gen.permutation(rng, labs) for _ in range(rng.randint(1, 2))]}
    pool['tq'] = {'kind': 'transformation', 'spec': gen.permutation(rng, labs)}
    pool['la'] = {'kind': 'lattice', 'spec': rng.pick([
        (3, {'kind': 'chain', 'n': rng.choice([max(n, 2), 3, 4, 5]), 'periodic': rng.chance(0.5)}),
        (1, {'kind': 'chain', 'n': 2, 'periodic': rng.chance(0.5), 'orbitals': ['Up', 'Dn']}),
        (2, {'kind': 'square', 'n': rng.randint(2, 3), 'm': 2, 'periodic': [rng.chance(0.5), rng.chance(0.5)]}),
        (1, {'kind': 'kagome', 'n': 1, 'm': 2, 'periodic': [False, rng.chance(0.5)]})])}
    pool['ls'] = {'kind': 'lattice', 'spec': {'kind': 'square', 'n': 1, 'm': 1}}
    pool['lp'] = {'kind': 'lattice', 'spec': {'kind': 'chain', 'n': max(n, 2), 'periodic': True}}
    pool['lu'] = {'kind': 'lattice', 'spec': {'kind': 'chain', 'n': 2, 'periodic': True, 'orbitals': ['Up', 'Dn']}}
    pool['uc'] = {'kind': 'unitcell', 'vectors': [[1.0, 0.0], [0.5, 2.0]],
                  'atoms': [[[0.0, 0.0], None], [[0.25, 0.5], ['a', 'b']]][:rng.randint(1, 2)]}
    pool['gg'] = {'kind': 'arrays', 'data': [[[0.0, 1.0], [1.0, 0.0]], [[-1.0, 0.0], [0.0, 1.0]]][:rng.randint(1, 2)]}
    rows = len(pool['b0']['strings'])
    cols = rng.randint(1, 3)
    pool['v0'] = {'kind': 'array', 'complex': True, 'data': [[[rng.choice(gen.COEFFS), 0.0 if rng.chance(0.7) else 1.0] for _ in range(cols)] for _ in range(rows)]}
    m = rng.randint(2, 5)
    cols = rng.randint(1, m)
    pool['ma'] = {'kind': 'array', 'complex': True, 'data': [[[rng.randint(-2, 2), 0] for _ in range(cols)] for _ in range(m)]}
    pool['mb'] = {'kind': 'array', 'complex': True, 'data': [[[rng.randint(-2, 2), 0] for _ in range(rng_cols)] for rng_cols in [cols] * m]}
    pool['mr'] = {'kind': 'array', 'data': [[float(rng.randint(-2, 2)) for _ in range(cols)] for _ in range(m)]}
    pool['ms'] = {'kind': 'sparse', 'data': [[float(rng.pick([(2, 0), (1, 1), (1, -2)])) for _ in range(cols)] for _ in range(m)]}
    perm = list(range(n))
    rng.shuffle(perm)
    pool['pe'] = {'kind': 'array', 'int': True, 'data': perm}
    pool['pl'] = {'kind': 'list', 'data': perm[::-1]}
    pool['nu'] = {'kind': 'list', 'data': [rng.randint(0, 5) for _ in range(rng.randint(1, 5))]}
    pool['na'] = {'kind': 'array', 'data': [float(x) for x in rng.sample(range(9), rng.randint(1, 5))]}
    pool['co'] = {'kind': 'array', 'complex': True, 'data': [[rng.choice(gen.COEFFS), 0.0] for _ in pool['ss']['strings']]}
    pool['lb'] = {'kind': 'list', 'data': labs}
    mixed = [l + rng.choice([0, 0, 3]) for l in range(rng.randint(2, 3))]
    rng.shuffle(mixed)
    pool['lx'] = {'kind': 'list', 'data': mixed}
    pool['ad'] = {'kind': 'list', 'data': adjacency(rng)}
    pool['du'] = {'kind': 'arrays', 'data': [[float(rng.randint(0, 1)), 1.0] for _ in range(rng.randint(1, 5))]}
    pool['sd'] = {'kind': 'dict', 'data': {' 1': '_a', ' 2': '_b', 'X': 'Y'}}
    pool['tx'] = {'kind': 'text', 'data': rng.choice(['X 1 Y 2', 'A 1 B 2', 'X 2 X 1'])}
    pool['vp'] = {'kind': 'array', 'complex': True, 'data': [[rng.choice(gen.COEFFS), rng.choice([0.0, 0.5])] for _ in range(2 ** n)]}
    pool['vq'] = {'kind': 'array', 'complex': True, 'data': [[rng.choice(gen.COEFFS), rng.choice([0.0, 0.5])] for _ in range(2 ** n)]}
    pool['fm'] = {'kind': 'operator', 'type': 'Majorana', 'terms': [[rng.choice(gen.COEFFS), s] for s in rng.sample([s for s in gen.all_strings('Majorana', labs, 2) if len(s) == 2 and all(a != 'D' for (a, _) in s) or len(s) == 1 and s[0][0] == 'D'], min(2, n))]}
    pool['rho'] = {'kind': 'array', 'complex': True, 'data': [[[0.5 if i == j else 0.1, 0.0] for j in range(2)] for i in range(2)]}
    from .props.c12 import fermion_terms
    pool['fo'] = {'kind': 'operator', 'type': 'Fermion', 'terms': fermion_terms(rng, n, 'quadratic')}
    pool['fh'] = {'kind': 'operator', 'type': 'Fermion', 'terms': fermion_terms(rng, n, 'hopping')}
    pool['fs'] = {'kind': 'string', 'type': 'Fermion', 's': [['CDag', rng.randrange(n)], ['C', rng.randrange(n)]]}
    return ({'type': typ, 'n': n, 'other': other}, pool)


def near(rng, pool, typ):
    """The same pool with small changes: equal sizes and types, other values."""
    out = {}
    for name in pool:
        spec = json.loads(json.dumps(pool[name]))
        if rng.chance(0.6):
            for _ in range(rng.pick([(3, 1), (1, 2)])):
                _vary(rng, spec, spec.get('type', typ))
        out[name] = spec
    return out


def _vary_string(rng, s, typ):
    if not s or typ not in gen.LET:
        return
    i = rng.randrange(len(s))
    if rng.chance(0.75):
        s[i][0] = rng.choice([a for a in gen.LET[typ] if a != s[i][0]])
    else:
        labels = [l for (_, l) in s]
        new = rng.randint(0, max(labels) + 1)
        if new not in labels:
            s[i][1] = new
            s.sort(key=lambda x: x[1])


def _vary_coefficient(rng, c):
    if isinstance(c, list):
        c = c[0]
    return rng.choice([-c, 2 * c, c + 0.25, 0.0, c + 1e-7])


def _vary_terms(rng, terms, typ):
    if not terms:
        return
    i = rng.randrange(len(terms))
    k = rng.pick([(4, 'coefficient'), (2, 'string'), (1, 'order'), (1, 'drop')])
    if typ == 'Fermion':
        terms[i][0] = _vary_coefficient(rng, terms[i][0])
    elif k == 'coefficient':
        terms[i][0] = _vary_coefficient(rng, terms[i][0])
    elif k == 'order':
        rng.shuffle(terms)
    elif k == 'drop' and len(terms) > 1:
        terms.pop(i)
    else:
        s = [list(x) for x in terms[i][1]]
        _vary_string(rng, s, typ)
        if s not in [t[1] for t in terms]:
            terms[i][1] = s


def _vary(rng, spec, typ):
    """Change one aspect of an object."""
    kind = spec['kind']
    if kind in ('basis', 'strings'):
        strings = spec['strings']
        i = rng.randrange(len(strings)) if strings else 0
        k = rng.pick([(3, 'string'), (2, 'order'), (1, 'drop')])
        if not strings:
            return
        if k == 'order':
            rng.shuffle(strings)
        elif k == 'drop' and len(strings) > 1:
            strings.pop(i)
        else:
            s = [list(x) for x in strings[i]]
            _vary_string(rng, s, typ)
            if s not in strings:
                strings[i] = s
    elif kind == 'string':
        _vary_string(rng, spec['s'], typ)
    elif kind in ('operator', 'normalized'):
        _vary_terms(rng, spec['terms'], typ)
    elif kind == 'operator_on':
        i = rng.randrange(len(spec['coeffs']))
        spec['coeffs'][i] = _vary_coefficient(rng, spec['coeffs'][i])
    elif kind == 'operators':
        if rng.chance(0.3):
            rng.shuffle(spec['operators'])
        else:
            _vary_terms(rng, rng.choice(spec['operators']), typ)
    elif kind in ('transformation', 'transformations'):
        _vary_transformation(rng, spec['spec'] if kind == 'transformation' else rng.choice(spec['specs']))
    elif kind == 'lattice':
        _vary_lattice(rng, spec['spec'])
    elif kind == 'unitcell':
        k = rng.randint(0, 2)
        atom = rng.choice(spec['atoms'])
        if k == 0:
            rng.choice(spec['vectors'])[1] += 0.5
        elif k == 1:
            atom[0][rng.randint(0, 1)] += 0.125
        else:
            atom[1] = ['c'] if atom[1] is None else atom[1][::-1]
    elif kind in ('array', 'arrays', 'sparse', 'list'):
        _vary_data(rng, spec['data'], kind)
    elif kind == 'dict':
        spec['data']['X'] = rng.choice(['Z', 'X'])
    elif kind == 'text':
        spec['data'] = spec['data'].replace('1', '0') if rng.chance(0.5) else spec['data'].replace('X', 'Z')


def _vary_transformation(rng, t):
    kind = t['kind']
    if kind == 'permutation' and len(t['perm']) > 1:
        (i, j) = rng.sample(range(len(t['perm'])), 2)
        (t['perm'][i], t['perm'][j]) = (t['perm'][j], t['perm'][i])
    elif kind == 'rule':
        if t['name'] == 'rotz' and rng.chance(0.5):
            t['angle'] += 0.3
        else:
            t['name'] = rng.choice(['hadamard', 'flip', 'cycle', 'rotz'])
    elif kind == 'space_group':
        if rng.chance(0.5):
            t['R'] = [[-t['R'][0][0]]]
        else:
            t['d'] = [(t['d'][0] + 1) % t['chain']['n']]
    elif kind == 'product':
        if rng.chance(0.5):
            t['factors'].reverse()
        else:
            _vary_transformation(rng, rng.choice(t['factors']))
    elif kind == 'power':
        if rng.chance(0.5):
            t['n'] += 1
        else:
            _vary_transformation(rng, t['base'])
    elif kind == 'particle_hole':
        t['kind'] = 'time_reversal'
    elif kind == 'time_reversal' and 'chain' not in t:
        pass


def _vary_lattice(rng, l):
    if l['kind'] == 'chain':
        if rng.chance(0.6) or not l.get('orbitals'):
            l['periodic'] = not l.get('periodic', False)
        else:
            l['orbitals'] = l['orbitals'][::-1]
    else:
        per = list(l.get('periodic') or [False, False])
        i = rng.randint(0, 1)
        per[i] = not per[i]
        l['periodic'] = per


def _vary_data(rng, data, kind):
    """One number of nested lists, or the order of a list of integers."""
    while isinstance(data, list) and data and isinstance(data[0], list) and not (kind == 'list' and rng.chance(0.3)):
        data = rng.choice(data)
    if not isinstance(data, list) or not data:
        return
    i = rng.randrange(len(data))
    if all(isinstance(x, int) and not isinstance(x, bool) for x in data) or not isinstance(data[i], (int, float)):
        j = rng.randrange(len(data))
        (data[i], data[j]) = (data[j], data[i])
    else:
        data[i] = data[i] + rng.choice([1.0, -2.0, 0.5])


def adjacency(rng):
    n = rng.randint(1, 5)
    out = [[] for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if rng.chance(0.5):
                out[i].append(j)
                out[j].append(i)
    return out


# -- calls ---------------------------------------------------------------------

class G:
    """Argument generator bound to one world."""

    def __init__(self, rng, info, tier='quick'):
        self.r = rng
        self.typ = info['type']
        self.n = info['n']
        self.other = info['other']
        self.tier = tier

    def ref(self, *names):
        return {'ref': self.r.choice(list(names))}

    def basis(self):
        return self.ref('b0', 'b1', 'b0', 'bf')

    def op(self):
        return self.ref('o0', 'o1', 'o2', 'ob', 'oz')

    def os(self):
        return self.ref('s0', 's1')

    def t(self):
        return self.ref('t0', 't1', 'tq')

    def mode(self):
        return self.r.pick([(2, 'commutator'), (1, 'anticommutator')])

    def space(self):
        return self.ref('b0', 'b1', 'bf', 'l0')


def call(fn, *args, **kw):
    return {'fn': fn, 'args': list(args), 'kw': kw}


# name -> (weight, generator of a call, function, flags)
TABLE = {}


def entry(name, gen_args, fn, weight=2, **flags):
    TABLE[name] = (weight, gen_args, fn, flags)


def _e(name, gen_args, fn, weight=2, **flags):
    entry(name, lambda g: (lambda a: a if isinstance(a, dict) and 'fn' in a else call(name, *a))(gen_args(g)), fn, weight, **flags)


def _run_generator(basis, symmetries, modes, num_vecs, mode, sparsification, orthogonalization, verbose=False):
    gen_ = qosy.SymmetricOperatorGenerator(basis)
    for (s, m, k) in zip(symmetries, modes, num_vecs):
        gen_.add_symmetry(s, operation_mode=m, num_vecs=k)
    ops = gen_.generate(mode=mode, sparsification=sparsification, orthogonalization=orthogonalization, verbose=verbose)
    return (ops, gen_.eigenvalues, gen_.eigenvectors, gen_.output_operators, gen_.projected_eigenvectors,
            gen_.projected_output_operators, gen_.superoperators)


def _generator_args(g, verbose=None):
    k = g.r.randint(1, 2)
    syms = [g.r.choice(['o0', 'o1', 't0', 't1', 'tq']) for _ in range(k)]
    args = [g.ref('b0', 'b1', 'bf', 'l0'), {'refs': syms}, [g.mode() for _ in syms],
            [None if g.r.chance(0.75) else g.r.randint(1, 4) for _ in syms],
            g.r.pick([(2, 'cumulative'), (1, 'noncumulative')]), g.r.chance(0.6), g.r.chance(0.3)]
    return args


def _unit_and_lattice(vectors, positions, orbitals, num_cells, periodic):
    cell = qosy.UnitCell(vectors)
    for (p, o) in zip(positions, orbitals):
        cell.add_atom(p, o)
    return (cell, qosy.Lattice(cell, num_cells, periodic))


def _unnamed(vectors, position, count, lattice):
    cell = qosy.UnitCell(vectors)
    for i in range(count):
        cell.add_atom(np.array([float(position[0]) + i] * 2))
    return qosy.Lattice(cell, [1] * len(vectors)) if lattice else cell


def _copy_edit_iadd(a, b):
    c = 1.0 * a
    c += b
    return c


def _copy_edit_isub(a, b):
    c = 1.0 * a
    c -= b
    return c


def _normalized(a, order):
    c = 1.0 * a
    c.normalize(order)
    return c


def _printed(fn):
    def run(*args, **kw):
        return fn(*args, **kw)
    run.__name__ = fn.__name__
    return run


def _plot(fn):
    def run(*args, **kw):
        import matplotlib.pyplot as plt
        plt.close('all')
        try:
            fn(*args, **kw)
            return _drawing(plt.gcf())
        finally:
            plt.close('all')
    run.__name__ = fn.__name__
    return run


def _drawing(fig):
    """What has been drawn, as data."""
    out = []
    for ax in fig.axes:
        for line in ax.lines:
            out.append(['line', np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float),
                        str(line.get_color()), str(line.get_marker()), float(line.get_alpha() or 1.0), float(line.get_markersize())])
        for t in ax.texts:
            out.append(['text', t.get_text()])
        for patch in ax.patches:
            out.append(['patch', type(patch).__name__, np.asarray(patch.get_path().vertices, dtype=float)])
        for c in ax.collections:
            out.append(['collection', type(c).__name__])
        out.append([ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), tuple(ax.get_xlim()), tuple(ax.get_ylim())])
    return out


def _numbers(g, hi=4):
    return g.r.randint(1, hi)


def sci_call(g, algs=None, retries=0.0):
    """A search with any of its options, on objects of the pool or its own."""
    from . import sci
    own = g.r.chance(max(0.3, retries))
    labs = list(range(3 if own else g.n))
    spec = sci.search(g.r, g.typ, labs, 1, algs or sci.ALGS)
    if own and spec['alg'] == 'greedy' and g.r.chance(retries):
        sci.retries(g.r, spec)
    spec['steps'] = min(spec['steps'], 2 if spec['kw'].get('target_fidelity') is None else 3)
    for key in ('max_basis_size', 'num_H_terms'):
        if isinstance(spec['kw'].get(key), list):
            spec['kw'][key] = [spec['kw'][key][i % len(spec['kw'][key])] for i in range(spec['steps'])]
    if own:
        return ['own', spec, g.typ, sci.hamiltonian(g.r, g.typ, labs), g.r.chance(0.3)]
    init = g.ref('o0', 'o2')
    inits = {'refs': g.r.choice([['o0'], ['o0', 'o2'], ['o2', 'o0']])}
    spec['init'] = [[1.0, []]]
    spec['inits'] = [[[1.0, []]]]
    orth = {'refs': g.r.choice([['o1'], ['o2', 'o1'], ['o0']])} if spec.pop('orth', None) else None
    coms = {'refs': g.r.choice([['o2'], ['o0', 'o2']])} if spec.pop('coms', None) else None
    target = {'ref': 'on'} if spec.pop('target', None) else None
    if target is None:
        spec['kw'].pop('target_fidelity', None)
    ts = {'refs': g.r.choice([['tq'], ['t0'], ['t1', 'tq']])} if spec.pop('transformations', None) else None
    return ['pool', spec, g.typ, init, inits, {'ref': 'o1'}, orth, coms, target, ts, g.r.chance(0.3)]


def _descending(x, y):
    build.called()
    return y - x


def _same_first(x, y):
    build.called()
    return bool(abs(x[0] - y[0]) < 0.5)


def _sci(how, spec, typ, *rest):
    from . import sci
    if how == 'own':
        lib = sci.Search(spec, rest[0], typ)
        (args, kw) = lib.args(sci.fresh_record() if rest[1] else None)
        return lib.fn(*args, **kw)
    (init, inits, H, orth, coms, target, ts, record) = rest
    lib = sci.Search(spec, [[1.0, []]], typ)
    alg_ = spec['alg']
    kw = dict(lib.kw)
    com = H if coms is None else [H] + coms
    if orth is not None:
        kw['orth_ops'] = orth
    if target is not None:
        kw['target_operator'] = target
    if ts is not None:
        kw['transformations'] = ts
    if record and alg_ != 'simple':
        kw['explored_data'] = sci.fresh_record()
    return lib.fn(inits if alg_ in ('many_ops', 'many_ops2') else init, com, spec['steps'], **kw)


_e('Basis', lambda g: [{'ref': 'ss'}], lambda s: qosy.Basis(s))
_e('Operator', lambda g: [{'ref': 'co'}, {'ref': 'ss'}], lambda c, s: qosy.Operator(c, s))
_e('cluster_basis', lambda g: [g.r.choice([g.r.randint(1, min(2, g.n)), [1, min(2, g.n)][:g.r.randint(1, 2)]]), g.ref('lb', 'lx'), g.r.choice(['Pauli', 'Majorana', 'Fermion', 'Pauli', 'Majorana']), g.r.chance(0.3)],
   lambda k, l, t, i: qosy.cluster_basis(k, l, t, include_identity=i))
_e('distance_basis', lambda g: [g.ref('la', 'la', 'lp', 'lu'), g.r.choice([2, 2, 1, [1, 2]]), g.r.choice([1.0, 1.5, 2.0, [1.0]]), g.r.choice(['Pauli', 'Majorana', 'Fermion']), g.r.chance(0.2)],
   lambda l, k, R, t, i: qosy.distance_basis(l, k, R, t, include_identity=i), 2)
_e('opstring', lambda g: [g.r.choice(['X 1 Y 2', '1j A 1 B 2', 'D 0', 'CDag 0 C 1', 'Z 10', 'bad 1', 'X X', '1.0 X 1 Y 2', '1j CDag 0 C 1', 'A 1 B 2', '1 Z 3', 'CDag 1 CDag 0 C 1 C 0', 'I', 'X 2 Y 1'])], lambda s: qosy.opstring(s))
_e('opstring_bare', lambda g: [g.r.choice(['I', '1', '1.0', '', 'X 1', 'A 1', 'CDag 0', 'Z 0 Z 3'])], lambda s: qosy.opstring(s), 2)
_e('opstring_typed', lambda g: [g.r.choice(['I', '1', '', 'X 1', 'A 1']), g.r.choice(['Pauli', 'Majorana', 'Fermion'])], lambda s, t: qosy.opstring(s, t), 1)
_e('op_add', lambda g: [g.op(), g.op()], lambda a, b: a + b)
_e('op_sub', lambda g: [g.op(), g.op()], lambda a, b: a - b)
_e('op_mul', lambda g: [g.op(), g.r.choice([2.0, 0.0, -1.0])], lambda a, c: (a * c, c * a, -a))
_e('op_iadd_copy', lambda g: [g.op(), g.op()], _copy_edit_iadd)
_e('op_eq', lambda g: [g.op(), g.op()], lambda a, b: (a == b, a == a))
_e('op_isub_copy', lambda g: [g.op(), g.ref('o0', 'o1', 's0', 'oo')], _copy_edit_isub, 1)
_e('op_add_string', lambda g: [g.op(), g.ref('s0', 's1', 'oo')], lambda a, b: a + b, 1)
_e('Operator_kinds', lambda g: [{'ref': 'co'}, {'ref': 'ss'}, g.r.choice([None, g.typ, 'bogus'])],
   lambda c, s, t: (qosy.Operator(c, s, t), qosy.Operator(list(c), qosy.Basis(s)), qosy.Operator(op_type=t)), 1)
_e('op_norm', lambda g: [g.op(), g.r.choice([None, 1, 2, {'inf': 1}])], lambda a, o: a.norm(o))
_e('op_normalize_copy', lambda g: [g.ref('o0', 'o1', 'ob'), g.r.choice([None, 1])], _normalized)
_e('op_remove_zeros', lambda g: [g.op(), g.r.choice([1e-16, 1e-8])], lambda a, t: a.remove_zeros(tol=t), 3)
_e('op_to_vector', lambda g: [g.ref('o0', 'ob', 'oz'), g.ref('bf', 'b0')], lambda a, b: a.to_vector(b), 2)
_e('op_str', lambda g: [g.op()], lambda a: (str(a), len(a), list(a)), 1)
_e('basis_add', lambda g: [g.basis(), g.ref('b0', 'b1', 's0')], lambda a, b: a + b)
_e('basis_query', lambda g: [g.basis(), g.os()], lambda b, s: (s in b, b.index(s) if s in b else None, len(b), str(b), b == b, list(b)), 1)
_e('string_query', lambda g: [g.os(), g.os()], lambda a, b: (a == b, str(a), list(a)), 1)
_e('product', lambda g: [g.op(), g.op()] if g.r.chance(0.5) else [g.os(), g.os()], lambda a, b: qosy.product(a, b), 3)
_e('commutator', lambda g: [g.op(), g.op()] if g.r.chance(0.5) else [g.os(), g.os()], lambda a, b: qosy.commutator(a, b), 3)
_e('anticommutator', lambda g: [g.op(), g.op()] if g.r.chance(0.5) else [g.os(), g.os()], lambda a, b: qosy.anticommutator(a, b), 3)
_e('structure_constants', lambda g: [g.ref('b0', 'b1'), g.ref('b0', 'b1'), g.r.choice(['commutator', 'anticommutator', 'product']), g.r.chance(0.5), g.r.chance(0.2)],
   lambda a, b, m, e, t: qosy.structure_constants(a, b, operation_mode=m, return_extended_basis=e, return_data_tuple=t), 3)
_e('liouvillian_matrix', lambda g: [g.basis(), g.op(), g.mode(), g.r.chance(0.5)],
   lambda b, o, m, e: qosy.liouvillian_matrix(b, o, operation_mode=m, return_extended_basis=e), 3)
_e('liouvillian_operators', lambda g: [g.ref('l0', 'l1'), g.ref('o0', 'o1'), g.mode(), g.r.chance(0.4)],
   lambda b, o, m, e: qosy.liouvillian_matrix(b, o, operation_mode=m, return_extended_basis=e), 2)
_e('commutant_matrix', lambda g: [g.ref('b0', 'b1', 'bf', 'l0'), g.op(), g.mode()], lambda b, o, m: qosy.commutant_matrix(b, o, operation_mode=m), 4)
_e('generate_lie_algebra', lambda g: [{'ref': 'ss'}] if g.n == 2 else [{'ref': 'l1'}] if g.n == 1 else [{'ref': 'pr'}],
   lambda x: qosy.generate_lie_algebra(qosy.Basis(x) if isinstance(x[0], qosy.OperatorString) else x), 2)
_e('convert', lambda g: [g.ref('o0', 'oo', 'fo', 'fs', 's0', 'oz'), g.r.choice(['Pauli', 'Majorana', 'Fermion']), g.r.chance(0.3)],
   lambda o, t, i: qosy.convert(o, t, include_identity=i), 4)
_e('conversion_matrix', lambda g: [g.ref('bf', 'bo'), g.ref('bo', 'bf')], lambda a, b: qosy.conversion_matrix(a, b), 1)
_e('apply', lambda g: [g.t(), g.ref('o0', 'ob', 's0', 'oz')], lambda t, o: t.apply(o), 3)
_e('transformation_product', lambda g: [g.t(), g.t(), g.os()], lambda a, b, s: ((a * b).apply(s), (a ** 2).apply(s)), 2)
_e('symmetry_matrix', lambda g: [g.basis(), g.t()], lambda b, t: qosy.symmetry_matrix(b, t), 3)
_e('label_permutation', lambda g: [g.ref('pe', 'pl'), g.os()], lambda p, s: qosy.label_permutation(p).apply(s), 2)
_e('space_group', lambda g: [{'ref': 'lp'}, [[g.r.choice([1.0, -1.0])]], [float(g.r.randint(0, 2))], g.os()],
   lambda l, R, d, s: qosy.space_group_symmetry(l, np.array(R), np.array(d)).apply(s), 1)
_e('spin_symmetries', lambda g: [{'ref': 'lu'}, g.os()], lambda l, s: (qosy.spin_flip_symmetry(l).apply(s),) + ((qosy.spin_parity_symmetry(l).apply(s), qosy.time_reversal((l, 'Up', 'Dn')).apply(s)) if s.op_type == 'Majorana' else ()), 2)
_e('spin_names', lambda g: [{'ref': 'lu'}, {'ref': 'fs'}, g.r.choice(['Up', 'Dn', 'bogus'])], lambda l, s, u: qosy.spin_flip_symmetry(l, up_name=u).apply(s), 1)
_e('spinful_time_reversal', lambda g: [{'ref': 'lu'}, g.os()], lambda l, s: (qosy.time_reversal(l).apply(s), qosy.time_reversal((l, 'Dn', 'Up')).apply(s)), 1)
_e('named_symmetries', lambda g: [g.os()], lambda s: (qosy.time_reversal().apply(s),) + ((qosy.particle_hole().apply(s), qosy.charge_conjugation().apply(s)) if s.op_type == 'Majorana' else ()), 1)
_e('lattices', lambda g: [g.r.randint(1, 3), g.r.chance(0.5)], lambda n, p: (qosy.lattice.chain(n, periodic=p), qosy.lattice.square(n, 2), qosy.lattice.kagome(1, n), qosy.lattice.cubic(3, (1, n, 2))), 1)
_e('lattice_build', lambda g: [{'ref': 'gg'}, {'ref': 'du'}, [['p'], ['q', 'r'], [''], ['a'], ['b']], [2, 2], [g.r.chance(0.5), False]],
   lambda g, p, o, nc, per: _unit_and_lattice([np.array([1.0, 0.0]), np.array([0.0, 1.0])], p, o, nc, per), 1)
_e('unitcell_unnamed', lambda g: [{'ref': 'gg'}, {'ref': 'na'}, g.r.randint(1, 2), g.r.chance(0.5)], lambda v, p, k, l: _unnamed(v, p, k, l), 2)
_e('highest_fidelity', lambda g: [g.ref('o0', 'o1', 'on', 'ob'), {'ref': 'v0'}, [round(g.r.uniform(0, 2), 3) for _ in range(3)], {'ref': 'b0'}],
   lambda o, v, w, b: alg.highest_fidelity_operator(o, v, w, b, verbose=False), 2)
_e('unitcell_lattice', lambda g: [{'ref': 'uc'}, [2, g.r.randint(1, 2)], [g.r.chance(0.5), g.r.chance(0.5)]], lambda u, n, p: qosy.Lattice(u, n, p), 2)
_e('lattice_query', lambda g: [g.ref('la', 'la', 'lp'), g.r.randint(0, 2), g.r.randint(0, 4)],
   lambda l, i, j: (l.distance(i, j), l.position(i), l.index(l.position(j), list(l)[j][1]), len(l), str(l)), 2)
_e('symmetrize_basis', lambda g: [g.ref('b0', 'bf'), {'ref': 'tp'}], lambda b, t: qosy.symmetrize_basis(b, t), 2)
_e('symmetrize_lattice', lambda g: [{'ref': 'ls'}, {'ref': 'gg'}, g.r.randint(1, 2)], lambda l, g, k: qosy.symmetrize_lattice(l, g, num_expansions=k), 2)
_e('to_matrix', lambda g: [g.ref('o0', 's0', 'ob') if g.typ == 'Pauli' else g.ref('oo', 'oo', 'o0'), g.n + (g.r.randint(1, 2) if g.r.chance(0.3) else 0)], lambda o, n: qosy.to_matrix(o, n), 2)
_e('to_vector', lambda g: [g.ref('o0') if g.typ == 'Pauli' else {'ref': 'oo'}, {'ref': 'bf'} if g.typ == 'Pauli' else {'ref': 'bo'}, g.n + g.r.choice([0, 0, 1])],
   lambda o, b, n: (qosy.to_vector(qosy.to_matrix(o, n), b, n), qosy.to_operator(qosy.to_matrix(o, n), b, n)), 1)
_e('apply_transformation', lambda g: [g.ref('tq', 'tq', 't0'), {'ref': 'vp'}, g.n], lambda t, v, n: qosy.apply_transformation(t, v, n), 2)
_e('apply_transformation_conf', lambda g: [g.ref('tq', 'tq', 't0'), g.r.randrange(2 ** g.n), g.n], lambda t, c, n: qosy.diagonalization.apply_transformation_conf(t, c, n), 1)
_e('reduced_density_matrix', lambda g: [{'ref': 'vp'}, g.r.choice([[0], [g.n - 1], list(range(g.n))[::-1], {'ref': 'lb'}, []]), g.n], lambda v, a, n: qosy.reduced_density_matrix(v, a, n), 2)
_e('reduced_density_pair', lambda g: [{'ref': 'vp'}, {'ref': 'vq'}, [g.r.randrange(g.n)], g.n], lambda v, w, a, n: qosy.reduced_density_matrix((v, w), a, n), 1)
_e('renyi_entropy', lambda g: [{'ref': 'rho'}, g.r.choice([2, 2, 3, 4])], lambda r, n: qosy.renyi_entropy(r, n), 1)
_e('diagonalize', lambda g: [g.ref('o0', 'oo', 'fo', 's0'), g.n + (1 if g.r.chance(0.2) else 0), None if g.r.chance(0.6) else 1, 'general' if g.r.chance(0.2) else 'Hermitian'],
   lambda o, n, k, m: qosy.diagonalize(o, n, mode=m, num_vecs=k), 3)
_e('diagonalize_quadratic', lambda g: [g.ref('fo', 'fo', 'fm', 'o0'), g.n + (1 if g.r.chance(0.2) else 0)], lambda o, n: qosy.diagonalize_quadratic(o, n), 2)
_e('diagonalize_bdg', lambda g: [g.ref('fo', 'fo', 'fm'), g.n + (1 if g.r.chance(0.2) else 0), None if g.r.chance(0.6) else 1, None if g.r.chance(0.7) else -0.35],
   lambda o, n, k, s: qosy.diagonalize_bdg(o, n, num_vecs=k, sigma=s), 2)
_e('diagonalize_tight', lambda g: [g.ref('fh', 'fh', 'fo'), g.n, None if g.r.chance(0.6) else 1], lambda o, n, k: qosy.diagonalize_quadratic_tightbinding(o, n, num_vecs=k), 2)
_e('commuting_operators', lambda g: [g.space(), g.ref('o0', 'o1'), g.mode(), None if g.r.chance(0.7) else g.r.randint(1, 3), g.r.chance(0.3)],
   lambda b, o, m, k, r: qosy.commuting_operators(b, o, operation_mode=m, num_vecs=k, return_superoperator=r), 5, core=True)
_e('invariant_operators', lambda g: [g.space(), g.t(), g.mode(), None if g.r.chance(0.7) else g.r.randint(1, 3), g.r.chance(0.3)],
   lambda b, o, m, k, r: qosy.invariant_operators(b, o, operation_mode=m, num_vecs=k, return_superoperator=r), 5, core=True)
_e('generator', _generator_args, _run_generator, 6, core=True)
_e('generator_verbose', _generator_args, lambda *a: _run_generator(*a, verbose=True), 2, prints=True, verbose=True)
_e('sci', sci_call, _sci, 6, search=True, prints=True, random=True, sci=True)
_e('selected_ci_simple', lambda g: [g.ref('o0', 'o2'), {'ref': 'o1'}, 1], lambda o, h, k: alg.selected_ci_simple(o, h, k), 1, prints=True, search=True)
_e('selected_ci', lambda g: [g.ref('o0', 'o2'), {'ref': 'o1'}, g.r.randint(1, 2), g.r.choice([4, 100])],
   lambda o, h, k, m: qosy.selected_ci(o, h, k, max_basis_size=m), 2, prints=True, search=True)
_e('selected_ci_sweep', lambda g: [g.ref('o0', 'o2'), {'ref': 'o1'}, 1, g.r.choice([4, 100])],
   lambda o, h, k, m: alg.selected_ci_sweep(o, h, k, max_basis_size=m), 1, prints=True, search=True)
_e('selected_ci_greedy', lambda g: [g.ref('o0', 'o2'), {'ref': 'o1'}, g.r.randint(1, 2), g.r.randint(1, 3), g.r.choice([4, 100]), g.r.choice([None, {'refs': ['o1']}])],
   lambda o, h, k, t, m, orth: alg.selected_ci_greedy(o, h, k, num_H_terms=t, max_basis_size=m, orth_ops=orth, verbose=False), 3, search=True, verbose=True)
_e('selected_ci_greedy_many_ops', lambda g: [{'refs': ['o0', 'o2']}, {'ref': 'o1'}, 1, g.r.randint(1, 3)],
   lambda o, h, k, t: alg.selected_ci_greedy_many_ops(o, h, k, num_H_terms=t, verbose=False), 1, search=True, verbose=True, random=True)
_e('sign', lambda g: [g.ref('pe', 'pl')], lambda p: qosy.sign(p), 1)
_e('sort_sign', lambda g: [g.ref('nu', 'na')], lambda p: qosy.sort_sign(np.array(p)), 1)
_e('compare', lambda g: [g.ref('nu', 'pl'), g.ref('nu', 'pl')], lambda a, b: qosy.compare(a, b), 1)
_e('maximal_cliques', lambda g: [{'ref': 'ad'}], lambda a: qosy.maximal_cliques(a), 1)
_e('connected_components', lambda g: [{'ref': 'ad'}, g.r.choice([None, 'BFS', 'DFS'])], lambda a, m: qosy.connected_components(a, mode=m), 1)
_e('argsort', lambda g: [{'ref': 'nu'}], lambda a: (qosy.argsort(a), qosy.argsort(a, comp=_descending)), 1)
_e('remove_duplicates', lambda g: [{'ref': 'du'}], lambda a: (qosy.remove_duplicates(a), qosy.remove_duplicates(a, equiv=_same_first)), 1)
_e('swap_replace', lambda g: [{'ref': 'tx'}, {'ref': 'sd'}], lambda t, d: (qosy.swap(t, 'X', 'Y'), qosy.replace(t, d)), 1)
_e('compose_permutations', lambda g: [g.ref('pe', 'pl'), g.ref('pe', 'pl')], lambda a, b: qosy.compose_permutations(a, b), 1)
_e('gram_schmidt', lambda g: [g.ref('ma', 'mb', 'mr', 'ms'), g.r.choice([0.0, 1e-10])], lambda m, t: qosy.gram_schmidt(m, tol=t), 3)
_e('intersection', lambda g: [g.ref('ma', 'mr'), g.ref('mb', 'mr')], lambda a, b: qosy.intersection(a, b), 2)
_e('sparsify', lambda g: [g.ref('ma', 'mb', 'mr'), g.r.chance(0.5)], lambda a, o: qosy.sparsify(a, orthogonalize=o), 3)
_e('relabel_orbitals', lambda g: [g.ref('tx'), {'ref': 'la'}], lambda s, l: qosy.relabel_orbitals(s, l), 1)
_e('print_vectors', lambda g: [{'ref': 'b0'}, {'ref': 'v0'}, g.r.choice([None, {'ref': 'lp'}]), g.r.choice([None, ['X', 'A']]), g.r.choice([None, g.other]), g.r.choice([None, {'inf': 1}])],
   lambda b, v, l, k, c, o: qosy.print_vectors(b, v, lattice=l, keywords=k, convert_to=c, norm_order=o), 3, prints=True, printer=True)
_e('print_operators', lambda g: [g.ref('l0', 'l1'), g.r.choice([None, {'ref': 'lp'}]), g.r.choice([None, ['X', 'A']]), g.r.choice([None, g.other]), g.r.choice([None, {'inf': 1}])],
   lambda ops, l, k, c, o: qosy.print_operators(ops, lattice=l, keywords=k, convert_to=c, norm_order=o), 4, prints=True, printer=True)
_e('plot', lambda g: [g.ref('ls', 'la', 'lp'), g.r.chance(0.5), g.r.chance(0.5), g.r.chance(0.5), g.r.chance(0.5)],
   _plot(lambda l, a, b, c, d: qosy.plot(l, with_labels=a, with_lattice_vectors=b, with_unit_cell=c, with_wigner_seitz=d)), 1, plots=True)
_e('plot_operator', lambda g: [g.ref('o0', 'ob'), g.ref('la', 'lp'), g.r.choice([None, 1.0, 1.5])],
   _plot(lambda o, l, R: qosy.plot_operator(o, l, distance_cutoff=R)), 1, plots=True)


def generate_call(rng, info, select=None, tier='quick'):
    names = [(w, n) for (n, (w, _, _, flags)) in TABLE.items() if w > 0 and (select is None or select(flags))]
    name = rng.pick(names)
    return TABLE[name][1](G(rng, info, tier)) | {'fn': name}


def flags(call_):
    return TABLE[call_['fn']][3]


def function(call_):
    return TABLE[call_['fn']][2]


class Result:
    """What a simulated call produced: a value or an exception, and text."""

    def __init__(self, outcome, snapshot, text):
        self.ok = outcome.ok
        self.outcome = outcome
        self.snapshot = snapshot
        self.text = text

    def key(self):
        if self.ok:
            return ('returned', self.snapshot, self.text)
        return ('raised', type(self.outcome.exc).__name__)


def invoke(ctx, world, call_, take=True, **kw):
    """Run a call on the world's objects; arguments are resolved first."""
    from . import snap
    if call_['fn'] not in TABLE:
        raise Invalid('call')
    args = [world.resolve(a) for a in call_['args']]
    kws = {k: world.resolve(v) for (k, v) in call_['kw'].items()}
    np.random.seed(12345)
    o = ctx.call(function(call_), *args, label=call_['fn'], **kw, **kws)
    s = snap.snap(o.value) if o.ok and take else None
    return Result(o, s, o.out)


def call_key(result):
    return result.key()
