"""C08: a call gives the same result whatever was called before it."""
import json

import numpy as np
import scipy.sparse as ss

from .. import addr, api, build, gen, seams, snap
from ..alone import alone, merge
from ..build import qosy
from ..ctx import Invalid, Skip
from .c07 import EXC, compare, keeps_settings, needed, same_objects, trimmed

RUNS = {'quick': 6000, 'thorough': 90000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
RULE = ('A run draws pools of objects (equal in shape and different in values, or differing in one detail) and a history: calls that succeed or are made to fail (interrupt, solver failure), on shared '
        'objects, on equal but distinct copies and on the other pool, whose results are sometimes overwritten by the caller; edits by the caller of objects it passed in; '
        'derived objects built from lists and arrays that are overwritten afterwards; then probe calls, each compared with the same call in a fresh process on objects with the same values. '
        'Non-trivial when a probe that succeeds alone was compared after at least one earlier call.')
REAL = ['every public function listed in qsim/api.py, on real objects']
STUB = ['eigensolver answers (canonical, so that runs can be compared)']


# -- caller edits ----------------------------------------------------------------

def edit(obj, spec):
    """What a caller may do to an object of its own."""
    k = spec['k']
    if isinstance(obj, np.ndarray):
        if obj.size == 0:
            return
        if k == 0:
            obj[...] = obj[::-1].copy()
        elif k == 1:
            obj *= 2
        else:
            obj.ravel()[0] = 7
    elif ss.issparse(obj):
        obj.data[...] = obj.data * 2
    elif isinstance(obj, qosy.Operator):
        if len(obj.coeffs) == 0:
            return
        if k == 0:
            obj.coeffs *= 3.0
        elif k == 1:
            obj.coeffs[0] = obj.coeffs[0] + 1.0
        else:
            obj += 2.0 * obj
    elif isinstance(obj, qosy.Basis):
        typ = obj.op_strings[0].op_type if len(obj) else 'Pauli'
        s = build.lib_string((('X' if typ == 'Pauli' else 'A', 11 + k),), typ)
        if s not in obj and typ != 'Fermion':
            obj += s
    elif isinstance(obj, list):
        if not obj:
            return
        if isinstance(obj[0], np.ndarray) and k != 2:
            obj[0][...] = obj[0] * 0 + 3
        elif isinstance(obj[0], list) and k != 2:
            obj[0].append(obj[0][0] if obj[0] else 0)
        elif k == 0:
            obj.reverse()
        elif k == 1:
            obj.pop()
        else:
            obj.append(obj[0])
    elif isinstance(obj, dict):
        obj['extra'] = 'edit'
    elif isinstance(obj, qosy.UnitCell):
        obj.add_atom(np.array([0.125, 0.25]), ['z'])


EDITABLE = ('array', 'sparse', 'operator', 'normalized', 'operator_on', 'basis', 'strings', 'operators', 'arrays', 'list', 'dict', 'unitcell', 'list_of')


def scramble(x, depth=0):
    """The caller overwrites everything it got back."""
    if depth > 6 or x is None:
        return
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                scramble(y, depth + 1)
        elif x.size and x.flags.writeable and x.dtype.kind in 'fciub':
            x[...] = 13 if x.dtype.kind != 'b' else ~x
    elif ss.issparse(x):
        if hasattr(x, 'data') and isinstance(x.data, np.ndarray) and x.data.size:
            x.data[...] = 13
    elif isinstance(x, qosy.Operator):
        if len(x.coeffs):
            x.coeffs[...] = 13.0
        if x.op_type in ('Pauli', 'Majorana'):
            try:
                x += qosy.Operator([1.0], [build.lib_string((('X' if x.op_type == 'Pauli' else 'A', 12),), x.op_type)])
            except Exception:
                pass
    elif isinstance(x, qosy.Basis):
        if len(x) and x.op_strings[0].op_type in ('Pauli', 'Majorana'):
            typ = x.op_strings[0].op_type
            s = build.lib_string((('X' if typ == 'Pauli' else 'A', 12),), typ)
            if s not in x:
                x += s
    elif isinstance(x, (list, tuple)):
        for y in x:
            scramble(y, depth + 1)
        if isinstance(x, list):
            x.reverse()
            x.append('scrambled')
    elif isinstance(x, dict):
        for y in list(x.values()):
            scramble(y, depth + 1)
        x['scrambled'] = 1
    elif isinstance(x, qosy.SymmetricOperatorGenerator):
        for y in list(vars(x).values()):
            if isinstance(y, (list, qosy.Basis, np.ndarray)):
                scramble(y, depth + 1)
    elif isinstance(x, qosy.Lattice):
        x.periodic_boundaries[...] = False
        scramble(x.unit_cell, depth + 1)
    elif isinstance(x, qosy.UnitCell):
        for y in list(x.atom_orbitals) + list(x.atom_positions) + list(x.lattice_vectors):
            scramble(y, depth + 1)
        x.atom_positions.append(np.array([0.5, 0.5]))
        x.atom_orbitals.append(['w'])


# -- derived objects ---------------------------------------------------------------

DERIVE = {
    # name: (argument kinds, constructor, calls that use the result as argument 0)
    'label_permutation': (lambda r: [r.choice(['pe', 'pl'])], lambda p: qosy.label_permutation(p), 'transformation'),
    'Basis': (lambda r: ['ss'], lambda s: qosy.Basis(s), 'basis'),
    'Operator': (lambda r: ['co', 'ss'], lambda c, s: qosy.Operator(c, s), 'operator'),
    'UnitCell': (lambda r: ['la0', 'la1', 'la2'], lambda v, p, o: qosy.UnitCell(v, p, o), 'unitcell'),
    'add_atom': (lambda r: ['la0', 'lap', 'lao'], lambda v, p, o: _one_atom(v, p, o), 'unitcell'),
    'Lattice': (lambda r: ['la0', 'la1', 'la2', 'lan', 'lab'], lambda v, p, o, n, b: qosy.Lattice(qosy.UnitCell(v, p, o), n, b), 'lattice'),
    'space_group': (lambda r: ['lp', 'laR', 'lad'], lambda l, R, d: qosy.space_group_symmetry(l, R, d), 'transformation'),
    'OperatorString': (lambda r: ['oso', 'osl'], lambda o, l: qosy.OperatorString(o, l, 'Pauli'), 'string'),
    'OperatorString_array': (lambda r: ['oso', 'osa'], lambda o, l: qosy.OperatorString(o, l, 'Pauli'), 'string'),
}


def _one_atom(v, p, o):
    c = qosy.UnitCell(v)
    c.add_atom(p, o)
    return c


def add_derived_pool(rng, pool):
    pool['la0'] = {'kind': 'arrays', 'data': [[1.0, 0.0], [0.0, 1.0]]}
    pool['la1'] = {'kind': 'arrays', 'data': [[0.0, 0.0], [0.5, 0.5]]}
    pool['la2'] = {'kind': 'list', 'data': [['p'], ['q', 'r']]}
    pool['lap'] = {'kind': 'array', 'data': [0.25, 0.25]}
    pool['lao'] = {'kind': 'list', 'data': ['s', 't']}
    pool['lan'] = {'kind': 'list', 'data': [2, 1]}
    pool['lab'] = {'kind': 'list', 'data': [True, False]}
    pool['laR'] = {'kind': 'array', 'data': [[rng.choice([1.0, -1.0])]]}
    pool['lad'] = {'kind': 'array', 'data': [1.0]}
    pool['oso'] = {'kind': 'list', 'data': ['X', 'Y']}
    pool['osl'] = {'kind': 'list', 'data': [0, 1]}
    pool['osa'] = {'kind': 'array', 'int': True, 'data': [0, 1]}


USE = {
    'transformation': [lambda x, w: x.apply(w.get('s0')), lambda x, w: x.apply(w.get('o1')), lambda x, w: (x * x).apply(w.get('s1')),
                       lambda x, w: qosy.symmetry_matrix(w.get('b1'), x), lambda x, w: qosy.invariant_operators(w.get('b1'), x)],
    'basis': [lambda x, w: x, lambda x, w: qosy.commutant_matrix(x, w.get('o1')), lambda x, w: x + w.get('s0')],
    'operator': [lambda x, w: x, lambda x, w: qosy.commutator(x, w.get('o1')), lambda x, w: x + w.get('o1')],
    'unitcell': [lambda x, w: x, lambda x, w: qosy.Lattice(x, [2, 2])],
    'lattice': [lambda x, w: x, lambda x, w: (x.distance(0, 1), len(x), x.position(1), x.index(x.position(1), list(x)[1][1])),
                lambda x, w: qosy.relabel_orbitals('X 0 Y 1', x), lambda x, w: qosy.symmetrize_lattice(x, [np.array([[0., 1.], [1., 0.]])], num_expansions=1)],
    'string': [lambda x, w: x, lambda x, w: (hash(x) == hash(build.lib_string((('X', 0), ('Y', 1)), 'Pauli')), x == build.lib_string((('X', 0), ('Y', 1)), 'Pauli'), str(x)),
               lambda x, w: qosy.commutator(x, build.lib_string((('Z', 0),), 'Pauli'))],
}


# -- generator -----------------------------------------------------------------------

def twin_pool(rng, info, tier):
    """Another pool with the same names, type and size."""
    for _ in range(40):
        (i2, p2) = api.generate_pool(rng, tier)
        if i2 == info:
            return p2
    return None


def generate(rng, tier, index):
    (info, pool) = api.generate_pool(rng, tier)
    add_derived_pool(rng, pool)
    other = twin_pool(rng, info, tier) if rng.chance(0.5) else None
    if other is not None:
        add_derived_pool(rng, other)
    twins = {'near{}'.format(i): api.near(rng, pool, info['type']) for i in range(rng.pick([(1, 0), (2, 1), (2, 2)]))}
    probes = []
    for _ in range(rng.randint(1, 2)):
        sel = (lambda f: f.get('core') or f.get('search')) if rng.chance(0.2) else None
        probes.append(api.generate_call(rng, info, sel, tier))
    steps = []
    derived = []
    used = []
    for _ in range(rng.pick([(2, 1), (3, 3), (3, 5), (1, 9)])):
        kind = rng.pick([(6, 'call'), (2, 'edit'), (1, 'derive')])
        if kind == 'call':
            c = api.generate_call(rng, info, None, tier)
            how = rng.pick([(2, 'random'), (3, 'probe'), (2, 'variant'), (2, 'near'), (2, 'same objects')])
            if how == 'probe':
                c = json.loads(json.dumps(rng.choice(probes)))
            elif how == 'variant':
                # the same function with other arguments
                name = rng.choice(probes)['fn']
                c = api.TABLE[name][1](api.G(rng, info, tier)) | {'fn': name}
            elif how == 'near':
                # the same call with one other argument
                c = json.loads(json.dumps(rng.choice(probes)))
                alt = api.TABLE[c['fn']][1](api.G(rng, info, tier))
                if c['args'] and len(alt['args']) == len(c['args']):
                    different = [i for i in range(len(c['args'])) if c['args'][i] != alt['args'][i]]
                    if different:
                        i = rng.choice(different)
                        c['args'][i] = alt['args'][i]
            elif how == 'same objects':
                c = same_objects(rng, info, rng.choice(probes), tier) or c
            where = rng.pick([(3, 'main'), (3, 'clone'), (2 if other is not None else 0, 'other'),
                              *[(4 if how == 'probe' else 2, t) for t in sorted(twins)]])
            st = {'do': 'call', 'call': c, 'where': where, 'scramble': where != 'main' and rng.chance(0.6)}
            if rng.chance(0.2):
                st['fault'] = {'kind': rng.pick([(3, 'line'), (1, 'solver')]), 'u': round(rng.random(), 6), 'exc': rng.choice(sorted(EXC)),
                               'solver': rng.choice(seams.FAULTS)}
            steps.append(st)
            used.extend(api.refs_of(c))
        elif kind == 'edit':
            names = [n for n in used + [r for p in probes for r in api.refs_of(p)] if pool[n]['kind'] in EDITABLE]
            if names:
                steps.append({'do': 'edit', 'obj': rng.choice(names), 'edit': {'k': rng.randint(0, 2)}})
        else:
            name = 'x{}'.format(len(derived))
            how = rng.choice(sorted(DERIVE))
            args = DERIVE[how][0](rng)
            steps.append({'do': 'derive', 'name': name, 'how': how, 'args': args})
            derived.append((name, how, args))
            for a in args:
                if pool[a]['kind'] in EDITABLE and rng.chance(0.6):
                    steps.append({'do': 'edit', 'obj': a, 'edit': {'k': rng.randint(0, 2)}})
    uses = []
    for (name, how, args) in derived:
        uses.append({'obj': name, 'use': rng.randrange(len(USE[DERIVE[how][2]])), 'how': how})
    calls = probes + [s['call'] for s in steps if s['do'] == 'call']
    extra = [{'args': [{'ref': n} for n in ('s0', 's1', 'o1', 'b1')], 'kw': {}}] if derived else []
    extra += [{'args': [{'ref': a}], 'kw': {}} for (_, _, args) in derived for a in args]
    pool = trimmed(pool, calls + extra)
    if other is not None:
        other = trimmed(other, calls + extra)
    twins = {t: trimmed(p, calls + extra) for (t, p) in twins.items()}
    names = sorted(twins) + (['other'] if other is not None else [])
    mirror = [rng.choice(names) if names and rng.chance(0.6) else None for _ in probes]
    return {'info': info, 'pool': pool, 'other': other, **twins, 'steps': steps, 'calls': probes, 'uses': uses, 'mirror': mirror}


def edits_before(sc, upto):
    return [s for s in sc['steps'][:upto] if s['do'] == 'edit']


def apply_edits(world, edits):
    for e in edits:
        edit(world.get(e['obj']), e['edit'])


def execute(sc, ctx):
    pool = sc['pool']
    derives = {s['name']: (i, s) for (i, s) in enumerate(sc['steps']) if s['do'] == 'derive'}
    refs = []
    for p in sc['calls']:
        def body(c, p=p):
            w = api.World(pool)
            w.build_all()
            apply_edits(w, [s for s in sc['steps'] if s['do'] == 'edit'])
            r = api.invoke(c, w, p, budget=1000000)
            if r.outcome.hang:
                raise Skip('the reference call is too long')
            return (r.key(), r.outcome.lines)
        (v, stats) = alone(body)
        merge(ctx, stats)
        refs.append(v)
    urefs = []
    for u in sc['uses']:
        if u['obj'] not in derives:
            raise Invalid('no object')

        def ubody(c, u=u):
            (i, d) = derives[u['obj']]
            private = api.World(pool)
            private.build_all()
            apply_edits(private, edits_before(sc, i))
            w = api.World(pool)
            w.build_all()
            apply_edits(w, [s for s in sc['steps'] if s['do'] == 'edit'])
            x = c.call(DERIVE[d['how']][1], *[private.get(a) for a in d['args']], label=d['how'])
            if not x.ok:
                return ('raised', type(x.exc).__name__)
            return use(c, u, x.value, w).key()
        (v, stats) = alone(ubody)
        merge(ctx, stats)
        urefs.append(v)
    # line counts of the calls of the history, for fault positions
    world = api.World(pool)
    made = {}
    history = 0
    for s in sc['steps']:
        if s['do'] == 'edit':
            world.build_all()
            edit(world.get(s['obj']), s['edit'])
            ctx.state('edit', s['obj'])
            continue
        if s['do'] == 'derive':
            made[s['name']] = ctx.call(DERIVE[s['how']][1], *[world.get(a) for a in s['args']], label=s['how'])
            ctx.state('derive', s['how'])
            continue
        w = world
        if s['where'] == 'clone':
            w = api.World(pool)
        elif s['where'] in ('other', 'near0', 'near1'):
            if sc.get(s['where']) is None:
                raise Invalid('no other pool')
            w = api.World(sc[s['where']])
        kw = {}
        f = s.get('fault')
        if f is not None:
            if f['kind'] == 'solver':
                kw['solver'] = seams.SolverSim('canon', faults={0: f['solver']})
                ctx.configured('solver-' + f['solver'])
            else:
                # a rough length: the probes' own, else a fixed scale
                scale = max([n for (_, n) in refs] + [400])
                kw['at'] = 1 + int(f['u'] ** 2 * scale)
                kw['exc'] = EXC[f['exc']]('injected')
                ctx.configured('line-' + f['exc'])
        r = api.invoke(ctx, w, s['call'], take=False, budget=1000000, **kw)
        keeps_settings(ctx, r, '{} ({})'.format(s['call']['fn'], 'returned' if r.ok else 'failed'))
        history += 1
        ctx.probe('history-{}'.format('returned' if r.ok else 'failed'))
        ctx.state('call', s['call']['fn'], s['where'], r.ok)
        if r.ok and s['scramble']:
            scramble(r.outcome.value)
            ctx.probe('results-overwritten')
        del r, w
    mirror = sc.get('mirror') or []
    for (k, (p, (ref, _))) in enumerate(zip(sc['calls'], refs)):
        w = world
        r = api.invoke(ctx, w, p, budget=4000000)
        compare(ctx, ref, r, 'history-dependent', '{} after {} earlier calls'.format(p['fn'], history))
        if ref[0] == 'returned' and history:
            ctx.nontrivial = True
        # and on freshly built equal objects
        edits = [s for s in sc['steps'] if s['do'] == 'edit']
        twin = mirror[k] if k < len(mirror) else None
        if twin is not None and sc.get(twin) is not None:
            # right after the same call on objects that no longer exist (whose
            # places in memory the new ones may take)
            w = api.World(sc[twin])
            if edits:
                w.build_all()
            api.invoke(ctx, w, p, take=False, budget=1000000)
            ctx.probe('after-dead-objects')
            del w
            addr.collect()
        w = api.World(pool)
        if edits:
            w.build_all()
            apply_edits(w, edits)
        r2 = api.invoke(ctx, w, p, budget=4000000)
        compare(ctx, ref, r2, 'history-dependent', '{} on equal objects after {} earlier calls'.format(p['fn'], history + 1))
        ctx.state(p['fn'])
        ctx.log(snap.text(r.key()))
    for (u, ref) in zip(sc['uses'], urefs):
        x = made[u['obj']]
        ctx.probe('derived-objects')
        if not x.ok:
            ctx.check(ref == ('raised', type(x.exc).__name__), 'history-dependent', lambda: '{}: {}, alone it {}'.format(u['how'], x.describe(), ref[0]))
            continue
        r = use(ctx, u, x.value, world)
        compare(ctx, ref, r, 'shares-with-caller', 'using the object made by {} after the caller changed the lists and arrays it was made from'.format(u['how']))


def use(ctx, u, x, world):
    fn = USE[DERIVE[u['how']][2]][u['use']]
    np.random.seed(12345)
    o = ctx.call(fn, x, world, label='use ' + u['how'])
    return api.Result(o, snap.snap(o.value) if o.ok else None, o.out)
