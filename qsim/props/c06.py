"""C06: operators and bases act as linear combinations through any history of edits."""
import copy
import itertools
import pickle

import numpy as np

from .. import gen, seams
from ..build import cnum, qosy
from ..ctx import BY, Invalid, Points

RUNS = {'quick': 15000, 'thorough': 150000}
WALL = {'quick': 200.0, 'thorough': 2700.0}
RULE = ('A run is a history of 5 to 40 constructions, arithmetic operations, in-place edits (also by the caller, of lists and arrays it passed '
        'in or got back), conversions, refused operations and operations interrupted at a seeded executed line, over a pool of operators and '
        'bases that share lists, bases and each other. After every step every live operator is compared with its combination in the model and '
        'every basis with its list. Non-trivial when at least one in-place edit happened while another object had been built from the same '
        'list, basis or operator, or a fault fired.')
REAL = ['qosy.basis and qosy.operatorstring', 'qosy.algebra, qosy.conversion and qosy.transformation as sources of further operators']
STUB = ['standard output']
ASSUMPTIONS = ['an operator built from a Basis keeps a reference to it (documented): extending either may extend the Basis, but no value may change',
               'what an in-place operation leaves in its own target when it is interrupted between two instructions is not specified']

EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}
SCALARS = [2.0, -1.0, 0.5, -0.25, 1.5, 0.0, [0.0, 1.0], [1.0, -2.0], 3, -1]
LET = {'Pauli': 'XYZ', 'Majorana': 'ABD'}


# -- strings -----------------------------------------------------------------

def gen_string(rng, typ, labs):
    if typ != 'Fermion':
        if rng.chance(0.08):
            return {'t': typ, 's': [], 'p': 1}
        return {'t': typ, 's': gen.string(rng, typ, labs), 'p': 1}
    up = sorted(rng.sample(labs, rng.randint(1, min(2, len(labs)))))
    down = sorted(rng.sample(labs, rng.randint(0, len(up))), reverse=True)
    same = up == down[::-1]
    if same:
        return {'t': typ, 's': [['CDag', l] for l in up] + [['C', l] for l in down], 'p': 1}
    if len(up) == len(down) and up < down[::-1]:
        (up, down) = (down[::-1], up[::-1])
    return {'t': typ, 's': [['CDag', l] for l in up] + [['C', l] for l in down], 'p': rng.choice([1, 1, 2])}


def key(spec):
    return (spec['t'], tuple((a, int(l)) for (a, l) in spec['s']), spec['p'] if spec['t'] == 'Fermion' else 1)


def lib_string(spec, form):
    """The same string in one of the ways a user can write it."""
    ops = [a for (a, _) in spec['s']]
    labels = [l for (_, l) in spec['s']]
    p = 1j if spec['p'] == 2 else 1.0
    form = form % 6
    if form == 0 or (form < 3 and not ops):
        return qosy.OperatorString(ops, labels, spec['t'], p)
    if form == 1:
        return qosy.opstring(('1j ' if spec['p'] == 2 else '') + ' '.join('{} {}'.format(a, l) for (a, l) in spec['s']))
    if form == 2:
        return qosy.opstring(('1j ' if spec['p'] == 2 else '1.0 ') + ' '.join('{} {}'.format(a, l) for (a, l) in spec['s']), spec['t'])
    if form == 3:
        return qosy.OperatorString(np.array(ops, dtype=str), np.array(labels, dtype=int), spec['t'], p)
    if form == 4:
        return qosy.OperatorString(tuple(ops), [np.int64(l) for l in labels], spec['t'], complex(p))
    return copy.deepcopy(qosy.OperatorString(ops, labels, spec['t'], p if p == 1j else 1))


def string_key(os):
    p = 1
    if os.op_type == 'Fermion':
        p = 2 if os.prefactor == 1j else 1
    return (os.op_type, tuple((str(a), int(l)) for (a, l) in zip(os.orbital_operators, os.orbital_labels)), p)


# -- scenarios ---------------------------------------------------------------

def generate(rng, tier, index):
    types = [rng.pick([(3, 'Pauli'), (2, 'Majorana'), (2, 'Fermion')])]
    labs = gen.labels(rng, 1, 3)
    pool = []
    for _ in range(rng.randint(3, 8)):
        s = gen_string(rng, types[0], labs)
        if key(s) not in [key(x) for x in pool]:
            pool.append(s)
    if rng.chance(0.3):
        other = rng.choice([t for t in ('Pauli', 'Majorana', 'Fermion') if t != types[0]])
        types.append(other)
        for _ in range(rng.randint(1, 3)):
            s = gen_string(rng, other, labs)
            if key(s) not in [key(x) for x in pool]:
                pool.append(s)
    length = rng.randint(5, 40 if tier == 'thorough' else 25)
    ops = []

    def r():
        return rng.randrange(1000)

    def some():
        k = rng.randint(0 if rng.chance(0.1) else 1, min(5, len(pool)))
        return rng.sample(range(len(pool)), k)

    def coeffs(n):
        return [rng.choice(gen.COEFFS) if rng.chance(0.8) else [rng.choice(gen.COEFFS), rng.choice(gen.COEFFS)] for _ in range(n)]
    kinds = [(4, 'strings'), (4, 'op_list'), (3, 'op_basis'), (2, 'zero'), (3, 'basis_list'), (1, 'basis_empty'), (1, 'basis_copy'),
             (5, 'add'), (4, 'sub'), (8, 'iadd'), (5, 'isub'), (2, 'mul'), (2, 'rmul'), (2, 'imul'), (1, 'neg'), (2, 'normalize'),
             (2, 'remove_zeros'), (2, 'copy'), (2, 'vector'), (2, 'from_vector'), (1, 'norm'), (2, 'edit_coeffs'), (3, 'edit_list'),
             (2, 'edit_array'), (3, 'basis_add'), (4, 'basis_iadd'), (2, 'basis_add_string'), (3, 'basis_iadd_string'), (2, 'query'),
             (3, 'refused'), (2, 'derive'), (1, 'compare'), (1, 'self_iadd'), (1, 'drop')]
    for _ in range(length):
        kind = rng.pick(kinds)
        o = {'op': kind, 'a': r(), 'b': r()}
        if kind in ('strings', 'zero'):
            o['which'] = some()
            o['form'] = r()
        if kind in ('op_list', 'op_basis'):
            o['coeffs'] = coeffs(8)
            o['array'] = rng.chance(0.5)
        if kind in ('mul', 'rmul', 'imul', 'edit_coeffs'):
            o['c'] = rng.choice(SCALARS)
        if kind in ('normalize', 'norm'):
            o['order'] = rng.choice([None, 1, 2, 'inf'])
        if kind == 'remove_zeros':
            o['tol'] = rng.choice([1e-16, 1e-12, 0.4, 1.0])
        if kind == 'vector':
            o['fmt'] = rng.choice(['numpy', 'csc'])
        if kind == 'refused':
            o['how'] = rng.choice(['type', 'scalar', 'fmt', 'missing', 'duplicate', 'no_type', 'basis_type', 'basis_missing', 'bad_coeffs', 'bad_strings'])
        if kind == 'derive':
            o['how'] = rng.choice(['commutator', 'anticommutator', 'product', 'convert', 'transform'])
        if kind == 'copy':
            o['how'] = rng.choice(['deepcopy', 'pickle', 'constructor'])
        if kind in ('basis_add_string', 'basis_iadd_string', 'query', 'edit_list'):
            o['s'] = r()
            o['form'] = r()
        if rng.chance(0.06) and kind in ('add', 'sub', 'iadd', 'isub', 'mul', 'normalize', 'remove_zeros', 'vector', 'basis_add', 'basis_iadd', 'basis_list', 'op_list'):
            o['fault'] = [round(rng.random(), 6), rng.choice(['interrupt', 'memory']), rng.pick(BY), round(rng.random(), 6)]
        ops.append(o)
    return {'labels': labs, 'pool': pool, 'ops': ops}


def simplify(sc):
    for (i, o) in enumerate(sc['ops']):
        if o.get('fault'):
            c = copy.deepcopy(sc)
            del c['ops'][i]['fault']
            yield c


# -- execution ---------------------------------------------------------------

class Op:
    def __init__(self, obj, value, storage):
        self.obj = obj
        self.value = value          # the model: {key: coefficient}
        self.storage = storage      # identity of the basis it may share
        self.exact = storage is None    # length and coefficients agree
        self.scale = max([1.0] + [abs(v) for v in value.values()])


class Bas:
    def __init__(self, obj, keys, storage):
        self.obj = obj
        self.keys = keys
        self.storage = storage


class Run:
    def __init__(self, sc, ctx):
        (self.sc, self.ctx) = (sc, ctx)
        self.ops = []
        self.bases = []
        self.lists = []      # (python list of strings, keys)
        self.arrays = []     # (caller's coefficient container)
        self.fresh = itertools.count()
        self.touched = 0
        self.step = 0
        self.what = ''

    def pick(self, items, ref):
        return items[ref % len(items)] if items else None

    # -- comparing ----------------------------------------------------------

    def value_of(self, op):
        out = {}
        pairs = list(op)
        for (c, os) in pairs:
            k = string_key(os)
            if k in out:
                self.ctx.violate('duplicate-string', '{}: an operator lists {} twice'.format(self.what, k))
            out[k] = complex(c)
        return out

    def check_op(self, o, name):
        ctx = self.ctx
        got = self.value_of(o.obj)
        tol = 1e-9 * o.scale
        for k in set(got) | set(o.value):
            (x, y) = (got.get(k, 0), o.value.get(k, 0))
            ctx.check(abs(x - y) <= tol, 'wrong-value', lambda: '{}: {} has {} of {}, linear arithmetic gives {}'.format(self.what, name, x, k, y))
        if o.exact:
            ctx.check(len(o.obj) == len(got), 'wrong-value', lambda: '{}: {} has length {} but lists {} strings'.format(self.what, name, len(o.obj), len(got)))

    def check_basis(self, b, name):
        ctx = self.ctx
        got = [string_key(os) for os in b.obj]
        ctx.check(len(set(got)) == len(got), 'duplicate-string', lambda: '{}: {} lists a string twice'.format(self.what, name))
        ctx.check(got == b.keys, 'wrong-basis', lambda: '{}: {} lists {}, expected {}'.format(self.what, name, got, b.keys))
        ctx.check(len(b.obj) == len(got), 'wrong-basis', lambda: '{}: {} reports length {}'.format(self.what, name, len(b.obj)))
        for (i, os) in enumerate(b.obj):
            ctx.check(os in b.obj and b.obj.index(os) == i and b.obj[i] is os, 'wrong-index',
                      lambda: '{}: {} does not find {} at index {}'.format(self.what, name, got[i], i))
        for (j, s) in enumerate(self.sc['pool']):
            if key(s) not in got:
                ctx.check(lib_string(s, j) not in b.obj, 'wrong-index', lambda: '{}: {} claims to contain {}'.format(self.what, name, key(s)))

    def check_all(self):
        for (i, o) in enumerate(self.ops):
            self.check_op(o, 'operator {}'.format(i))
        for (i, b) in enumerate(self.bases):
            self.check_basis(b, 'basis {}'.format(i))

    def shared(self, o):
        return o.storage is not None

    def grow(self, storage, allowed):
        """A shared basis may have been extended by these strings."""
        if storage is None:
            return
        for b in self.bases:
            if b.storage == storage:
                got = [string_key(os) for os in b.obj]
                self.ctx.check(got[:len(b.keys)] == b.keys and set(got[len(b.keys):]) <= set(allowed), 'wrong-basis',
                               lambda: '{}: a basis shared by reference became {}'.format(self.what, got))
                b.keys = got

    # -- calling ------------------------------------------------------------

    def call(self, o, fn, *args, **kw):
        """Run fn(*args); with a fault, count lines on a copy first."""
        ctx = self.ctx
        if o.get('fault'):
            (frac, kind) = o['fault'][:2]
            (by, v) = o['fault'][2:] or ('time', 0.5)
            ctx.configured('line-' + kind)
            trial = copy.deepcopy(args)
            points = Points(watch=trial if by == 'change' else None)
            dry = ctx.call(fn, *trial, label='dry', hook=points.hook, **kw)
            if dry.ok and dry.lines:
                return ctx.call(fn, *args, at=points.pick(by, frac, v), exc=EXCS[kind]('injected'), label=o['op'], **kw)
        return ctx.call(fn, *args, label=o['op'], **kw)

    def ok(self, r, o):
        """The call returned, or was interrupted; anything else is wrong."""
        if r.ok:
            return True
        if r.fired is None:
            self.ctx.must_succeed(r, self.what)
        self.ctx.nontrivial = True
        return False

    def new_op(self, obj, value, storage=None):
        self.ops.append(Op(obj, {k: v for (k, v) in value.items() if v != 0}, storage))
        if len(self.ops) > 12:
            del self.ops[0]

    def new_basis(self, obj, keys):
        self.bases.append(Bas(obj, keys, next(self.fresh)))
        if len(self.bases) > 8:
            del self.bases[0]

    def in_place(self):
        self.touched += 1
        if self.touched >= 1 and len(self.ops) + len(self.bases) >= 2:
            self.ctx.nontrivial = True

    def type_of(self, o):
        return o.obj.op_type

    def combine(self, x, y, sign=1.0):
        out = dict(x)
        for (k, v) in y.items():
            out[k] = out.get(k, 0) + sign * v
        return out

    def do(self, o):
        ctx = self.ctx
        pool = self.sc['pool']
        kind = o['op']
        a = self.pick(self.ops, o['a'])
        b = self.pick(self.ops, o['b'])
        ba = self.pick(self.bases, o['a'])
        bb = self.pick(self.bases, o['b'])
        if kind == 'strings':
            which = [i for i in o['which'] if i < len(pool)]
            typ = pool[which[0]]['t'] if which else None
            which = [i for i in which if pool[i]['t'] == typ]
            self.lists.append(([lib_string(pool[i], o['form'] + j) for (j, i) in enumerate(which)], [key(pool[i]) for i in which]))
            if len(self.lists) > 5:
                del self.lists[0]
        elif kind in ('op_list', 'op_basis'):
            src = self.pick(self.lists, o['a']) if kind == 'op_list' else ba
            if src is None:
                return
            (strings, keys) = src if kind == 'op_list' else (ba.obj, ba.keys)
            if not keys or len(set(keys)) != len(keys) or len(set(k[0] for k in keys)) > 1:
                return
            cs = [cnum(o['coeffs'][i % len(o['coeffs'])]) for i in range(len(keys))]
            given = np.array(cs, dtype=complex) if o['array'] else list(cs)
            self.arrays.append(given)
            if len(self.arrays) > 5:
                del self.arrays[0]
            r = self.call(o, qosy.Operator, given, strings)
            if self.ok(r, o):
                self.new_op(r.value, dict(zip(keys, cs)), None if kind == 'op_list' else ba.storage)
        elif kind == 'zero':
            typ = pool[o['which'][0]]['t'] if o['which'] and o['which'][0] < len(pool) else pool[0]['t']
            r = self.call(o, qosy.Operator, op_type=typ)
            if self.ok(r, o):
                self.new_op(r.value, {})
        elif kind == 'basis_list':
            src = self.pick(self.lists, o['a'])
            if src is None:
                return
            r = self.call(o, qosy.Basis, src[0])
            if self.ok(r, o):
                self.new_basis(r.value, list(src[1]))
        elif kind == 'basis_empty':
            self.new_basis(qosy.Basis(), [])
        elif kind == 'basis_copy':
            if ba is not None:
                self.new_basis([qosy.Basis(ba.obj.op_strings), copy.deepcopy(ba.obj), pickle.loads(pickle.dumps(ba.obj)), ba.obj + qosy.Basis()][o['b'] % 4],
                               list(ba.keys))
        elif kind in ('add', 'sub'):
            if a is None or self.type_of(a) != self.type_of(b):
                return
            r = self.call(o, (lambda x, y: x + y) if kind == 'add' else (lambda x, y: x - y), a.obj, b.obj)
            if self.ok(r, o):
                self.new_op(r.value, self.combine(a.value, b.value, 1.0 if kind == 'add' else -1.0))
        elif kind in ('iadd', 'isub', 'self_iadd'):
            if kind == 'self_iadd':
                b = a
            if a is None or self.type_of(a) != self.type_of(b):
                return
            extra = [string_key(os) for (_, os) in b.obj]
            if self.shared(b):
                extra = extra + [k for x in self.bases if x.storage == b.storage for k in x.keys] + list(string_key(os) for os in self.basis_of(b))

            def inplace(x, y):
                if kind == 'isub':
                    x -= y
                else:
                    x += y
                return x
            before = a.obj
            value = self.combine(a.value, b.value, -1.0 if kind == 'isub' else 1.0)
            r = self.call(o, inplace, a.obj, b.obj)
            if self.ok(r, o):
                ctx.check(r.value is before, 'wrong-value', lambda: self.what + ': the in-place operation returned another object')
                a.value = value
                a.scale = max([a.scale] + [abs(v) for v in value.values()])
                self.grow(a.storage, extra)
            else:
                self.taint(a)
            self.in_place()
        elif kind in ('mul', 'rmul', 'imul', 'neg'):
            if a is None:
                return
            c = -1.0 if kind == 'neg' else cnum(o['c']) if isinstance(o['c'], list) else o['c']
            if kind == 'imul':
                def scale(x):
                    x *= c
                    return x
                fn = scale
            else:
                fn = {'mul': lambda x: x * c, 'rmul': lambda x: c * x, 'neg': lambda x: -x}[kind]
            r = self.call(o, fn, a.obj)
            if self.ok(r, o):
                value = {k: c * v for (k, v) in a.value.items()}
                if r.value is a.obj:
                    a.value = value      # an in-place implementation would do as well
                    a.scale = max([a.scale] + [abs(v) for v in value.values()])
                    ctx.check(kind == 'imul', 'aliased', self.what + ': the result is the operand itself')
                else:
                    self.new_op(r.value, value)
                    self.ops[-1].exact = a.exact
        elif kind == 'normalize':
            if a is None or not a.value:
                return
            order = np.inf if o['order'] == 'inf' else o['order']
            n = np.linalg.norm(np.array(list(a.value.values())), ord=order)
            if n < 1e-9 * a.scale:
                return
            r = self.call(o, a.obj.normalize, order=order) if not o.get('fault') else self.call(o, lambda x: x.normalize(order=order), a.obj)
            if self.ok(r, o):
                a.value = {k: v / n for (k, v) in a.value.items()}
                a.scale = max([1.0] + [abs(v) for v in a.value.values()]) * max(1.0, a.scale / n)
            else:
                self.taint(a)
            self.in_place()
        elif kind == 'norm':
            if a is None or not a.value:
                return
            order = np.inf if o['order'] == 'inf' else o['order']
            n = np.linalg.norm(np.array(list(a.value.values())), ord=order)
            r = self.call(o, a.obj.norm, order=order)
            if self.ok(r, o):
                ctx.check(abs(r.value - n) < 1e-8 * max(a.scale, 1.0) * (1 + len(a.value)), 'wrong-value', lambda: '{}: norm {!r}, linear arithmetic gives {!r}'.format(self.what, r.value, n))
        elif kind == 'remove_zeros':
            if a is None:
                return
            pairs = [(complex(c), string_key(os)) for (c, os) in a.obj]
            r = self.call(o, lambda x: x.remove_zeros(o['tol']), a.obj)
            if self.ok(r, o):
                got = [(complex(c), string_key(os)) for (c, os) in r.value]
                want = [(c, k) for (c, k) in pairs if abs(c) > o['tol']]
                certain = [(c, k) for (c, k) in want if abs(c) > o['tol'] * (1 + 1e-9)]
                possible = [(c, k) for (c, k) in pairs if abs(c) > o['tol'] * (1 - 1e-9)]
                ctx.check([x for x in got if x in certain] == certain and [x for x in possible if x in got] == got, 'wrong-value',
                          lambda: '{}: {} instead of {}'.format(self.what, got, want))
                want = got
                ctx.check(r.value is not a.obj, 'aliased', lambda: self.what + ': the result is the operand itself')
                self.new_op(r.value, {k: c for (c, k) in want})
        elif kind == 'copy':
            if a is None:
                return
            if o['how'] == 'constructor':
                if not len(a.obj.coeffs):
                    return
                obj = qosy.Operator(a.obj.coeffs, [os for (_, os) in a.obj])
            else:
                obj = copy.deepcopy(a.obj) if o['how'] == 'deepcopy' else pickle.loads(pickle.dumps(a.obj))
                ctx.check(obj == a.obj, 'wrong-value', lambda: self.what + ': the copy is not equal')
            self.new_op(obj, dict(a.value))
            self.ops[-1].exact = a.exact
        elif kind == 'vector':
            if a is None or ba is None:
                return
            strings = [string_key(os) for (_, os) in a.obj]
            inside = set(strings) <= set(ba.keys)
            r = self.call(o, lambda x, y: x.to_vector(y, fmt=o['fmt']), a.obj, ba.obj)
            if not r.ok and r.fired is None and isinstance(r.exc, KeyError) and not inside:
                ctx.fired('refused')
                return
            if self.ok(r, o):
                ctx.check(inside, 'wrong-value', lambda: self.what + ': vector of an operator with strings outside of the basis')
                v = r.value.toarray()[:, 0] if o['fmt'] == 'csc' else r.value
                ctx.check(v.shape == (len(ba.keys),), 'wrong-value', lambda: '{}: vector of shape {}'.format(self.what, v.shape))
                for (i, k) in enumerate(ba.keys):
                    ctx.check(abs(v[i] - a.value.get(k, 0)) <= 1e-9 * a.scale, 'wrong-value', lambda: '{}: entry {} is {}'.format(self.what, i, v[i]))
                if o['fmt'] == 'numpy':
                    r.value[:] = 7.0
        elif kind == 'from_vector':
            if a is None or ba is None or not ba.keys or len(set(k[0] for k in ba.keys)) > 1 or not set(string_key(os) for (_, os) in a.obj) <= set(ba.keys):
                return
            v = a.obj.to_vector(ba.obj)
            obj = qosy.Operator(v, ba.obj if o['b'] % 2 else list(ba.obj))
            v[:] = -9.0
            self.new_op(obj, dict(a.value), ba.storage if o['b'] % 2 else None)
            self.ops[-1].scale = a.scale
        elif kind == 'edit_coeffs':
            if a is None or not len(a.obj.coeffs):
                return
            i = o['b'] % len(a.obj.coeffs)
            k = string_key(list(a.obj)[i][1])
            a.obj.coeffs[i] = cnum(o['c']) if isinstance(o['c'], list) else o['c']
            a.value[k] = complex(a.obj.coeffs[i])
            self.in_place()
        elif kind == 'edit_list':
            src = self.pick(self.lists, o['a'])
            if src is None:
                return
            s = pool[o['s'] % len(pool)]
            if o['b'] % 3 == 0 and src[0]:
                i = o['b'] % len(src[0])
                del src[0][i]
                del src[1][i]
            elif o['b'] % 3 == 1 and src[0] and key(s) not in src[1] and src[1][0][0] == key(s)[0]:
                i = o['b'] % len(src[0])
                src[0][i] = lib_string(s, o['form'])
                src[1][i] = key(s)
            elif key(s) not in src[1] and (not src[1] or src[1][0][0] == key(s)[0]):
                src[0].append(lib_string(s, o['form']))
                src[1].append(key(s))
            else:
                src[0].reverse()
                src[1].reverse()
            self.in_place()
        elif kind == 'edit_array':
            arr = self.pick(self.arrays, o['a'])
            if arr is None:
                return
            for i in range(len(arr)):
                arr[i] = 11.0 + i
            self.in_place()
        elif kind == 'basis_add':
            if ba is None:
                return
            r = self.call(o, lambda x, y: x + y, ba.obj, bb.obj)
            if self.ok(r, o):
                self.new_basis(r.value, ba.keys + [k for k in bb.keys if k not in ba.keys])
        elif kind == 'basis_iadd':
            if ba is None:
                return

            def extend(x, y):
                x += y
                return x
            keys = ba.keys + [k for k in bb.keys if k not in ba.keys]
            before = ba.obj
            r = self.call(o, extend, ba.obj, bb.obj)
            if self.ok(r, o):
                ctx.check(r.value is before, 'wrong-basis', lambda: self.what + ': the in-place operation returned another object')
                for x in self.bases:
                    if x.storage == ba.storage:
                        x.keys = list(keys)
            else:
                self.taint(ba)
            self.in_place()
        elif kind in ('basis_add_string', 'basis_iadd_string'):
            if ba is None:
                return
            s = pool[o['s'] % len(pool)]
            keys = ba.keys + ([key(s)] if key(s) not in ba.keys else [])
            os = lib_string(s, o['form'])
            if kind == 'basis_add_string':
                r = self.call(o, lambda x, y: x + y, ba.obj, os)
                if self.ok(r, o):
                    self.new_basis(r.value, keys)
            else:
                def extend(x, y):
                    x += y
                    return x
                r = self.call(o, extend, ba.obj, os)
                if self.ok(r, o):
                    for x in self.bases:
                        if x.storage == ba.storage:
                            x.keys = list(keys)
                self.in_place()
        elif kind == 'query':
            if ba is None:
                return
            s = pool[o['s'] % len(pool)]
            os = lib_string(s, o['form'])
            ctx.check((os in ba.obj) == (key(s) in ba.keys), 'wrong-index', lambda: '{}: membership of {}'.format(self.what, key(s)))
            if key(s) in ba.keys:
                ctx.check(ba.obj.index(os) == ba.keys.index(key(s)), 'wrong-index', lambda: '{}: index of {}'.format(self.what, key(s)))
            if bb is not None:
                ctx.check((ba.obj == bb.obj) == (ba.keys == bb.keys), 'wrong-basis', lambda: self.what + ': equality of bases')
        elif kind == 'refused':
            self.refused(o, a, b, ba)
        elif kind == 'derive':
            self.derive(o, a, b)
        elif kind == 'compare':
            if a is None or self.type_of(a) != self.type_of(b):
                return
            d = self.combine(a.value, b.value, -1.0)
            n = np.linalg.norm(np.array([0.0] + [abs(v) for v in d.values()]))
            r = self.call(o, lambda x, y: (x - y).norm(), a.obj, b.obj)
            if self.ok(r, o):
                ctx.check(abs(r.value - n) < 1e-8 * max(a.scale, b.scale) * (1 + len(d)), 'wrong-value', lambda: '{}: distance {!r} instead of {!r}'.format(self.what, r.value, n))
        elif kind == 'drop':
            if a is not None:
                self.ops.remove(a)
        else:
            raise Invalid(kind)

    def basis_of(self, o):
        """All the strings of an operator, also those without a coefficient."""
        b = getattr(o.obj, '_basis', None)
        return list(b) if b is not None else [os for (_, os) in o.obj]

    def taint(self, target):
        """An in-place operation was interrupted: its target is given up."""
        if isinstance(target, Op):
            self.ops.remove(target)
        if target.storage is not None:
            self.check_values(target.storage)
            self.bases = [x for x in self.bases if x.storage != target.storage]
            self.ops = [x for x in self.ops if x.storage != target.storage]

    def check_values(self, storage):
        for (i, x) in enumerate(self.ops):
            if x.storage == storage:
                self.check_op(x, 'operator {}'.format(i))

    def refused(self, o, a, b, ba):
        ctx = self.ctx
        pool = self.sc['pool']
        how = o['how']
        (fn, args) = (None, ())

        def iadd(x, y):
            x += y
            return x
        if how == 'type':
            others = [x for x in self.ops if a is not None and self.type_of(x) != self.type_of(a)]
            if not others:
                return
            (fn, args) = (iadd if o['b'] % 2 else (lambda x, y: x + y), (a.obj, others[o['b'] % len(others)].obj))
        elif how == 'scalar' and a is not None:
            (fn, args) = (iadd if o['b'] % 2 else (lambda x, y: x - y), (a.obj, 3.0))
            if o['b'] % 2 == 0:
                return          # 3.0 * -1.0 is refused further on
        elif how == 'fmt' and a is not None and ba is not None:
            (fn, args) = (lambda x, y: x.to_vector(y, fmt='list'), (a.obj, ba.obj))
        elif how == 'missing' and a is not None and len(a.obj.coeffs):
            (fn, args) = (lambda x, y: x.to_vector(y), (a.obj, qosy.Basis()))
        elif how == 'duplicate':
            s = pool[o['b'] % len(pool)]
            (fn, args) = (qosy.Basis if o['a'] % 2 else (lambda x: qosy.Operator([1.0, 2.0], x)), ([lib_string(s, o['a']), lib_string(s, o['b'])],))
        elif how == 'no_type':
            (fn, args) = (qosy.Operator, ([], []))
        elif how == 'basis_type' and ba is not None:
            (fn, args) = (iadd if o['b'] % 2 else (lambda x, y: x + y), (ba.obj, [None, 3, 'X 1', [lib_string(pool[0], 0)]][o['b'] % 4]))
        elif how == 'basis_missing' and ba is not None:
            missing = [s for s in pool if key(s) not in ba.keys]
            if not missing:
                return
            (fn, args) = (lambda x, y: x.index(y), (ba.obj, lib_string(missing[0], o['a'])))
        elif how == 'bad_coeffs':
            (fn, args) = (qosy.Operator, (['one'], [lib_string(pool[0], 0)]))
        elif how == 'bad_strings':
            (fn, args) = (qosy.Operator, ([1.0], 'X 1'))
        if fn is None:
            return
        r = ctx.call(fn, *args, label='refused-' + how)
        ctx.check(not r.ok, 'not-refused', lambda: '{} ({}) was accepted'.format(self.what, how))
        ctx.check(isinstance(r.exc, Exception), 'not-refused', lambda: '{} ({}): {}'.format(self.what, how, r.describe()))
        ctx.fired('refused')

    def derive(self, o, a, b):
        """Operators made by other parts of the library; only their
        independence is judged here."""
        if a is None:
            return
        t = self.type_of(a)
        how = o['how']
        if not len(a.obj.coeffs) or t == 'Fermion' and how != 'convert':
            return
        if how in ('commutator', 'anticommutator', 'product'):
            if self.type_of(b) != t or not len(b.obj.coeffs):
                return
            r = self.ctx.call(getattr(qosy, how), a.obj, b.obj)
        elif how == 'convert':
            if t == 'Pauli':
                return
            r = self.ctx.call(qosy.convert, a.obj, t)
        else:
            if t != 'Pauli':
                return
            r = self.ctx.call(qosy.time_reversal().apply, a.obj)
        if r.ok and isinstance(r.value, qosy.Operator):
            self.ctx.check(r.value is not a.obj, 'aliased', lambda: self.what + ': the result is the operand itself')
            self.new_op(r.value, self.value_of(r.value))

    def run(self):
        for (i, o) in enumerate(self.sc['ops']):
            self.what = 'step {} ({}{})'.format(i, o['op'], ', interrupted' if o.get('fault') else '')
            self.do(o)
            self.ctx.state(o['op'], o.get('how'), len(self.ops), len(self.bases), [sorted(x.value) for x in self.ops[-2:]])
            self.check_all()


def execute(sc, ctx):
    if not sc['pool']:
        raise Invalid('pool')
    Run(sc, ctx).run()
