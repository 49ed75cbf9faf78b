"""JSON descriptions -> library objects and model objects."""
import numpy as np

from . import model
from .ctx import Invalid
from .env import load_repo

qosy = load_repo()


class RuleFailure(Exception):
    """Raised by a user-supplied rule when told to."""


def st(s):
    """Model string from JSON [["X", 1], ...]."""
    return tuple((a, int(l)) for (a, l) in s)


def lib_string(s, op_type):
    """Library string from a model string."""
    ops = [a for (a, _) in s]
    labels = [l for (_, l) in s]
    return qosy.OperatorString(ops, labels, op_type)


def model_string(os):
    """Model string from a library string."""
    return tuple((str(a), int(l)) for (a, l) in zip(os.orbital_operators, os.orbital_labels))


def cnum(c):
    if isinstance(c, (list, tuple)):
        return complex(c[0], c[1])
    return float(c)


def lib_operator(terms, op_type):
    """Library operator from JSON [[coeff, string], ...]."""
    coeffs = [cnum(c) for (c, _) in terms]
    strings = [lib_string(st(s), op_type) for (_, s) in terms]
    return qosy.Operator(np.array(coeffs, dtype=complex), strings, op_type)


def model_combo(terms):
    out = {}
    for (c, s) in terms:
        s = st(s)
        out[s] = out.get(s, 0) + cnum(c)
    return out


def combo_of(op):
    """Combination of a library operator."""
    out = {}
    for (c, os) in op:
        s = model_string(os)
        out[s] = out.get(s, 0) + complex(c)
    return out


def combo_close(x, y, tol=1e-8):
    for k in set(x) | set(y):
        if abs(x.get(k, 0) - y.get(k, 0)) > tol:
            return False
    return True


# -- callbacks ---------------------------------------------------------------

class Callbacks:
    count = 0
    action = None      # called with the index of every call of a user's function


def called():
    """Every function the simulated user passes to the library calls this."""
    index = Callbacks.count
    Callbacks.count += 1
    if Callbacks.action is not None:
        Callbacks.action(index)


# -- transformations -------------------------------------------------------

class UserRule:
    """A rule as a user would write it: a function of a string and info.

    Rules act on Pauli strings factor by factor.  Rules can be told to fail at
    the k-th application (callback fault).
    """

    def __init__(self, name, angle=0.0, fail_at=None, kind='rule'):
        self.name = name
        self.angle = angle
        self.fail_at = fail_at
        self.kind = kind
        self.calls = 0
        self.failures = 0

    def image(self, letter, label):
        return self.single(letter)

    def single(self, letter):
        if self.name == 'hadamard':
            return {'X': {'Z': 1.0}, 'Z': {'X': 1.0}, 'Y': {'Y': -1.0}}[letter]
        if self.name == 'flip':
            return {'X': {'X': 1.0}, 'Y': {'Y': -1.0}, 'Z': {'Z': -1.0}}[letter]
        if self.name == 'cycle':
            return {'X': {'Y': 1.0}, 'Y': {'Z': 1.0}, 'Z': {'X': 1.0}}[letter]
        c = np.cos(self.angle)
        s = np.sin(self.angle)
        if self.name == 'rotz':
            out = {'X': {'X': c, 'Y': s}, 'Y': {'X': -s, 'Y': c}, 'Z': {'Z': 1.0}}[letter]
            return {k: v for (k, v) in out.items() if abs(v) > 1e-14}
        raise ValueError(self.name)

    def __call__(self, op_string, info):
        index = self.calls
        self.calls += 1
        called()
        if self.fail_at is not None and index == self.fail_at:
            self.failures += 1
            if self.kind == 'memory':
                raise MemoryError('injected in a rule')
            if self.kind == 'interrupt':
                raise KeyboardInterrupt('injected in a rule')
            raise RuleFailure('injected in a rule')
        terms = {(): 1.0}
        for (a, l) in zip(op_string.orbital_operators, op_string.orbital_labels):
            new = {}
            for (t, c) in terms.items():
                for (b, v) in self.single(str(a)).items():
                    new[t + ((b, int(l)),)] = c * v
            terms = new
        strings = [lib_string(t, 'Pauli') for t in terms]
        return qosy.Operator(np.array(list(terms.values()), dtype=complex), strings, 'Pauli')

    # Value identity for snapshots
    def describe(self):
        return ('UserRule', self.name, self.angle)


def lattice_from(spec):
    """Lattice from JSON."""
    if spec['kind'] == 'chain':
        return qosy.lattice.chain(spec['n'], periodic=spec.get('periodic', False), orbital_names=spec.get('orbitals'))
    if spec['kind'] == 'square':
        return qosy.lattice.square(spec['n'], spec['m'], periodic_boundaries=spec.get('periodic'), orbital_names=spec.get('orbitals'))
    if spec['kind'] == 'kagome':
        return qosy.lattice.kagome(spec['n'], spec['m'], periodic_boundaries=spec.get('periodic'))
    raise ValueError(spec)


def lib_transformation(spec):
    kind = spec['kind']
    if kind == 'permutation':
        return qosy.label_permutation(np.array(spec['perm'], dtype=int))
    if kind == 'time_reversal':
        if 'chain' in spec:
            lat = lattice_from(spec['chain'])
            return qosy.time_reversal((lat, 'Up', 'Dn'))
        return qosy.time_reversal()
    if kind == 'particle_hole':
        return qosy.particle_hole()
    if kind == 'charge_conjugation':
        return qosy.charge_conjugation()
    if kind == 'spin_flip':
        return qosy.spin_flip_symmetry(lattice_from(spec['chain']))
    if kind == 'spin_parity':
        return qosy.spin_parity_symmetry(lattice_from(spec['chain']))
    if kind == 'space_group':
        return qosy.space_group_symmetry(lattice_from(spec['chain']), np.array(spec['R'], dtype=float), np.array(spec['d'], dtype=float))
    if kind == 'rule':
        return qosy.Transformation(UserRule(spec['name'], spec.get('angle', 0.0), spec.get('fail_at'), spec.get('fail_kind', 'rule')), None)
    if kind == 'product':
        if not spec['factors']:
            raise Invalid('no factors')
        out = lib_transformation(spec['factors'][0])
        for f in spec['factors'][1:]:
            out = out * lib_transformation(f)
        return out
    if kind == 'power':
        return lib_transformation(spec['base']) ** int(spec['n'])
    raise ValueError(kind)


def user_rules(transformation):
    """All the UserRule objects inside a transformation."""
    out = []
    stack = [transformation]
    while stack:
        t = stack.pop()
        if isinstance(t, UserRule):
            out.append(t)
        elif isinstance(t, qosy.Transformation):
            stack.append(t.rule)
            stack.append(t.info)
        elif isinstance(t, (list, tuple)):
            stack.extend(t)
    return out


def model_symmetry(spec, op_type):
    """Independent description of the same transformation."""
    kind = spec['kind']
    if kind == 'permutation':
        perm = [int(p) for p in spec['perm']]
        return model.Symmetry(lambda a, l: {((a, perm[l] if l < len(perm) else l),): 1.0})
    if kind == 'time_reversal' and 'chain' not in spec:
        if op_type == 'Pauli':
            return model.Symmetry(lambda a, l: {((a, l),): -1.0}, antiunitary=True)
        return model.Symmetry(lambda a, l: {((a, l),): -1.0 if a == 'B' else 1.0}, antiunitary=True)
    if kind == 'time_reversal':
        # orbitals 2i (Up), 2i+1 (Dn): c_up -> c_dn, c_dn -> -c_up, i -> -i
        def image(a, l):
            up = (l % 2 == 0)
            other = l + 1 if up else l - 1
            s = 1.0
            if a == 'B':
                s = -1.0
            if not up and a in 'AB':
                s = -s
            return {((a, other),): s}
        return model.Symmetry(image, antiunitary=True)
    if kind in ('particle_hole', 'charge_conjugation'):
        return model.Symmetry(lambda a, l: {((a, l),): 1.0 if a == 'A' else -1.0})
    if kind == 'spin_flip':
        return model.Symmetry(lambda a, l: {((a, l + 1 if l % 2 == 0 else l - 1),): 1.0})
    if kind == 'spin_parity':
        return model.Symmetry(lambda a, l: {((a, l),): -1.0 if (l % 2 == 1 and a in 'AB') else 1.0})
    if kind == 'space_group':
        n = spec['chain']['n']
        norb = len(spec['chain'].get('orbitals') or [1])
        r = spec['R'][0][0]
        d = spec['d'][0]

        def image(a, l):
            (cell, orb) = divmod(l, norb)
            return {((a, int(round(r * cell + d)) % n * norb + orb),): 1.0}
        return model.Symmetry(image)
    if kind == 'rule':
        rule = UserRule(spec['name'], spec.get('angle', 0.0))
        return model.Symmetry(lambda a, l: {((b, l),): v for (b, v) in rule.single(a).items()})
    if kind == 'product':
        return model.Composite([model_symmetry(f, op_type) for f in spec['factors']])
    if kind == 'power':
        return model.Composite([model_symmetry(spec['base'], op_type)] * int(spec['n']))
    raise ValueError(kind)
