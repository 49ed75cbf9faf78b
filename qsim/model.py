"""Small reference model: strings as dense matrices, written independently.

An orbital string is a tuple of (letter, label) pairs in increasing label
order; a linear combination is a dict from strings to complex numbers.
"""
import itertools

import numpy as np

PAULI = {
    'I': np.array([[1, 0], [0, 1]], dtype=complex),
    'X': np.array([[0, 1], [1, 0]], dtype=complex),
    'Y': np.array([[0, -1j], [1j, 0]], dtype=complex),
    'Z': np.array([[1, 0], [0, -1]], dtype=complex),
}
LETTERS = {'Pauli': 'XYZ', 'Majorana': 'ABD'}


def kron_all(mats):
    out = np.array([[1.0 + 0j]])
    for m in mats:
        out = np.kron(out, m)
    return out


class Algebra:
    """The operator algebra on a few labelled orbitals of one type."""

    def __init__(self, op_type, labels):
        self.op_type = op_type
        self.labels = sorted(labels)
        self.pos = {l: i for (i, l) in enumerate(self.labels)}
        self.n = len(self.labels)
        self.dim = 2 ** self.n
        self._cache = {}

    def generator(self, letter, label):
        """Matrix of a single-orbital operator."""
        i = self.pos[label]
        if self.op_type == 'Pauli':
            return kron_all([PAULI[letter] if j == i else PAULI['I'] for j in range(self.n)])
        if letter == 'D':
            return -1j * self.generator('A', label) @ self.generator('B', label)
        return kron_all([PAULI['Z'] if j < i else (PAULI['X' if letter == 'A' else 'Y'] if j == i else PAULI['I'])
                         for j in range(self.n)])

    def sigma(self, string):
        """The power of i in front of a Majorana string."""
        if self.op_type == 'Pauli':
            return 0
        nab = sum(1 for (letter, _) in string if letter in 'AB')
        return (nab * (nab - 1) // 2) % 2

    def product_of(self, factors):
        m = np.eye(self.dim, dtype=complex)
        for f in factors:
            m = m @ f
        return m

    def matrix(self, string):
        string = tuple(string)
        if string not in self._cache:
            m = self.product_of([self.generator(a, l) for (a, l) in string])
            self._cache[string] = m * (1j ** self.sigma(string))
        return self._cache[string]

    def combine(self, combo):
        m = np.zeros((self.dim, self.dim), dtype=complex)
        for (string, coeff) in combo.items():
            m = m + coeff * self.matrix(string)
        return m

    def strings(self):
        """All strings on the labels."""
        letters = LETTERS[self.op_type]
        for choice in itertools.product(' ' + letters, repeat=self.n):
            yield tuple((c, l) for (c, l) in zip(choice, self.labels) if c != ' ')

    def decompose(self, matrix, tol=1e-9):
        """The linear combination of strings with this matrix."""
        combo = {}
        for s in self.strings():
            c = np.sum(np.conj(self.matrix(s)) * matrix) / self.dim
            if abs(c) > tol:
                combo[s] = complex(c)
        return combo

    # -- superoperators ------------------------------------------------

    def bracket(self, a, b, mode):
        if mode == 'anticommutator':
            return a @ b + b @ a
        return a @ b - b @ a

    def bracket_columns(self, mats, op, mode):
        """Columns: vec([S, O]) for each S."""
        cols = [self.bracket(m, op, mode).reshape(-1) for m in mats]
        return np.array(cols).T / np.sqrt(self.dim) if cols else np.zeros((self.dim ** 2, 0), dtype=complex)

    def columns(self, mats):
        cols = [m.reshape(-1) for m in mats]
        return np.array(cols).T / np.sqrt(self.dim) if cols else np.zeros((self.dim ** 2, 0), dtype=complex)

    def bracket_combo(self, x, y, mode='commutator', tol=1e-12):
        """(Anti)commutator of two combinations, by string (exact products)."""
        out = {}
        for (s, a) in x.items():
            for (t, b) in y.items():
                (coeff, u) = self.multiply(s, t)
                (coeff2, _) = self.multiply(t, s)
                c = coeff - coeff2 if mode == 'commutator' else coeff + coeff2
                if abs(c) > tol:
                    out[u] = out.get(u, 0) + a * b * c
        return {k: v for (k, v) in out.items() if abs(v) > tol}

    _mult_cache = {}

    def multiply(self, s, t):
        key = (self.op_type, tuple(self.labels), s, t)
        if key not in self._mult_cache:
            if len(self._mult_cache) > 200000:
                self._mult_cache.clear()
            u = self._string_of_product(s, t)
            m = self.matrix(s) @ self.matrix(t)
            c = np.sum(np.conj(self.matrix(u)) * m) / self.dim
            self._mult_cache[key] = (complex(c), u)
        return self._mult_cache[key]

    def _string_of_product(self, s, t):
        letters = LETTERS[self.op_type]
        d1 = dict((l, a) for (a, l) in s)
        d2 = dict((l, a) for (a, l) in t)
        out = []
        for l in self.labels:
            a = d1.get(l)
            b = d2.get(l)
            if a is None and b is None:
                continue
            if a is None or b is None:
                out.append((a or b, l))
            elif a != b:
                (c,) = [x for x in letters if x not in (a, b)]
                out.append((c, l))
        return tuple(out)


class Symmetry:
    """A discrete symmetry: images of the single-orbital operators.

    image(letter, label) -> combination; antiunitary: conjugate prefactors.
    """

    def __init__(self, image, antiunitary=False):
        self.image = image
        self.antiunitary = antiunitary

    def apply_string(self, algebra, string):
        """Matrix of the image of a string."""
        pref = 1j ** algebra.sigma(string)
        if self.antiunitary:
            pref = np.conj(pref)
        mats = [algebra.combine(self.image(a, l)) for (a, l) in string]
        return pref * algebra.product_of(mats)

    def apply_combo(self, algebra, combo):
        m = np.zeros((algebra.dim, algebra.dim), dtype=complex)
        for (s, c) in combo.items():
            m = m + c * self.apply_string(algebra, s)
        return m


class Composite:
    """First the last factor, then the one before it, ..."""

    def __init__(self, factors):
        self.factors = factors

    def apply_combo(self, algebra, combo):
        for f in reversed(self.factors):
            matrix = f.apply_combo(algebra, combo)
            combo = algebra.decompose(matrix)
        return algebra.combine(combo)

    def apply_string(self, algebra, string):
        return self.apply_combo(algebra, {string: 1.0})


# -- linear algebra --------------------------------------------------------

class Ambiguous(Exception):
    """The numbers do not allow a clear decision; the run is not judged."""


def null_space(matrix, low=1e-7, high=1e-3, absolute=False):
    """Orthonormal basis of the null space of a matrix (columns)."""
    n = matrix.shape[1]
    if n == 0:
        return np.zeros((0, 0), dtype=complex)
    if matrix.shape[0] == 0:
        return np.eye(n, dtype=complex)
    (_, s, vh) = np.linalg.svd(matrix, full_matrices=True)
    scale = max(1.0, float(s[0])) if len(s) and not absolute else 1.0
    s = np.concatenate([s, np.zeros(n - len(s))])
    s = s / scale
    if np.any((s > low) & (s < high)):
        raise Ambiguous('singular value {}'.format(s[(s > low) & (s < high)]))
    return np.conj(vh[s <= low].T)


def orth(matrix, low=1e-7, high=1e-4):
    """Orthonormal basis of the column space."""
    if matrix.shape[1] == 0:
        return np.zeros((matrix.shape[0], 0), dtype=complex)
    (u, s, _) = np.linalg.svd(matrix, full_matrices=False)
    scale = max(1.0, float(s[0]))
    s = s / scale
    if np.any((s > low) & (s < high)):
        raise Ambiguous('rank of a matrix with singular value {}'.format(s))
    return u[:, s > low]


def rank(matrix, tol=1e-6):
    if matrix.shape[1] == 0 or matrix.shape[0] == 0:
        return 0
    s = np.linalg.svd(matrix, compute_uv=False)
    return int(np.sum(s > tol * max(1.0, s[0])))


def outside(vectors, basis):
    """Largest distance of unit-normalised vectors from an orthonormal basis' span."""
    if vectors.shape[1] == 0:
        return 0.0
    norms = np.linalg.norm(vectors, axis=0)
    v = vectors / np.where(norms > 0, norms, 1.0)
    r = v - basis @ (np.conj(basis.T) @ v)
    return float(np.max(np.linalg.norm(r, axis=0)))


def same_span(a, b, tol=1e-5):
    """None if equal, else a description. a, b: orthonormal columns."""
    if a.shape[1] != b.shape[1]:
        return 'dimensions {} and {}'.format(a.shape[1], b.shape[1])
    d = max(outside(a, b), outside(b, a))
    if d > tol:
        return 'a vector {:.2e} outside'.format(d)
    return None
