"""Search spaces and symmetries: library objects plus the model's answers."""
import numpy as np

from . import build, model
from .build import qosy
from .ctx import Invalid


class Space:
    """The operators to search in."""

    def __init__(self, typ, labels, spec):
        self.typ = typ
        self.algebra = model.Algebra(typ, labels)
        self.spec = spec
        if spec['kind'] == 'strings':
            strings = [build.st(s) for s in spec['strings']]
            if len(set(strings)) != len(strings) or not strings:
                raise Invalid('strings')
            self.combos = [{s: 1.0} for s in strings]
        else:
            self.combos = [build.model_combo(t) for t in spec['operators']]
            if not self.combos or any(not t for t in spec['operators']):
                raise Invalid('operators')
        self.mats = [self.algebra.combine(c) for c in self.combos]
        self.columns = self.algebra.columns(self.mats)
        if spec['kind'] != 'strings':
            s = np.linalg.svd(self.columns, compute_uv=False)
            if s[-1] < 0.05 * s[0]:
                raise model.Ambiguous('search operators badly conditioned')
        self.size = len(self.combos)

    def library(self):
        if self.spec['kind'] == 'strings':
            return qosy.Basis([build.lib_string(build.st(s), self.typ) for s in self.spec['strings']])
        return [build.lib_operator(t, self.typ) for t in self.spec['operators']]

    def constraint(self, sym, mode):
        """Matrix whose null space are the symmetric coefficient vectors."""
        if sym['kind'] == 'operator':
            if not sym['terms']:
                raise Invalid('terms')
            op = self.algebra.combine(build.model_combo(sym['terms']))
            return self.algebra.bracket_columns(self.mats, op, mode)
        s = build.model_symmetry(sym['spec'], self.typ)
        sign = 1.0 if mode == 'commutator' else -1.0
        images = [s.apply_combo(self.algebra, c) for c in self.combos]
        return self.algebra.columns(images) - sign * self.columns

    def operators(self, coeffs):
        """Orthonormal basis (in operator space) of a coefficient subspace."""
        return model.orth(self.columns @ coeffs)

    def solutions(self, constraints, **gap):
        if constraints:
            k = np.vstack(constraints)
        else:
            k = np.zeros((1, self.size))
        return model.null_space(k, **gap)

    def column_of(self, op):
        """Operator-space vector of a library Operator."""
        m = self.algebra.combine(build.combo_of(op))
        return m.reshape(-1) / np.sqrt(self.algebra.dim)


def lib_symmetry(sym, typ):
    if sym['kind'] == 'operator':
        return build.lib_operator(sym['terms'], typ)
    return build.lib_transformation(sym['spec'])


def judge(vectors, expected, complete, what, ctx, tol=3e-4, columns_independent=True):
    """Compare reported operator-space columns with the expected subspace."""
    if vectors.shape[1] and not np.all(np.isfinite(vectors)):
        ctx.violate('not-finite', '{}: non-finite coefficients'.format(what))
    if vectors.shape[1] and np.min(np.linalg.norm(vectors, axis=0)) < 1e-8:
        ctx.violate('zero-operator', '{}: a reported operator is zero'.format(what))
    d = model.outside(vectors, expected)
    if d > tol:
        ctx.violate('unsymmetric-operator', '{}: a reported operator is {:.2e} away from the operators with the symmetries (expected dimension {}, reported {})'.format(
            what, d, expected.shape[1], vectors.shape[1]))
    r = model.rank(vectors)
    if columns_independent and r != vectors.shape[1]:
        ctx.violate('dependent-operators', '{}: {} reported operators span only {} dimensions'.format(what, vectors.shape[1], r))
    if complete and r != expected.shape[1]:
        ctx.violate('missing-operator', '{}: reported operators span {} dimensions, the symmetric operators {}'.format(
            what, r, expected.shape[1]))
