"""Values of library objects as plain nested data, for comparison.

Only what a user can observe counts: attributes whose name starts with an
underscore do not (a cache may be filled in behind the scenes).
"""
import math
import types

import numpy as np
import scipy.sparse as ss

from . import build
from .build import qosy


def snap(x, depth=0):
    if depth > 12:
        return ('deep',)
    d = depth + 1
    if x is None or isinstance(x, (bool, np.bool_)):
        return ('value', None if x is None else bool(x))
    if isinstance(x, (int, np.integer)):
        return ('number', int(x))
    if isinstance(x, (float, np.floating)):
        return ('number', float(x))
    if isinstance(x, (complex, np.complexfloating)):
        return ('number', complex(x))
    if isinstance(x, (str, np.str_, bytes)):
        return ('value', str(x))
    if isinstance(x, qosy.OperatorString):
        return ('string', str(x.op_type), tuple((str(a), _label(l)) for (a, l) in zip(x.orbital_operators, x.orbital_labels)),
                ('number', complex(x.prefactor)))
    if isinstance(x, qosy.Basis):
        strings = tuple(snap(s, d) for s in x)
        # what index() says about each string
        places = []
        for s in x:
            try:
                places.append(x.index(s))
            except Exception as e:
                places.append(type(e).__name__)
        return ('basis', strings, tuple(places), len(x))
    if isinstance(x, qosy.Operator):
        pairs = [(snap(c, d), snap(s, d)) for (c, s) in x]
        return ('operator', str(x.op_type), tuple(pairs), snap(np.asarray(x.coeffs), d), len(x))
    if isinstance(x, qosy.Transformation):
        return ('transformation', snap(x.rule, d), snap(x.info, d))
    if isinstance(x, qosy.Lattice):
        return ('lattice', tuple(snap(o, d) for o in x), snap(x.num_cells, d), snap(x.periodic_boundaries, d), int(x.dim),
                snap(x.unit_cell, d))
    if isinstance(x, build.UserRule):
        return x.describe()
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind in 'US':
            return ('array', x.shape, 'O', tuple(snap(y, d) for y in x.ravel().tolist()))
        return ('array', x.shape, x.dtype.kind, x.copy())
    if ss.issparse(x):
        return ('sparse', x.shape, x.dtype.kind, x.toarray())
    if isinstance(x, (list, tuple)):
        return ('list' if isinstance(x, list) else 'tuple', tuple(snap(y, d) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted((snap(y, d) for y in x), key=repr)))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((snap(k, d), snap(v, d)) for (k, v) in x.items()), key=lambda kv: repr(kv[0]))))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return ('function', x.__name__)
    if isinstance(x, type):
        return ('type', x.__name__)
    if isinstance(x, BaseException):
        return ('exception', type(x).__name__)
    if hasattr(x, '__iter__') and not hasattr(x, '__dict__'):
        return ('iterator', tuple(snap(y, d) for y in x))
    if hasattr(x, '__dict__'):
        return ('object', type(x).__name__, tuple((k, snap(v, d)) for (k, v) in sorted(vars(x).items()) if not k.startswith('_')))
    return ('unknown', type(x).__name__)


def _label(l):
    try:
        return int(l)
    except Exception:
        return str(l)


def _num_close(a, b, tol):
    if a == b:
        return True
    (a, b) = (complex(a), complex(b))
    if math.isnan(a.real) or math.isnan(a.imag) or math.isnan(b.real) or math.isnan(b.imag):
        return (math.isnan(a.real) or math.isnan(a.imag)) and (math.isnan(b.real) or math.isnan(b.imag))
    if tol == 0:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def diff(a, b, tol=0.0, path=''):
    """None if the same value, else where and how they differ."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return '{}: {} / {}'.format(path, _short(a), _short(b))
        if a.size == 0:
            return None
        with np.errstate(all='ignore'):
            if tol == 0:
                same = (a == b) | ((a != a) & (b != b))
            else:
                scale = max(1.0, float(np.max(np.abs(np.nan_to_num(a)))))
                same = np.isclose(a, b, rtol=0, atol=tol * scale, equal_nan=True)
        if np.all(same):
            return None
        k = int(np.argmin(same.ravel()))
        return '{}[{}]: {} / {}'.format(path, k, a.ravel()[k], b.ravel()[k])
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and len(b) == 2 and a[0] == 'number' and b[0] == 'number':
            return None if _num_close(a[1], b[1], tol) else '{}: {} / {}'.format(path, a[1], b[1])
        if len(a) != len(b):
            return '{}: {} items / {} items'.format(path, len(a), len(b))
        for (i, (x, y)) in enumerate(zip(a, b)):
            r = diff(x, y, tol, path + '/' + (str(a[0]) if i and isinstance(a[0], str) else str(i)))
            if r is not None:
                return r
        return None
    if isinstance(a, (float, complex)) and isinstance(b, (int, float, complex)) and not isinstance(b, bool):
        return None if _num_close(a, b, tol) else '{}: {} / {}'.format(path, a, b)
    if type(a) is type(b) and a == b:
        return None
    return '{}: {} / {}'.format(path, _short(a), _short(b))


def _short(x):
    return repr(x)[:80]


def text(s):
    """Stable text of a snapshot (for digests)."""
    if isinstance(s, np.ndarray):
        if s.dtype.kind in 'fc':
            return repr((np.round(np.nan_to_num(s), 6) + 0.0).tolist())
        return repr(s.tolist())
    if isinstance(s, tuple):
        return '(' + ','.join(text(x) for x in s) + ')'
    if isinstance(s, (float, complex)):
        return repr(round(complex(s).real, 6) + 0.0) + ',' + repr(round(complex(s).imag, 6) + 0.0) if s == s else 'nan'
    return repr(s)
