"""Seams around the nondeterminism the library meets.

* Eigensolvers (numpy.linalg.eigh/eig, scipy.linalg.eigh/schur/lu,
  scipy.sparse.linalg.eigsh/eigs).  LAPACK and ARPACK only promise *some*
  eigenvectors: rotations inside degenerate groups, signs, round-off and (for
  the iterative solvers) the order, which vectors of a degenerate group at the
  edge of the requested number, and the random start vector are theirs to
  choose.  ``SolverSim`` makes those choices from a seed, and injects failures.
* numpy's global random stream.
* standard output.

The patches only act on calls made by qosy's own source files.
"""
import hashlib
import io
import sys
import warnings

import numpy as np
import numpy.linalg as nla
import scipy.linalg as sla
import scipy.sparse as ss
import scipy.sparse.linalg as ssla

from . import env, lines
from .rng import derive

real = {}          # the unpatched functions
active = None      # the SolverSim in charge, or None
EPS = np.finfo(float).eps


class InjectedFailure(Exception):
    """Base class of failures of user-supplied callbacks."""


class SolverSim:
    """Decides what every eigensolver call returns.

    mode: 'real'  - the real solver, with seeded start vectors
          'legal' - a seeded choice among the answers the solver may return
          'canon' - a canonical answer that depends only on the matrix
    faults: {call index: fault kind}
    """

    def __init__(self, mode='real', seed=0, faults=None, noise=1e-15):
        self.mode = mode
        self.seed = seed
        self.faults = {int(k): v for (k, v) in (faults or {}).items()}
        self.noise = noise
        self.calls = 0
        self.fired = []
        self.log = []
        self.repeat_limit = None   # of one and the same problem
        self.repeats = {}
        self.group = 20.0     # degenerate: closer than group * n * eps * norm

    def restart(self, seed=None, faults=None):
        if seed is not None:
            self.seed = seed
        self.faults = {int(k): v for (k, v) in (faults or {}).items()}
        self.calls = 0

    def rng(self):
        return np.random.Generator(np.random.PCG64(derive('solver', self.seed, self.calls)))

    def fault(self, iterative):
        kind = self.faults.get(self.calls)
        return kind


class scope:
    """Context manager that puts a SolverSim in charge."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global active
        self.prev = active
        active = self.sim
        return self.sim

    def __exit__(self, *exc):
        global active
        active = self.prev
        return False


def _from_qosy(depth=2):
    frame = sys._getframe(depth)
    name = frame.f_code.co_filename
    return name.startswith(env.REPO)


# -- choices ---------------------------------------------------------------

def _haar(rng, n, cplx):
    if cplx:
        m = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
    else:
        m = rng.standard_normal((n, n))
    (q, r) = real['qr'](m)
    d = np.diag(r)
    return q * (d / np.abs(d))


def _groups(vals, tol):
    """Groups of consecutive (sorted) values closer than tol."""
    groups = []
    for i in range(len(vals)):
        if i > 0 and abs(vals[i] - vals[i - 1]) <= tol:
            groups[-1].append(i)
        else:
            groups.append([i])
    return groups


def _canonical_gauge(vecs):
    """A basis of the column span that depends only on the span."""
    n = vecs.shape[0]
    k = vecs.shape[1]
    proj = vecs @ np.conj(vecs.T)
    out = np.zeros((n, k), dtype=vecs.dtype)
    used = 0
    # Greedy pivoting with ties (to 1e-6) broken by position.
    rest = proj.copy()
    while used < k:
        norms = np.real(np.diag(rest)).copy()
        best = np.max(norms)
        pivot = int(np.where(norms > best - 1e-6)[0][0])
        col = rest[:, pivot]
        col = col - out[:, :used] @ (np.conj(out[:, :used].T) @ col)
        col = col / np.sqrt(np.real(np.vdot(col, col)))
        out[:, used] = col
        used += 1
        rest = rest - np.outer(col, np.conj(col)) @ rest
    return out


def _dense(a):
    if ss.issparse(a):
        return a.toarray()
    return np.asarray(a)


def _hermitian_eig(a, sim):
    """Eigenpairs in ascending order with the gauge chosen by sim."""
    (vals, vecs) = real['np_eigh'](a)
    n = len(vals)
    if n == 0:
        return (vals, vecs)
    scale = max(float(np.max(np.abs(vals))), 1e-300)
    if sim.mode == 'canon':
        vecs = vecs.copy()
        vals = vals.copy()
        for g in _groups(vals, 1e-9 * max(scale, 1e-3)):
            vecs[:, g] = _canonical_gauge(vecs[:, g])
        return (vals, vecs)
    rng = sim.rng()
    vecs = vecs.copy()
    # Sometimes phases of exactly 1, i, -1, -i only.
    quarter = np.iscomplexobj(vecs) and rng.random() < 0.2
    for g in _groups(vals, sim.group * n * EPS * scale):
        if quarter:
            vecs[:, g] = vecs[:, rng.permutation(g)] * (1j ** rng.integers(0, 4, len(g)))[None, :]
            continue
        if len(g) > 1:
            vecs[:, g] = vecs[:, g] @ _haar(rng, len(g), np.iscomplexobj(vecs))
        elif np.iscomplexobj(vecs):
            vecs[:, g] = vecs[:, g] * np.exp(2j * np.pi * rng.random())
        elif rng.random() < 0.5:
            vecs[:, g] = -vecs[:, g]
    if sim.noise:
        vecs = vecs + sim.noise * rng.standard_normal(vecs.shape)
        vals = np.sort(vals + sim.noise * scale * rng.standard_normal(vals.shape))
    return (vals, vecs)


def _raise(kind, partial=None):
    if kind == 'linalg':
        raise np.linalg.LinAlgError('Eigenvalues did not converge (injected)')
    if kind == 'noconv':
        if partial is None:
            raise np.linalg.LinAlgError('Eigenvalues did not converge (injected)')
        (vals, vecs) = partial
        raise ssla.ArpackNoConvergence('ARPACK error -1: No convergence (injected)', vals, vecs)
    if kind == 'memory':
        raise MemoryError('injected: cannot allocate workspace')
    if kind == 'singular':
        raise RuntimeError('Factor is exactly singular (injected)')
    if kind == 'interrupt':
        raise KeyboardInterrupt('injected')
    raise env.HarnessError('unknown fault ' + str(kind))


FAULTS = ('linalg', 'noconv', 'memory', 'singular', 'interrupt')


def _begin(sim, name, matrix=None, **info):
    """Common bookkeeping; returns the fault to inject, if any."""
    if sim.repeat_limit is not None:
        a = matrix.tocsr() if ss.issparse(matrix) else np.asarray(matrix)
        parts = (a.indptr.tobytes(), a.indices.tobytes(), a.data.tobytes()) if ss.issparse(a) else (a.tobytes(),)
        key = (name, info.get('k'), derive(name, *[hashlib.sha256(p).hexdigest() for p in parts]))
        sim.repeats[key] = sim.repeats.get(key, 0) + 1
        if sim.repeats[key] > sim.repeat_limit:
            raise lines.StepBudgetExceeded('the same eigenvalue problem is solved again and again ({} times)'.format(sim.repeats[key]))
    kind = sim.fault(name in ('eigsh', 'eigs'))
    index = sim.calls
    sim.log.append((name, tuple(sorted((k, str(v)) for (k, v) in info.items()))))
    if kind is not None:
        sim.fired.append((index, kind))
    return kind


def _np_eigh(a, UPLO='L'):
    sim = active
    if sim is None or not _from_qosy():
        return real['np_eigh'](a, UPLO)
    a = _dense(a)
    kind = _begin(sim, 'eigh', matrix=a, n=a.shape[0])
    try:
        if kind is not None:
            _raise(kind)
        if sim.mode == 'real':
            return real['np_eigh'](a, UPLO)
        # numpy reads one triangle only
        full = _fill(a, UPLO == 'L')
        result = _hermitian_eig(full, sim)
        return type(real['np_eigh'](np.eye(1)))(*result)
    finally:
        sim.calls += 1


def _fill(a, lower):
    if lower:
        t = np.tril(a, -1)
    else:
        t = np.triu(a, 1)
    return t + np.conj(t.T) + np.diag(np.real(np.diag(a)))


def _sp_eigh(a, b=None, **kw):
    sim = active
    if sim is None or not _from_qosy() or b is not None or set(kw) - {'lower', 'check_finite', 'eigvals_only', 'driver', 'overwrite_a'}:
        return real['sp_eigh'](a, b, **kw)
    a = _dense(a)
    kind = _begin(sim, 'eigh', matrix=a, n=a.shape[0])
    try:
        if kind is not None:
            _raise(kind)
        if sim.mode == 'real':
            return real['sp_eigh'](a, **kw)
        (vals, vecs) = _hermitian_eig(_fill(a, kw.get('lower', True)), sim)
        return vals if kw.get('eigvals_only') else (vals, vecs)
    finally:
        sim.calls += 1


def _select(vals, k, which, sigma, rng):
    """Positions of the k wanted eigenvalues (ascending vals)."""
    if sigma is not None:
        with np.errstate(divide='ignore'):
            key = 1.0 / (vals - sigma)
    else:
        key = vals
    if which in ('LM', None):
        score = -np.abs(key)
    elif which == 'SM':
        score = np.abs(key)
    elif which in ('LA', 'LR'):
        score = -np.real(key)
    elif which in ('SA', 'SR'):
        score = np.real(key)
    elif which in ('LI', 'SI', 'BE'):
        return None
    else:
        raise ValueError("which must be one of 'LM', 'SM', 'LA', 'SA', 'BE'")
    return score


def _eigsh(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0,
           return_eigenvectors=True, Minv=None, OPinv=None, mode='normal', rng=None):
    sim = active
    kwargs = dict(k=k, M=M, sigma=sigma, which=which, v0=v0, ncv=ncv, maxiter=maxiter, tol=tol,
                  return_eigenvectors=return_eigenvectors, Minv=Minv, OPinv=OPinv, mode=mode)
    if sim is None or not _from_qosy() or isinstance(A, ssla.LinearOperator):
        return real['eigsh'](A, **kwargs)
    n = A.shape[0]
    kind = _begin(sim, 'eigsh', matrix=A, n=n, k=k, which=which, sigma=sigma)
    try:
        if kind is not None and kind != 'noconv':
            _raise(kind)
        if sim.mode == 'real' or M is not None or Minv is not None or OPinv is not None or mode != 'normal':
            if v0 is None:
                gen = sim.rng()
                v0 = gen.standard_normal(n)
                if np.iscomplexobj(A) or np.dtype(A.dtype).kind == 'c':
                    v0 = v0 + 1j * gen.standard_normal(n)
                kwargs['v0'] = v0
            if kind is None:
                return real['eigsh'](A, **kwargs)
        a = _dense(A)
        cplx = np.iscomplexobj(a)
        # The errors the real function raises for such arguments.
        if A.shape[0] != A.shape[1]:
            raise ValueError('expected square matrix (shape={})'.format(A.shape))
        if k <= 0:
            raise ValueError('k must be greater than 0.')
        limit = n - 1 if cplx else n
        if k >= limit:
            raise TypeError('Cannot use scipy.linalg.eigh for sparse A with k >= N. Use scipy.linalg.eigh(A.toarray()) or reduce k.')
        if ncv is not None and min(ncv, n) <= (k + 1 if cplx else k):
            raise ValueError('ncv must be k<ncv<=n, ncv={}'.format(ncv))
        (vals, vecs) = _hermitian_eig(_fill(a, True) if np.allclose(a, np.conj(a.T)) else a, sim)
        scale = max(float(np.max(np.abs(vals))), 1e-300)
        if sigma is not None and np.min(np.abs(vals - sigma)) < 1e-14 * max(1.0, min(scale, 1e3)):
            raise RuntimeError('Factor is exactly singular')
        gen = sim.rng()
        score = _select(vals, k, which, sigma, gen)
        if score is None:
            return real['eigsh'](A, **kwargs)
        if sim.mode == 'canon':
            order = np.lexsort((np.arange(n), np.round(score, 9)))[:k]
            order = np.array(sorted(order, key=lambda i: vals[i]), dtype=int)
        else:
            # Ties (degenerate groups) at the edge: the vectors inside a group
            # are already a random basis of it, so any subset will do.
            order = np.argsort(score, kind='stable')[:k]
            order = gen.permutation(order)
        vals = vals[order]
        vecs = vecs[:, order]
        if kind == 'noconv':
            m = len(order) // 2
            _raise('noconv', (vals[:m], vecs[:, :m]))
        return (vals, vecs) if return_eigenvectors else vals
    finally:
        sim.calls += 1


def _general(a, sim):
    (vals, vecs) = real['np_eig'](a)
    n = len(vals)
    if sim.mode == 'canon' or n == 0:
        return (vals, vecs)
    rng = sim.rng()
    order = rng.permutation(n)
    vals = vals[order].astype(complex)
    vecs = vecs[:, order].astype(complex)
    vecs = vecs * np.exp(2j * np.pi * rng.random(n))[None, :]
    return (vals, vecs)


def _np_eig(a):
    sim = active
    if sim is None or not _from_qosy():
        return real['np_eig'](a)
    a = _dense(a)
    kind = _begin(sim, 'eig', matrix=a, n=a.shape[0])
    try:
        if kind is not None:
            _raise(kind)
        if sim.mode == 'real':
            return real['np_eig'](a)
        return type(real['np_eig'](np.eye(1)))(*_general(a, sim))
    finally:
        sim.calls += 1


def _eigs(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0,
          return_eigenvectors=True, Minv=None, OPinv=None, OPpart=None, rng=None):
    sim = active
    kwargs = dict(k=k, M=M, sigma=sigma, which=which, v0=v0, ncv=ncv, maxiter=maxiter, tol=tol,
                  return_eigenvectors=return_eigenvectors, Minv=Minv, OPinv=OPinv, OPpart=OPpart)
    if sim is None or not _from_qosy() or isinstance(A, ssla.LinearOperator):
        return real['eigs'](A, **kwargs)
    n = A.shape[0]
    kind = _begin(sim, 'eigs', matrix=A, n=n, k=k, which=which, sigma=sigma)
    try:
        if kind is not None and kind != 'noconv':
            _raise(kind)
        if sim.mode == 'real' or M is not None or sigma is not None or Minv is not None or OPinv is not None:
            if v0 is None:
                gen = sim.rng()
                kwargs['v0'] = gen.standard_normal(n) + (1j * gen.standard_normal(n) if np.dtype(A.dtype).kind == 'c' else 0)
            if kind is None:
                return real['eigs'](A, **kwargs)
        if k <= 0:
            raise ValueError('k must be greater than 0.')
        if k >= n - 1:
            raise TypeError('Cannot use scipy.linalg.eig for sparse A with k >= N - 1. Use scipy.linalg.eig(A.toarray()) or reduce k.')
        (vals, vecs) = _general(_dense(A), sim)
        score = {'LM': -np.abs(vals), 'SM': np.abs(vals), 'LR': -np.real(vals), 'SR': np.real(vals),
                 'LI': -np.abs(np.imag(vals)), 'SI': np.abs(np.imag(vals))}[which]
        order = np.argsort(np.round(score, 9), kind='stable')[:k]
        if sim.mode != 'canon':
            order = sim.rng().permutation(order)
        (vals, vecs) = (vals[order], vecs[:, order])
        if kind == 'noconv':
            m = len(order) // 2
            _raise('noconv', (vals[:m], vecs[:, :m]))
        return (vals, vecs) if return_eigenvectors else vals
    finally:
        sim.calls += 1


def _schur(a, output='real', lwork=None, overwrite_a=False, sort=None, check_finite=True):
    sim = active
    if sim is None or not _from_qosy() or sort is not None:
        return real['schur'](a, output, lwork, overwrite_a, sort, check_finite)
    a = _dense(a)
    kind = _begin(sim, 'schur', matrix=a, n=a.shape[0])
    try:
        if kind is not None:
            _raise(kind)
        if sim.mode != 'legal' or output != 'real' or np.iscomplexobj(a) or not np.allclose(a, -a.T):
            return real['schur'](a, output, lwork, overwrite_a, sort, check_finite)
        return _antisymmetric_schur(a, sim.rng())
    finally:
        sim.calls += 1


def _antisymmetric_schur(a, rng):
    """A seeded choice among the real Schur forms of an antisymmetric matrix.

    The diagonal blocks (2x2 blocks [[0, t], [-t, 0]] and 1x1 zero blocks) may
    appear in any order, with any orientation, and with any rotation of the
    vectors inside degenerate groups.
    """
    n = a.shape[0]
    (vals, vecs) = real['np_eigh'](1j * a)   # i a is Hermitian, eigenvalues +-t
    scale = max(1.0, float(np.max(np.abs(vals))) if n else 1.0)
    tol = 20 * n * EPS * scale
    blocks = []
    pos = [i for i in range(n) if vals[i] > tol]
    for g in _groups(vals[pos], tol):
        idx = [pos[i] for i in g]
        v = vecs[:, idx] @ _haar(rng, len(idx), True)
        for j in range(len(idx)):
            # eigenvector v = (x + i y)/sqrt2 of i a with eigenvalue t:
            # i a (x + i y) = t (x + i y)  =>  a y = -t x, a x = t y
            x = np.sqrt(2) * np.real(v[:, j])
            y = np.sqrt(2) * np.imag(v[:, j])
            cols = [x, y] if rng.random() < 0.5 else [y, x]
            blocks.append(cols)
    zero = [i for i in range(n) if abs(vals[i]) <= tol]
    if zero:
        # a real basis of the null space
        p = np.real(vecs[:, zero] @ np.conj(vecs[:, zero].T))
        (w, u) = real['np_eigh'](p)
        u = u[:, n - len(zero):] @ _haar(rng, len(zero), False)
        for j in range(len(zero)):
            blocks.append([u[:, j]])
    order = rng.permutation(len(blocks))
    z = np.zeros((n, n))
    pos = 0
    for b in order:
        for col in blocks[b]:
            z[:, pos] = col
            pos += 1
    t = z.T @ a @ z
    mask = np.zeros((n, n), dtype=bool)
    pos = 0
    for b in order:
        m = len(blocks[b])
        mask[pos:pos + m, pos:pos + m] = True
        pos += m
    mask |= np.triu(np.ones((n, n), dtype=bool), 1)   # round-off above the blocks stays
    t = np.where(mask, t, 0.0)
    return (t, z)


def _lu(a, permute_l=False, overwrite_a=False, check_finite=True, p_indices=False):
    """Partial pivoting promises a largest pivot; which one, when several are
    equally large, is the routine's to choose."""
    sim = active
    if sim is None or not _from_qosy() or ss.issparse(a):
        return real['lu'](a, permute_l, overwrite_a, check_finite, p_indices)
    kind = _begin(sim, 'lu', matrix=np.asarray(a), n=np.asarray(a).shape[0] if np.ndim(a) else 0)
    try:
        if kind is not None:
            _raise('interrupt' if kind == 'interrupt' else 'memory')
        if sim.mode != 'legal' or np.ndim(a) != 2 or not permute_l:
            return real['lu'](a, permute_l, overwrite_a, check_finite, p_indices)
        a = np.asarray(a)
        order = sim.rng().permutation(a.shape[0])
        (pl, u) = real['lu'](a[order], True, False, check_finite)
        out = np.zeros_like(pl)
        out[order] = pl
        return (out, u)
    finally:
        sim.calls += 1


_patched = False


def patch_solvers():
    global _patched
    if _patched:
        return
    _patched = True
    real['np_eigh'] = nla.eigh
    real['np_eig'] = nla.eig
    real['sp_eigh'] = sla.eigh
    real['eigsh'] = ssla.eigsh
    real['eigs'] = ssla.eigs
    real['schur'] = sla.schur
    real['lu'] = sla.lu
    real['qr'] = nla.qr
    real['default_rng'] = np.random.default_rng
    nla.eigh = _np_eigh
    nla.eig = _np_eig
    sla.eigh = _sp_eigh
    ssla.eigsh = _eigsh
    ssla.eigs = _eigs
    sla.schur = _schur
    sla.lu = _lu
    np.random.default_rng = _default_rng


_rng_seed = [0, 0]


def _default_rng(seed=None):
    if seed is None:
        _rng_seed[1] += 1
        seed = derive('default_rng', *_rng_seed)
    return real['default_rng'](seed)


def seed_randomness(seed):
    """Numpy's and Python's global random streams."""
    import random
    _rng_seed[0] = seed
    _rng_seed[1] = 0
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)


# -- standard output -------------------------------------------------------

class SimulatedOutput(io.TextIOBase):
    """Collects what is written; fails at the n-th write if asked to.

    kind: 'eio' (OSError EIO), 'enospc', 'epipe' (BrokenPipeError), 'closed'
    (ValueError), 'short' (accepts a part, then ENOSPC); sticky faults keep
    failing afterwards.
    """

    def __init__(self, fail_at=None, kind='eio', sticky=True):
        super().__init__()
        self.parts = []
        self.writes = 0
        self.fail_at = fail_at
        self.kind = kind
        self.sticky = sticky
        self.failures = 0
        self.before = None        # the text accepted up to the first failure

    def writable(self):
        return True

    def write(self, text):
        index = self.writes
        self.writes += 1
        if self.fail_at is not None and (index == self.fail_at or (self.sticky and index > self.fail_at)):
            self.failures += 1
            if self.kind == 'short' and index == self.fail_at:
                self.parts.append(text[:len(text) // 2])
            if self.before is None:
                self.before = ''.join(self.parts)
            if self.kind == 'epipe':
                raise BrokenPipeError(32, 'Broken pipe (injected)')
            if self.kind == 'closed':
                raise ValueError('I/O operation on closed file (injected)')
            if self.kind in ('enospc', 'short'):
                raise OSError(28, 'No space left on device (injected)')
            raise OSError(5, 'Input/output error (injected)')
        self.parts.append(text)
        return len(text)

    def flush(self):
        if self.fail_at is not None and self.sticky and self.writes > self.fail_at:
            raise OSError(28, 'No space left on device (injected)')

    @property
    def text(self):
        return ''.join(self.parts)


class redirected:
    def __init__(self, out, err=None):
        self.out = out
        self.err = err

    def __enter__(self):
        self.saved = (sys.stdout, sys.stderr)
        sys.stdout = self.out
        if self.err is not None:
            sys.stderr = self.err
        return self.out

    def __exit__(self, *exc):
        (sys.stdout, sys.stderr) = self.saved
        return False
