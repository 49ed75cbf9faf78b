"""Process bootstrap: pins everything ambient, then imports the repository.

Nothing but this module decides where the code under test comes from. It is
always imported from source (never from a cached .pyc) from the working tree
of the repository.
"""
import os
import sys

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'

PINNED = {
    'PYTHONHASHSEED': '0',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONWARNINGS': 'ignore',
    'TZ': 'UTC',
    'LC_ALL': 'C',
}


class HarnessError(Exception):
    """Something is wrong with the machinery (never a violation)."""


def pinned_environment(hashseed='0'):
    env = dict(os.environ)
    for key in list(env):
        if key.startswith('PYTHON'):
            del env[key]
    env.update(PINNED)
    env['PYTHONHASHSEED'] = str(hashseed)
    return env


def reexec_if_needed(argv):
    """Run under the right interpreter with the pinned environment."""
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    good = all(os.environ.get(k) == v for (k, v) in PINNED.items() if k != 'PYTHONHASHSEED')
    good = good and os.environ.get('PYTHONHASHSEED') is not None and os.environ.get('QSIM_PINNED') == '1'
    if good:
        return
    env = pinned_environment()
    env['QSIM_PINNED'] = '1'
    os.execve(python, [python] + argv, env)


_loaded = False


def load_repo():
    """Import qosy from the working tree, with the solver seams in place."""
    global _loaded
    if _loaded:
        return sys.modules['qosy']
    import warnings
    warnings.simplefilter('ignore')
    # Third-party code first, from its normal caches.
    import numpy, scipy, scipy.linalg, scipy.sparse, scipy.sparse.linalg  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    from . import seams, threads
    seams.patch_solvers()
    threads.patch_locks()
    # Then the repository, always compiled from its current source.
    sys.pycache_prefix = '/nonexistent-qsim-cache'
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import qosy
    import qosy.core, qosy.algorithms, qosy.algebra, qosy.basis, qosy.tools  # noqa
    where = os.path.abspath(qosy.__file__)
    if not where.startswith(REPO + os.sep):
        raise HarnessError('qosy imported from {} and not from {}'.format(where, REPO))
    from . import addr, lines
    lines.install()
    addr.install()
    _loaded = True
    return qosy
