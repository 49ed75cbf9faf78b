"""Reference executions: a function run alone in a pristine forked process."""
import os
import pickle
import select
import signal
import time
import traceback

from . import ctx as ctxmod
from . import env


class Reference(env.HarnessError):
    pass


def alone(fn, wall=60.0):
    """Run fn(ctx) in a forked child of this (so far untouched) process.

    Returns (value, stats).  Violations and skips raised inside propagate.
    """
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            c = ctxmod.Ctx()
            try:
                msg = ('ok', fn(c))
            except (ctxmod.Violation,) as v:
                msg = ('violation', (v.kind, v.detail))
            except ctxmod.Skip as s:
                msg = ('skip', str(s))
            except ctxmod.Invalid as s:
                msg = ('invalid', str(s))
            except BaseException:
                msg = ('error', traceback.format_exc()[-2500:])
            msg = msg + ({'steps': c.steps, 'calls': c.calls, 'solver_calls': c.solver_calls, 'functions': c.functions, 'lines': c.lines},)
            data = pickle.dumps(msg)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    late = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            late = True
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if late:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if late:
        raise Reference('the reference run exceeded {} s of real time'.format(wall))
    try:
        (kind, value, stats) = pickle.loads(b''.join(chunks))
    except Exception:
        raise Reference('the reference run died without a result')
    if kind == 'ok':
        return (value, stats)
    if kind == 'violation':
        raise ctxmod.Violation(*value)
    if kind == 'skip':
        raise ctxmod.Skip(value)
    if kind == 'invalid':
        raise ctxmod.Invalid(value)
    raise Reference(value)


def merge(ctx, stats):
    ctx.steps += stats['steps']
    ctx.calls += stats['calls']
    ctx.solver_calls += stats['solver_calls']
    ctx.functions.update(stats['functions'])
    ctx.lines |= stats['lines']
