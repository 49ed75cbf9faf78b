"""Line-level seam: every executed source line of qosy is a simulation step.

Built on sys.monitoring (Python 3.12).  The callback counts steps (the
simulated clock), enforces a budget, raises at a chosen step (interrupt or
allocation failure at an arbitrary instant) or hands control to the thread
scheduler.
"""
import gc
import sys
import types

from . import env

mon = sys.monitoring
TOOL = 4


class StepBudgetExceeded(BaseException):
    """The call executed more lines than the bound allows."""


class State:
    count = 0
    budget = None
    target = None
    exc = None
    fired = None
    hook = None
    seen = None
    func = None       # only count lines of this function for the target


state = State()
_codes = []


def _walk(code, out):
    if code in out:
        return
    out.add(code)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _walk(const, out)


def collect():
    out = set()
    prefix = env.REPO
    for obj in gc.get_objects():
        code = None
        if isinstance(obj, types.FunctionType):
            code = obj.__code__
        elif isinstance(obj, types.CodeType):
            code = obj
        if code is not None and code.co_filename.startswith(prefix):
            _walk(code, out)
    return sorted(out, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


TABLE = {}       # (function, line) -> position, the same in every process


def unpack(text):
    """Places of a coverage mask."""
    mask = int(text, 16)
    return sorted(k for (k, i) in TABLE.items() if mask >> i & 1)


def install():
    global _codes
    mon.use_tool_id(TOOL, 'qsim')
    _codes = collect()
    for code in _codes:
        if code.co_name == '<module>':
            continue
        mon.set_local_events(TOOL, code, mon.events.LINE)
    for code in _codes:
        if code.co_name != '<module>':
            for (_, _, line) in code.co_lines():
                if line is not None and line != code.co_firstlineno:
                    TABLE.setdefault((code.co_qualname, line), len(TABLE))
    mon.register_callback(TOOL, mon.events.LINE, None)


def _on_line(code, line):
    s = state
    s.count += 1
    if s.seen is not None:
        s.seen.add((code.co_qualname, line))
    if s.target is not None and s.count == s.target:
        s.fired = (code.co_qualname, line)
        s.target = None
        raise s.exc
    if s.budget is not None and s.count > s.budget:
        s.budget = None
        raise StepBudgetExceeded('more than the allowed number of steps in {} line {}'.format(code.co_qualname, line))
    if s.hook is not None:
        s.hook(code, line)


class steps:
    """Context manager: count the lines executed by qosy.

    budget: raise StepBudgetExceeded beyond this many lines.
    at/exc: raise exc when line number `at` (1-based) is about to run.
    """

    def __init__(self, budget=None, at=None, exc=None, hook=None, seen=None):
        (self.budget, self.at, self.exc, self.hook, self.seen) = (budget, at, exc, hook, seen)

    def __enter__(self):
        s = state
        s.count = 0
        s.budget = self.budget
        s.target = self.at
        s.exc = self.exc
        s.fired = None
        s.hook = self.hook
        s.seen = self.seen
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        return self

    def __exit__(self, *exc):
        mon.register_callback(TOOL, mon.events.LINE, None)
        self.count = state.count
        self.fired = state.fired
        state.hook = None
        state.target = None
        state.budget = None
        state.seen = None
        return False


def listen(grain, fn):
    """Call fn(code, place) at every line or instruction until told otherwise."""
    if grain is None:
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        return
    if grain == 'instruction':
        for code in _codes:
            if code.co_name != '<module>':
                mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, fn)
    else:
        mon.register_callback(TOOL, mon.events.LINE, fn)
