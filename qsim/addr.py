"""Simulated memory addresses: what id() answers to the library's own code.

An object keeps its address while it lives; the address of an object that died
may be handed to a later object of the same type, as a real allocator does,
here by a seeded choice. Objects that cannot be watched for their death (str,
list, tuple, ...) are kept alive, so their addresses are never handed on.
"""
import gc
import sys
import weakref

from .rng import rng as make_rng

_real_id = id


class Addresses:
    def __init__(self, seed=0):
        self.rng = make_rng('addresses', seed)
        self.known = {}
        self.free = {}
        self.next = 0
        self.used = False
        self.reused = 0

    def of(self, x):
        self.used = True
        key = _real_id(x)
        e = self.known.get(key)
        if e is not None and e[0]() is x:
            return e[1]
        spare = self.free.get(type(x))
        if spare and self.rng.chance(0.9):
            addr = spare.pop(self.rng.randrange(len(spare)))
            self.reused += 1
        else:
            self.next += 1
            addr = 0x7f0000000000 + 64 * self.next

        def died(_, typ=type(x), key=key, addr=addr):
            if self.known.get(key, (None, None))[1] == addr:
                del self.known[key]
            self.free.setdefault(typ, []).append(addr)
        try:
            ref = weakref.ref(x, died)
        except TypeError:
            ref = lambda x=x: x     # noqa: E731
        self.known[key] = (ref, addr)
        return addr


current = Addresses()


def simulated_id(obj, /):
    return current.of(obj)


simulated_id.__name__ = 'id'


def install():
    """id, as the library's modules see it, is the simulated one."""
    for (name, m) in list(sys.modules.items()):
        if m is not None and (name == 'qosy' or name.startswith('qosy.')):
            vars(m).setdefault('id', simulated_id)


def reset(seed=0):
    global current
    current = Addresses(seed)


def collect():
    """Unreachable objects are gone now (if anybody could notice)."""
    if current.used:
        gc.collect()
