"""Interpreter processes with chosen hash seeds, ready to be forked.

A zygote has imported the library under its own PYTHONHASHSEED.  Each request
is served by a fresh fork of it: to the simulated program that is a process
that has just been started.  Only what the request carries reaches it.
"""
import ctypes
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from . import env

SEEDS = ['1', '2', '31337', '4294967295']
_started = []


def start(seeds=SEEDS):
    """Start the zygotes (called once, before the runs fork off)."""
    if _started:
        return
    check = os.path.join(env.VERIF, 'check')
    for (i, s) in enumerate(seeds):
        name = 'qsim-{}-{}-{}'.format(os.getpid(), i, time.monotonic_ns())
        e = env.pinned_environment(s)
        e['QSIM_PINNED'] = '1'
        e['VERIF_REPO'] = env.REPO
        p = subprocess.Popen([sys.executable, check, 'zygote', name], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _started.append({'name': name, 'seed': s, 'process': p})
    for z in _started:
        line = z['process'].stdout.readline()
        if line.strip() != b'ready':
            raise env.HarnessError('a zygote did not start: {!r}'.format(line))


def _read(sock, n):
    data = b''
    while len(data) < n:
        part = sock.recv(min(1 << 20, n - len(data)))
        if not part:
            raise EOFError
        data += part
    return data


def _recv(sock):
    (n,) = struct.unpack('>Q', _read(sock, 8))
    return _read(sock, n)


def _send(sock, data):
    sock.sendall(struct.pack('>Q', len(data)) + data)


def request(index, fn, *args, wall=60.0):
    """Run the named function (module:function) in a fork of zygote `index`."""
    z = _started[index % len(_started)]
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.settimeout(wall)
    try:
        for attempt in range(50):
            try:
                s.connect('\0' + z['name'])
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.05)
        _send(s, pickle.dumps((fn, args)))
        return pickle.loads(_recv(s))
    except (OSError, EOFError) as e:
        raise env.HarnessError('zygote {}: {!r}'.format(index, e))
    finally:
        s.close()


def serve(name):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # die with the parent
    env.load_repo()
    import importlib
    from . import runner
    importlib.import_module('qsim.props.c10')
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    server.bind('\0' + name)
    server.listen(256)
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    while True:
        (conn, _) = server.accept()
        pid = os.fork()
        if pid:
            conn.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            server.close()
            runner._limits()
            conn.settimeout(60.0)
            (fn, args) = pickle.loads(_recv(conn))
            (mod, attr) = fn.split(':')
            try:
                out = ('ok', getattr(importlib.import_module(mod), attr)(*args))
            except BaseException:
                out = ('error', traceback.format_exc()[-2500:])
            _send(conn, pickle.dumps(out))
        except BaseException:
            pass
        finally:
            os._exit(0)
