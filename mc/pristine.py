"""Runs functions in processes in which no code under test has run yet.

start() forks an idle zygote before a worker runs anything; call() lets it fork
one child per request, so that process-wide state (caches, class attributes,
mutable defaults) left by earlier executions cannot be seen.
"""
import importlib
import os
import pickle
import struct
import sys
import traceback

from .core import Violation

_sock = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


def _recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    return pickle.loads(_read(fd, struct.unpack("<Q", h)[0]))


def start():
    """Fork the zygote; to be called before any code under test runs."""
    global _sock
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            while True:
                req = _recv(r1)
                if req is None:
                    break
                pid = os.fork()
                if pid == 0:
                    try:
                        mod, fn, args = req
                        try:
                            res = ("ok", getattr(importlib.import_module(mod), fn)(*args))
                        except Violation as v:
                            res = ("violation", v.msg)
                        except BaseException as e:
                            res = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                        _send(w2, res)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _sock = (r2, w1)


def call(fn, *args):
    """Result of the module-level function fn(*args) in a fresh process."""
    if _sock is None:
        start()
    _send(_sock[1], (fn.__module__, fn.__name__, args))
    res = _recv(_sock[0])
    if res is None:
        raise RuntimeError("the zygote died")
    if res[0] == "violation":
        raise Violation(res[1])
    if res[0] == "error":
        raise Violation("in a fresh process: " + res[1])
    return res[1]
