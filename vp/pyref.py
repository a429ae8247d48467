"""Import of the project's Python code (/repo/pythonref) with the polyntt stand-in."""
import importlib
import os
import sys
from .core import REPO, VERIF

ROOT = os.path.join(REPO, 'pythonref')


def setup():
    for p in (os.path.join(VERIF, 'vp', 'pystub'), ROOT):
        if p not in sys.path:
            sys.path.insert(0, p)


class SystemRandom:
    """what the project's modules bind as os.urandom: the system's source unless a case supplies a stream"""
    stream = None
    real = os.urandom
    used = 0

    def __call__(self, n):
        self.used += n
        return SystemRandom.real(n) if self.stream is None else self.stream(n)


urandom = SystemRandom()


class system_random:
    """the bytes of the system source come from a stream of the case"""

    def __init__(self, stream):
        self.s = stream

    def __enter__(self):
        self.old, urandom.stream, urandom.used = urandom.stream, self.s, 0
        return urandom

    def __exit__(self, *a):
        urandom.stream = self.old


def mod(name):
    setup()
    if name in sys.modules:
        m = sys.modules[name]
    else:
        os.urandom = urandom
        try:
            m = importlib.import_module(name)
        finally:
            os.urandom = SystemRandom.real
    f = getattr(m, '__file__', '') or ''
    assert name.startswith('polyntt') or os.path.realpath(f).startswith(os.path.realpath(ROOT)), 'wrong module %s: %s' % (name, f)
    return m
