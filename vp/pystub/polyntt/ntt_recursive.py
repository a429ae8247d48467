from ._core import NTT


class NTTRecursive(NTT):
    pass
