from ._core import NTT


class NTTIterative(NTT):
    pass
