import numpy as np

_tab = {}


def _bitrev(i, l):
    r = 0
    for _ in range(l):
        r = (r << 1) | (i & 1)
        i >>= 1
    return r


def tables(q, n):
    if (q, n) not in _tab:
        if q != 12289:
            raise ValueError('unsupported modulus')
        l = n.bit_length() - 1
        if n != 1 << l or not 1 <= l <= 10:
            raise ValueError('unsupported degree')
        g = pow(7, 2048 // (2 * n), q)
        t = [pow(g, _bitrev(i, l), q) for i in range(n)]
        _tab[(q, n)] = (np.array(t, dtype=np.int64), np.array([pow(x, -1, q) for x in t], dtype=np.int64))
    return _tab[(q, n)]


def red(v, q):
    return np.array([int(x) % q for x in v], dtype=np.int64)


class NTT:
    def __init__(self, q):
        self.q = q

    def ntt(self, f):
        q = self.q
        a = red(f, q)
        n = len(a)
        if n == 1:
            return [int(a[0])]
        tab, _ = tables(q, n)
        t, m = n, 1
        while m < n:
            t //= 2
            x = a.reshape(m, 2 * t)
            u, v = x[:, :t], x[:, t:] * tab[m:2 * m, None] % q
            a = np.concatenate([(u + v) % q, (u - v) % q], axis=1).reshape(-1)
            m *= 2
        return [int(x) for x in a]

    def intt(self, f):
        q = self.q
        a = red(f, q)
        n = len(a)
        if n == 1:
            return [int(a[0])]
        _, tab = tables(q, n)
        t, m = 1, n // 2
        while m >= 1:
            x = a.reshape(m, 2 * t)
            u, v = x[:, :t], x[:, t:]
            a = np.concatenate([(u + v) % q, (u - v) * tab[m:2 * m, None] % q], axis=1).reshape(-1)
            t *= 2
            m //= 2
        return [int(x) for x in a * pow(n, -1, q) % q]

    def vec_add(self, f, g):
        return [(int(x) + int(y)) % self.q for x, y in zip(f, g)]

    def vec_sub(self, f, g):
        return [(int(x) - int(y)) % self.q for x, y in zip(f, g)]

    def vec_mul(self, f, g):
        return [(int(x) * int(y)) % self.q for x, y in zip(f, g)]

    def vec_div(self, f, g):
        return [(int(x) * pow(int(y), -1, self.q)) % self.q for x, y in zip(f, g)]
