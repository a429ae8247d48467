from .ntt_iterative import NTTIterative


class Poly:
    def __init__(self, coeffs, q, ntt=NTTIterative):
        self.coeffs = coeffs
        self.q = q
        self._cls = ntt
        self.NTT = ntt(q) if isinstance(ntt, type) else NTTIterative(q)

    def _new(self, c):
        return Poly(c, self.q, self._cls)

    def __eq__(self, other):
        return [x % self.q for x in self.coeffs] == [x % self.q for x in other.coeffs]

    def __repr__(self):
        return str(self.coeffs)

    def __neg__(self):
        return self._new([(-x) % self.q for x in self.coeffs])

    def __add__(self, o):
        return self._new(self.NTT.vec_add(self.coeffs, o.coeffs))

    def __sub__(self, o):
        return self._new(self.NTT.vec_sub(self.coeffs, o.coeffs))

    def __mul__(self, o):
        T = self.NTT
        return self._new(T.intt(T.vec_mul(T.ntt(self.coeffs), T.ntt(o.coeffs))))

    def __truediv__(self, o):
        T = self.NTT
        g = T.ntt(o.coeffs)
        if any(x == 0 for x in g):
            raise ZeroDivisionError('polynomial is not invertible')
        return self._new(T.intt(T.vec_div(T.ntt(self.coeffs), g)))

    def inverse(self):
        T = self.NTT
        g = T.ntt(self.coeffs)
        if any(x == 0 for x in g):
            raise ZeroDivisionError('polynomial is not invertible')
        return self._new(T.intt([pow(x, -1, self.q) for x in g]))

    def ntt(self):
        return self.NTT.ntt(self.coeffs)
