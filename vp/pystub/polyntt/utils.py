def inv_mod(x, q):
    if x % q == 0:
        raise ZeroDivisionError('not invertible')
    return pow(x, -1, q)
