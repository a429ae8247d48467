"""S03: the on-chain NTT libraries multiply polynomials correctly."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..solprops import *
from ..gen import Rng

FW, INV = '_ZKNOX_NTTFW_vectorized(uint256[])', '_ZKNOX_NTTINV_vectorized(uint256[])'
HALF, VEC = '_ZKNOX_NTT_HALFMUL_Compact(uint256[],uint256[])', '_ZKNOX_VECMULMOD(uint256[],uint256[])'
ARR = ['uint256[]']
ZERO = '0x' + '00' * 20
NM1 = pow(512, -1, Q)


def build(b):
    return build_sol(b, 'falcon', 'NTT', 'NTT_falcon', 'falcon_deploy', 'external/NTT_Recursive.sol', 'external/ETHFalcon_Recursive.sol',
                     drv=['Deploy'])


def hk(ctx, name, *args):
    if not has(ctx, name):
        return None
    return ints(value(hook(ctx, name, *args), ARR, name))


def mth(ctx, addr, sig, *args):
    return ints(value(call(ctx, addr, sig, *args), ARR, sig))


def words(a):
    return b''.join(x.to_bytes(32, 'big') for x in a)


PSI = M.psi_rev(512)
PSIINV = [pow(x, -1, Q) for x in PSI]


def tables(ctx):
    """addresses holding the tables of psi and psi^-1, one 32-byte word per entry (as the NTT contract reads them)"""
    def mk():
        v = vm(ctx)
        out = []
        for i, t in enumerate((PSI, PSIINV)):
            a = (0xcaca00 + i).to_bytes(32, 'big')
            v.setcode(a, words(t))
            out.append(a)
        return out
    return ctx.get('tables', mk)


def hx(a):
    return '0x' + a[12:].hex()


def ntt_c(ctx):
    """the NTT contract with external tables"""
    t = tables(ctx)
    return contract(ctx, 'ZKNOX_NTT', ('address', 'address', 'uint256', 'uint256'), (hx(t[0]), hx(t[1]), Q, NM1))


def ntt_s(ctx):
    """the NTT contract with its own tables"""
    return contract(ctx, 'ZKNOX_NTT', ('address', 'address', 'uint256', 'uint256'), (ZERO, ZERO, Q, NM1))


def canon(x, what):
    check(len(x) == N, what + ': %d coefficients' % len(x))
    check(all(v < Q for v in x), what + ': a coefficient is q or more')


def prod(a, b):
    return [int(x) for x in M.mulq(a, b)]


def lab(case):
    return ['!' + case['a']['k']]


def run_vec(ctx, case):
    a, b = poly(case['a']), poly(case['b'])
    out = lab(case)
    na = ints(M.ntt(a))
    for name, x, want in ((FW, a, na), (INV, na, a)):
        y = hk(ctx, name, x)
        if y is None:
            out.append('no ' + name)
            continue
        canon(y, name)
        check(y == want, name + ': not the %s transform' % ('forward' if name == FW else 'inverse'))
    y = hk(ctx, VEC, a, b)
    if y is not None:
        check(y == [u * v % Q for u, v in zip(a, b)], VEC + ': not the product entry by entry')
    y = hk(ctx, HALF, pack(a), pack(ints(M.ntt(b))))
    if y is not None:
        c = unpack(y)
        canon(c, HALF)
        check(len(y) == 32 and c == prod(a, b), HALF + ': not the product modulo x^512+1 and q')
    else:
        out.append('no ' + HALF)
    return out


def run_wide(ctx, case):
    """packed inputs with coefficients up to 65535 are taken modulo q"""
    a, b = poly(case['a'], 65536), poly(case['b'], 65536)
    y = hk(ctx, HALF, pack(a), pack(b))
    if y is None:
        return ['gone']
    c = unpack(y)
    canon(c, HALF)
    check(c == prod([x % Q for x in a], ints(M.intt([x % Q for x in b]))), HALF + ': coefficients above q are not taken modulo q')
    return lab(case)


def run_stateless(ctx, case):
    a, b = poly(case['a']), poly(case['b'])
    c = ntt_s(ctx)
    na, nb = ints(M.ntt(a)), ints(M.ntt(b))
    w = 'ZKNOX_NTT '
    y = mth(ctx, c, 'ZKNOX_NTTFW(uint256[],uint256)', a, Q)
    check(y == na, w + 'ZKNOX_NTTFW(a, q): not the forward transform')
    y = mth(ctx, c, 'ZKNOX_NTTINV(uint256[],uint256)', na, Q)
    check(y == a, w + 'ZKNOX_NTTINV(a, q): not the inverse transform')
    p = prod(a, b)
    y = mth(ctx, c, 'mul_NTTPoly(uint256[],uint256[],uint256)', a, b, Q)
    check(y == p, w + 'mul_NTTPoly: not the product')
    y = mth(ctx, c, 'ZKNOX_NTT_HALFMUL(uint256[],uint256[],uint256)', a, nb, Q)
    check(y == p, w + 'ZKNOX_NTT_HALFMUL(a, b, q): not the product')
    return lab(case)


def run_stateful(ctx, case):
    a, b = poly(case['a']), poly(case['b'])
    c = ntt_c(ctx)
    t = [hx(x) for x in tables(ctx)]
    na, nb = ints(M.ntt(a)), ints(M.ntt(b))
    w = 'ZKNOX_NTT '
    p = prod(a, b)
    for u in ('', '_'):
        y = mth(ctx, c, u + 'ZKNOX_NTTFW(uint256[],address)', a, t[0])
        check(y == na, w + u + 'ZKNOX_NTTFW(a, table): not the forward transform')
        y = mth(ctx, c, u + 'ZKNOX_NTTINV(uint256[],address)', na, t[1])
        check(y == a, w + u + 'ZKNOX_NTTINV(a, table): not the inverse transform')
    y = mth(ctx, c, 'ZKNOX_NTT_HALFMUL(uint256[],uint256[])', a, nb)
    check(y == p, w + 'ZKNOX_NTT_HALFMUL: not the product')
    y = mth(ctx, c, 'ZKNOX_NTT_MUL(uint256[],uint256[])', a, b)
    check(y == p, w + 'ZKNOX_NTT_MUL: not the product')
    y = mth(ctx, c, 'ZKNOX_NTT_HALFMUL_Compact(uint256[],uint256[])', pack(a), pack(nb))
    check(len(y) == 32 and unpack(y) == p, w + 'ZKNOX_NTT_HALFMUL_Compact: not the product')
    for f, op in (('MUL', lambda u, v: u * v), ('ADD', lambda u, v: u + v), ('SUB', lambda u, v: u - v)):
        s = 'ZKNOX_VEC%sMOD(uint256[],uint256[],uint256)' % f
        y = mth(ctx, c, s, a, b, Q)
        check(y == [op(u, v) % Q for u, v in zip(a, b)], w + s + ': wrong entries')
        refused(call(ctx, c, s, a, b[:case['a']['s'] % 512], Q), w + s + ' with lengths 512 and %d' % (case['a']['s'] % 512))
    y = mth(ctx, c, '_ZKNOX_VECMULMOD(uint256[],uint256[],uint256)', a, b, Q)
    check(y == [u * v % Q for u, v in zip(a, b)], w + '_ZKNOX_VECMULMOD: wrong entries')
    return lab(case)


# ---- other fields and degrees ---------------------------------------------------------------------
FIELDS = [12289, 3329, 7681, 97, 17, 257, 65537, 8380417, 998244353, 2013265921, 2 ** 64 - 2 ** 32 + 1,
          21888242871839275222246405745257275088548364400416034343698204186575808495617,
          52435875175126190479447740508185965837690552500527637822603658699938581184513]


def root(q, n):
    """an element of order 2n modulo the prime q"""
    for g in range(2, 200):
        r = pow(g, (q - 1) // (2 * n), q)
        if pow(r, n, q) == q - 1:
            return r


def rev_table(q, n, inv):
    r, k = root(q, n), n.bit_length() - 1
    if inv:
        r = pow(r, -1, q)
    t = []
    for i in range(n):
        t.append(pow(r, int(bin(i)[2:].zfill(k)[::-1], 2) if k else 0, q))
    return t


def negprod(a, b, q):
    n = len(a)
    w = 2 * q.bit_length() + n.bit_length() + 1
    A, B = (sum(x << (w * i) for i, x in enumerate(p)) for p in (a, b))
    P, m = A * B, (1 << w) - 1
    c = [(P >> (w * i)) & m for i in range(2 * n)]
    return [(c[i] - c[i + n]) % q for i in range(n)]


def pset(ctx, q, n):
    """addresses of the tables, n^-1, tables"""
    def mk():
        out, v = [], vm(ctx)
        for inv in (0, 1):
            t = rev_table(q, n, inv)
            a = (0xdada0000 + 64 * FIELDS.index(q) + 2 * n.bit_length() + inv).to_bytes(32, 'big')
            v.setcode(a, words(t))
            out.append(hx(a))
        return out + [pow(n, -1, q)]
    return ctx.get(('pset', q, n), mk)


def degrees(q, top):
    return [n for n in (2, 4, 8, 16, 32, 64, 128, 256, 512) if n <= top and (q - 1) % (2 * n) == 0]


def fpoly(k, s, n, q):
    r = Rng('fp', k, s)
    if k == 'max':
        return [q - 1] * n
    if k == 'sparse':
        a = [0] * n
        a[r.below(n)] = 1 + r.below(q - 1)
        return a
    if k == 'edge':
        return [[0, 1, q - 1, q // 2, q // 2 + 1][r.below(5)] for _ in range(n)]
    return [r.below(q) for _ in range(n)]


PAR_SIG = ('address', 'address', 'uint256', 'uint256')


def use_ntt(ctx, c, q, n, step, what):
    t = pset(ctx, q, n)
    a, b = fpoly(step['a'], step['s'], n, q), fpoly(step['b'], step['s'] + 1, n, q)
    p = negprod(a, b, q)
    y = mth(ctx, c, 'ZKNOX_NTT_MUL(uint256[],uint256[])', a, b)
    check(y == p, what + ': ZKNOX_NTT_MUL is not the product')
    na = mth(ctx, c, 'ZKNOX_NTTFW(uint256[],address)', a, t[0])
    nb = mth(ctx, c, '_ZKNOX_NTTFW(uint256[],address)', b, t[0])
    check(all(x < q for x in na + nb), what + ': a transform is not reduced')
    check(mth(ctx, c, '_ZKNOX_NTTINV(uint256[],address)', na, t[1]) == a, what + ': inverse transform does not undo the forward one')
    check(mth(ctx, c, 'ZKNOX_NTT_HALFMUL(uint256[],uint256[])', a, nb) == p, what + ': ZKNOX_NTT_HALFMUL is not the product')


def run_fields(ctx, case):
    """one contract through a sequence of parameter sets: the product is that of the set in force"""
    v = vm(ctx)
    s = v.snapshot()
    q, n = case['init']
    labels, frozen = {'!%d bits' % q.bit_length()}, False
    for st_ in case['steps']:
        if st_['op'] == 'set':
            pset(ctx, *st_['p'])
    pset(ctx, q, n)
    s = v.snapshot()
    try:
        t = pset(ctx, q, n)
        c = v.deploy('ZKNOX_NTT', PAR_SIG, (t[0], t[1], q, t[2]))
        what = 'contract for q=%d, n=%d' % (q, n)
        use_ntt(ctx, c, q, n, case['first'], what)
        for i, step in enumerate(case['steps']):
            if step['op'] == 'freeze':
                check(v.call(c, 'make_immutable()').ok, 'make_immutable fails')
                frozen = True
                what += ', frozen'
            elif step['op'] == 'set':
                u = pset(ctx, *step['p'])
                v.call(c, 'update(address,address,uint256,uint256)', u[0], u[1], step['p'][0], u[2])
                if not frozen:
                    q, n = step['p']
                    labels.add('!updated')
                what += ', update to q=%d, n=%d' % tuple(step['p'])
            else:
                use_ntt(ctx, c, q, n, step, what)
        use_ntt(ctx, c, q, n, case['first'], what)
    finally:
        v.rollback(s)
    return sorted(labels)


def run_degree(ctx, case):
    """the stateless functions at every degree up to 512 (n^-1 is the stored one)"""
    n = case['n']
    v = vm(ctx)
    c = ctx.get(('nd', n), lambda: v.deploy('ZKNOX_NTT', PAR_SIG, (ZERO, ZERO, Q, pow(n, -1, Q))))
    a, b = fpoly(case['a'], case['s'], n, Q), fpoly(case['b'], case['s'] + 1, n, Q)
    p = negprod(a, b, Q)
    w = 'ZKNOX_NTT stateless, degree %d: ' % n
    check(mth(ctx, c, 'mul_NTTPoly(uint256[],uint256[],uint256)', a, b, Q) == p, w + 'mul_NTTPoly is not the product')
    nb = mth(ctx, c, 'ZKNOX_NTTFW(uint256[],uint256)', b, Q)
    check(all(x < Q for x in nb), w + 'transform not reduced')
    check(mth(ctx, c, 'ZKNOX_NTTINV(uint256[],uint256)', nb, Q) == b, w + 'inverse transform does not undo the forward one')
    check(mth(ctx, c, 'ZKNOX_NTT_HALFMUL(uint256[],uint256[],uint256)', a, nb, Q) == p, w + 'ZKNOX_NTT_HALFMUL is not the product')
    return ['!n%d' % n]


def run_rec(ctx, case):
    n = case['n']
    a, b = poly(case['a'])[:n], poly(case['b'])[:n]
    c = contract(ctx, 'NTT')
    w = 'NTT (recursive), degree %d: ' % n
    na = mth(ctx, c, 'nTT(uint256[])', a)
    check(len(na) == n and all(x < Q for x in na), w + 'transform not reduced')
    check(mth(ctx, c, 'iNTT(uint256[])', na) == a, w + 'inverse transform does not undo the forward one')
    p = prod(a, b)
    check(mth(ctx, c, 'mulZQ(uint256[],uint256[])', a, b) == p, w + 'mulZQ is not the product')
    nb = mth(ctx, c, 'nTT(uint256[])', b)
    check(mth(ctx, c, 'mulZQ_opt(uint256[],uint256[])', a, nb) == p, w + 'mulZQ_opt is not the product')
    check(mth(ctx, c, 'addZQ(uint256[],uint256[])', a, b) == [(x + y) % Q for x, y in zip(a, b)], w + 'addZQ')
    check(mth(ctx, c, 'subZQ(uint256[],uint256[])', a, b) == [(x - y) % Q for x, y in zip(a, b)], w + 'subZQ')
    check(mth(ctx, c, 'mulNTT(uint256[],uint256[])', a, b) == [x * y % Q for x, y in zip(a, b)], w + 'mulNTT')
    # same transform as the evaluation at the roots of x^n+1, as a set
    if n <= 16:
        r = [x for x in range(Q) if pow(x, n, Q) == Q - 1] if ('roots', n) not in ctx.cache else None
        r = ctx.get(('roots', n), lambda: r)
        ev = sorted(sum(v * pow(x, i, Q) for i, v in enumerate(a)) % Q for x in r)
        check(sorted(na) == ev, w + 'the transform does not hold the values at the roots of x^n+1')
    return ['!degree %d' % n]


def run_deploy(ctx, case):
    """Deploy puts the tables, 16 bits per entry, in contracts; DeployPolynomial the words of a polynomial"""
    a = poly(case['a'])[:case['n']]
    salt = case['s'].to_bytes(32, 'big')
    d = contract(ctx, 'VpDeploy')
    p0, p1 = value(call(ctx, d, 'tables(bytes32)', salt), ['bytes', 'bytes'], 'Deploy')
    for p, t, nm in ((p0, PSI, 'psi'), (p1, PSIINV, 'inverse psi')):
        check(p == b''.join(x.to_bytes(2, 'big') for x in t), 'Deploy: the table of %s stored is wrong' % nm)
    p = value(call(ctx, d, 'polynomial(bytes32,uint256[])', salt, a), ['bytes'], 'DeployPolynomial')
    check(p == words(a), 'DeployPolynomial: the code stored is not the words of the polynomial')
    refused(call(ctx, d, 'again(bytes32,uint256[])', salt, a), 'DeployPolynomial twice with the same salt')
    return ['!%d words' % case['n']]


def run_chain(ctx, case):
    """DeployPolynomial tables used by the NTT contract: the whole documented chain"""
    a, b = poly(case['a']), poly(case['b'])
    d = contract(ctx, 'VpDeploy')
    r = value(call(ctx, d, 'chain(uint256[],uint256[],uint256[],uint256[])', PSI, PSIINV, a, b), ARR, 'tables deployed, NTT contract, product')
    check(ints(r) == prod(a, b), 'product computed with deployed tables is wrong')
    return lab(case)


KND = st.sampled_from(['rand', 'rand', 'max', 'sparse', 'edge'])
PSETS = st.sampled_from([(q, n) for q in FIELDS for n in degrees(q, 64)] + [(q, n) for q in FIELDS for n in degrees(q, 512) if n > 64][::3] + [(12289, 512)] * 4)
USE = st.fixed_dictionaries({'op': st.just('use'), 'a': KND, 'b': KND, 's': st.integers(0, 2 ** 32)})
SET = st.fixed_dictionaries({'op': st.just('set'), 'p': PSETS})
F0 = {'op': 'use', 'a': 'rand', 'b': 'rand', 's': 7}
AB = st.fixed_dictionaries({'a': polys_(), 'b': polys_()})
MONO = [{'a': {'k': 'mono', 's': i}, 'b': {'k': 'rand', 's': i}} for i in range(0, 512)]
FACETS = [
    Facet('vectorized', AB, run_vec, 1500, 40000, corners=MONO, rule='every pair'),
    Facet('wide', AB, run_wide, 500, 15000, rule='every pair'),
    Facet('stateless', AB, run_stateless, 250, 8000, corners=MONO[::16], rule='every pair'),
    Facet('stateful', AB, run_stateful, 250, 8000, corners=MONO[::16], rule='every pair'),
    Facet('fields', st.fixed_dictionaries({'init': PSETS, 'first': USE, 'steps': st.lists(st.one_of(USE, USE, SET, SET, st.fixed_dictionaries({'op': st.just('freeze')})), max_size=5)}),
          run_fields, 120, 4000, rule='contracts with other moduli and degrees, updated and frozen',
          corners=[{'init': (q, n), 'first': F0, 'steps': []} for q in FIELDS for n in degrees(q, 512)[-1:]] +
                  [{'init': (12289, 512), 'first': F0, 'steps': [{'op': 'set', 'p': (12289, 256)}, F0, {'op': 'freeze'}, {'op': 'set', 'p': (8380417, 256)}, F0, {'op': 'freeze'}, {'op': 'set', 'p': (12289, 16)}]}]),
    Facet('degree', st.fixed_dictionaries({'n': st.sampled_from([2, 4, 8, 16, 32, 64, 128, 256, 512]), 'a': KND, 'b': KND, 's': st.integers(0, 2 ** 32)}), run_degree, 120, 4000,
          rule='stateless transforms at every degree', corners=[{'n': 2 ** k, 'a': 'rand', 'b': 'max', 's': k} for k in range(1, 10)]),
    Facet('recursive', st.fixed_dictionaries({'a': polys_(), 'b': polys_(), 'n': st.sampled_from([2, 4, 8, 16, 32, 64, 128, 256, 512, 512, 512])}),
          run_rec, 250, 8000, rule='every pair',
          corners=[{'a': {'k': 'mono', 's': i}, 'b': {'k': 'rand', 's': i}, 'n': 512} for i in range(0, 512, 8)]),
    Facet('deploy', st.fixed_dictionaries({'a': polys_(), 'n': st.sampled_from([0, 1, 2, 32, 511, 512]), 's': st.integers(0, 2 ** 64)}),
          run_deploy, 60, 2000, rule='every deployment'),
    Facet('chain', AB, run_chain, 60, 2000, rule='every pair'),
]
