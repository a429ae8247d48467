"""ctypes access to the C library under test."""
import ctypes as C
import hashlib

SK, PK, PK16 = 1281, 897, 1025
CRYPTO_BYTES, ZK_BYTES, EP_BYTES = 690, 1067, 2094
u64p = C.POINTER(C.c_ulonglong)


class Lib:
    def __init__(self, path):
        self.d = C.CDLL(path)
        d = self.d
        for n in ('vp_fpr_add vp_fpr_sub vp_fpr_mul vp_fpr_div vp_fpr_sqrt vp_fpr_sqr vp_fpr_inv vp_fpr_neg vp_fpr_half '
                  'vp_fpr_double vp_fpr_of vp_fpr_scaled vp_fpr_expm_p63 vp_prng_u64 vp_rb_size vp_sigma_min '
                  'vp_inv_sigma').split():
            getattr(d, n).restype = C.c_uint64
        for n in ('vp_fpr_rint', 'vp_fpr_floor', 'vp_fpr_trunc'):
            getattr(d, n).restype = C.c_int64
        for n in ('vp_sizeof_shake vp_sizeof_prng vp_sizeof_sampler vp_sizeof_keccak_prng vp_sizeof_sha3 '
                  'vp_keccak_buffer vp_rb_drawn vp_rb_ncalls vp_sampler_ptr').split():
            getattr(d, n).restype = C.c_size_t
        for n in 'modq_encode modq_encode16 trim_i16_encode trim_i8_encode comp_encode comp_encode16 modq_decode ' \
                 'modq_decode16 trim_i16_decode trim_i8_decode comp_decode comp_decode16'.split():
            self.z(n).restype = C.c_size_t
        self.z('hint_epervier').restype = C.c_uint16

    def z(self, name):
        return getattr(self.d, 'falcon_inner_' + name)

    # --- random source
    def rb_set(self, b):
        self.d.vp_rb_set(b, C.c_size_t(len(b)))

    def rb_sizes(self):
        return [self.d.vp_rb_size(C.c_size_t(i)) for i in range(min(256, self.d.vp_rb_ncalls()))]

    # --- API.  fmt in {'nist','zk','ep'}
    FMT = {'nist': ('crypto_sign', PK, CRYPTO_BYTES), 'zk': ('zknox_crypto_sign', PK16, ZK_BYTES),
           'ep': ('zknox_crypto_sign', PK16, EP_BYTES)}

    def pklen(self, fmt):
        return self.FMT[fmt][1]

    def keypair_seed(self, fmt, seed):
        pk = C.create_string_buffer(b'\xEE' * (self.pklen(fmt) + 32), self.pklen(fmt) + 32)
        sk = C.create_string_buffer(b'\xEE' * (SK + 32), SK + 32)
        r = getattr(self.d, self.FMT[fmt][0] + '_keypair_from_seed')(pk, sk, seed, C.c_size_t(len(seed)))
        return r, pk.raw, sk.raw

    def keypair(self, fmt, rb=None):
        if rb is not None:
            self.rb_set(rb)
        pk = C.create_string_buffer(b'\xEE' * (self.pklen(fmt) + 32), self.pklen(fmt) + 32)
        sk = C.create_string_buffer(b'\xEE' * (SK + 32), SK + 32)
        r = getattr(self.d, self.FMT[fmt][0] + '_keypair')(pk, sk)
        return r, pk.raw, sk.raw

    def pk_epervier(self, pk16):
        b = C.create_string_buffer(bytes(pk16), PK16 + 16)
        r = self.d.zknox_pk_epervier(b)
        return r, b.raw[:PK16]

    def sign(self, fmt, m, sk, rb=None, overlap=False, slack=64):
        """returns (ret, sm bytes or None, raw buffer)."""
        if rb is not None:
            self.rb_set(rb)
        cap = len(m) + self.FMT[fmt][2] + slack
        sm = C.create_string_buffer(b'\xEE' * cap, cap)
        n = C.c_ulonglong(0xDEADBEEF)
        if overlap:
            C.memmove(sm, m, len(m))
            mp = sm
        else:
            mp = m
        fn = self.d.zknox_crypto_sign_epervier if fmt == 'ep' else getattr(self.d, self.FMT[fmt][0])
        r = fn(sm, C.byref(n), mp, C.c_ulonglong(len(m)), sk)
        if r != 0:
            return r, None, sm.raw
        return r, sm.raw[:min(n.value, cap)], sm.raw

    def open(self, fmt, sm, pk, overlap=False):
        """returns (ret, message or None, raw out buffer, mlen)."""
        cap = len(sm) + 64
        mb = C.create_string_buffer(b'\xDD' * cap, cap)
        n = C.c_ulonglong(0xDEADBEEF)
        if overlap:
            C.memmove(mb, sm, len(sm))
            sp = mb
        else:
            sp = sm
        fn = self.d.zknox_crypto_sign_open_epervier if fmt == 'ep' else getattr(self.d, self.FMT[fmt][0] + '_open')
        r = fn(mb, C.byref(n), sp, C.c_ulonglong(len(sm)), pk)
        if r != 0:
            return r, None, mb.raw, n.value
        return r, mb.raw[:min(n.value, cap)], mb.raw, n.value


def expand(seed, n, tag=b''):
    """n deterministic bytes from a small seed."""
    return hashlib.shake_128(b'vp' + tag + (seed if isinstance(seed, bytes) else str(seed).encode())).digest(n)
