/*
 * Linked with the code under test.  Supplies the random source (fed by the check) and exports
 * inline functions and structure sizes.
 */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "inner.h"


static __thread unsigned char vp_rb_buf[1 << 16];
static __thread size_t vp_rb_len, vp_rb_pos, vp_rb_total, vp_rb_calls;
static __thread unsigned long long vp_rb_sizes[256];

void vp_rb_set(const unsigned char *b, size_t n)
{
	if (n > sizeof vp_rb_buf)
		n = sizeof vp_rb_buf;
	if (n)
		memcpy(vp_rb_buf, b, n);
	vp_rb_len = n;
	vp_rb_pos = vp_rb_total = vp_rb_calls = 0;
}
size_t vp_rb_drawn(void) { return vp_rb_total; }
size_t vp_rb_ncalls(void) { return vp_rb_calls; }
unsigned long long vp_rb_size(size_t i) { return i < 256 ? vp_rb_sizes[i] : 0; }

void randombytes_init(unsigned char *e, unsigned char *p, int s)
{
	(void)e; (void)p; (void)s;
}

int randombytes(unsigned char *x, unsigned long long xlen)
{
	if (vp_rb_calls < 256)
		vp_rb_sizes[vp_rb_calls] = xlen;
	vp_rb_calls++;
	vp_rb_total += xlen;
	for (unsigned long long i = 0; i < xlen; i++)
	{
		/* past the end of the supplied bytes: a fixed continuation */
		x[i] = vp_rb_pos < vp_rb_len ? vp_rb_buf[vp_rb_pos] : (unsigned char)(0xA5 ^ (vp_rb_pos * 131));
		vp_rb_pos++;
	}
	return 0;
}

size_t vp_sizeof_shake(void) { return sizeof(inner_shake256_context); }
size_t vp_sizeof_prng(void) { return sizeof(prng); }
size_t vp_sizeof_sampler(void) { return sizeof(sampler_context); }
size_t vp_sizeof_keccak_prng(void) { return sizeof(inner_keccak256_prng_ctx); }
size_t vp_keccak_buffer(void) { return MAX_BUFFER_SIZE; }
size_t vp_sizeof_sha3(void) { return sizeof(SHA3_CTX); }

/* SHAKE / Keccak generators behind plain symbols */
void vp_shake_init(void *c) { inner_shake256_init((inner_shake256_context *)c); }
void vp_shake_inject(void *c, const uint8_t *d, size_t n) { inner_shake256_inject((inner_shake256_context *)c, d, n); }
void vp_shake_flip(void *c) { inner_shake256_flip((inner_shake256_context *)c); }
void vp_shake_extract(void *c, uint8_t *d, size_t n) { inner_shake256_extract((inner_shake256_context *)c, d, n); }
int vp_kp_init(void *c) { return inner_keccak256_init((inner_keccak256_prng_ctx *)c); }
int vp_kp_inject(void *c, const uint8_t *d, size_t n) { return inner_keccak256_inject((inner_keccak256_prng_ctx *)c, d, n); }
int vp_kp_flip(void *c) { return inner_keccak256_flip((inner_keccak256_prng_ctx *)c); }
int vp_kp_extract(void *c, uint8_t *d, size_t n) { return inner_keccak256_extract((inner_keccak256_prng_ctx *)c, d, n); }

/* ChaCha20 generator */
void vp_prng_init_bytes(void *p, const uint8_t *seed, size_t n)
{
	inner_shake256_context sc;
	inner_shake256_init(&sc);
	inner_shake256_inject(&sc, seed, n);
	inner_shake256_flip(&sc);
	Zf(prng_init)((prng *)p, &sc);
}
/* sets the 64-bit block counter, then computes the next blocks */
void vp_prng_ctr(void *p, uint64_t ctr)
{
	memcpy(((prng *)p)->state.d + 48, &ctr, 8);
	Zf(prng_refill)((prng *)p);
}
uint64_t vp_prng_u64(void *p) { return prng_get_u64((prng *)p); }
unsigned vp_prng_u8(void *p) { return prng_get_u8((prng *)p); }
void vp_prng_bytes(void *p, uint8_t *d, size_t n) { Zf(prng_get_bytes)((prng *)p, d, n); }

/* floating point */
typedef uint64_t u64;
static fpr F(u64 x) { fpr r; memcpy(&r, &x, 8); return r; }
static u64 U(fpr x) { u64 r; memcpy(&r, &x, 8); return r; }
u64 vp_fpr_add(u64 a, u64 b) { return U(fpr_add(F(a), F(b))); }
u64 vp_fpr_sub(u64 a, u64 b) { return U(fpr_sub(F(a), F(b))); }
u64 vp_fpr_mul(u64 a, u64 b) { return U(fpr_mul(F(a), F(b))); }
u64 vp_fpr_div(u64 a, u64 b) { return U(fpr_div(F(a), F(b))); }
u64 vp_fpr_sqrt(u64 a) { return U(fpr_sqrt(F(a))); }
u64 vp_fpr_sqr(u64 a) { return U(fpr_sqr(F(a))); }
u64 vp_fpr_inv(u64 a) { return U(fpr_inv(F(a))); }
u64 vp_fpr_neg(u64 a) { return U(fpr_neg(F(a))); }
u64 vp_fpr_half(u64 a) { return U(fpr_half(F(a))); }
u64 vp_fpr_double(u64 a) { return U(fpr_double(F(a))); }
int vp_fpr_lt(u64 a, u64 b) { return fpr_lt(F(a), F(b)); }
int64_t vp_fpr_rint(u64 a) { return fpr_rint(F(a)); }
int64_t vp_fpr_floor(u64 a) { return fpr_floor(F(a)); }
int64_t vp_fpr_trunc(u64 a) { return fpr_trunc(F(a)); }
u64 vp_fpr_of(int64_t i) { return U(fpr_of(i)); }
u64 vp_fpr_scaled(int64_t i, int sc) { return U(fpr_scaled(i, sc)); }
u64 vp_fpr_expm_p63(u64 x, u64 ccs) { return fpr_expm_p63(F(x), F(ccs)); }

/* Batched binary/unary operations: op selects the function. */
void vp_fpr_batch(int op, const u64 *a, const u64 *b, u64 *r, size_t n)
{
	for (size_t i = 0; i < n; i++)
	{
		switch (op)
		{
		case 0: r[i] = vp_fpr_add(a[i], b[i]); break;
		case 1: r[i] = vp_fpr_sub(a[i], b[i]); break;
		case 2: r[i] = vp_fpr_mul(a[i], b[i]); break;
		case 3: r[i] = vp_fpr_div(a[i], b[i]); break;
		case 4: r[i] = vp_fpr_sqrt(a[i]); break;
		case 5: r[i] = vp_fpr_neg(a[i]); break;
		case 6: r[i] = vp_fpr_half(a[i]); break;
		case 7: r[i] = vp_fpr_double(a[i]); break;
		case 8: r[i] = (u64)vp_fpr_lt(a[i], b[i]); break;
		case 9: r[i] = (u64)vp_fpr_rint(a[i]); break;
		case 10: r[i] = (u64)vp_fpr_floor(a[i]); break;
		case 11: r[i] = (u64)vp_fpr_trunc(a[i]); break;
		case 12: r[i] = vp_fpr_of((int64_t)a[i]); break;
		case 13: r[i] = vp_fpr_scaled((int64_t)a[i], (int)(int64_t)b[i]); break;
		case 14: r[i] = vp_fpr_sqr(a[i]); break;
		case 15: r[i] = vp_fpr_inv(a[i]); break;
		case 16: r[i] = vp_fpr_expm_p63(a[i], b[i]); break;
		}
	}
}

/* Samplers */
void vp_sampler_init(void *s, const uint8_t *seed, size_t n, u64 sigma_min)
{
	sampler_context *sc = s;
	vp_prng_init_bytes(&sc->p, seed, n);
	sc->sigma_min = F(sigma_min);
}
/* replaces the pending random bytes of the sampler's generator (512 bytes) */
void vp_sampler_feed(void *s, const uint8_t *b)
{
	sampler_context *sc = s;
	memcpy(sc->p.buf.d, b, sizeof sc->p.buf.d);
	sc->p.ptr = 0;
}
int vp_sampler(void *s, u64 mu, u64 isigma) { return Zf(sampler)(s, F(mu), F(isigma)); }
void vp_sampler_many(void *s, u64 mu, u64 isigma, int *out, size_t n)
{
	for (size_t i = 0; i < n; i++)
		out[i] = Zf(sampler)(s, F(mu), F(isigma));
}
int vp_gaussian0(void *s) { return Zf(gaussian0_sampler)(&((sampler_context *)s)->p); }
size_t vp_sampler_ptr(void *s) { return ((sampler_context *)s)->p.ptr; }
u64 vp_sigma_min(int logn) { return U(fpr_sigma_min[logn]); }
u64 vp_inv_sigma(int logn) { return U(fpr_inv_sigma[logn]); }
