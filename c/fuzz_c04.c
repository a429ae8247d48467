/*
 * libFuzzer target for C04.  First byte selects the operation, the rest is its input.
 * Every buffer handed to the code under test is a heap block of exactly the documented size.
 * With -DVP_MSAN the outputs are also checked to be fully initialised.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "inner.h"
#ifdef VP_MSAN
#include <sanitizer/msan_interface.h>
#define INIT(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define INIT(p, n) ((void)0)
#endif

typedef unsigned long long ull;
int crypto_sign_keypair_from_seed(unsigned char *pk, unsigned char *sk, const unsigned char *seed, size_t n);
int zknox_crypto_sign_keypair_from_seed(unsigned char *pk, unsigned char *sk, const unsigned char *seed, size_t n);
int crypto_sign(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
int crypto_sign_open(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
int zknox_crypto_sign(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
int zknox_crypto_sign_open(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
int zknox_crypto_sign_epervier(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
int zknox_crypto_sign_open_epervier(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
int zknox_pk_epervier(unsigned char *);
void vp_rb_set(const unsigned char *b, size_t n);

typedef int (*open_t)(unsigned char *, ull *, const unsigned char *, ull, const unsigned char *);
static const open_t OPEN[3] = {crypto_sign_open, zknox_crypto_sign_open, zknox_crypto_sign_open_epervier};
static const open_t SIGN[3] = {crypto_sign, zknox_crypto_sign, zknox_crypto_sign_epervier};
static const size_t PKL[3] = {CRYPTO_PUBLICKEYBYTES, ZKNOX_CRYPTO_PUBLICKEYBYTES, ZKNOX_CRYPTO_PUBLICKEYBYTES};
static const size_t OVER[3] = {CRYPTO_BYTES, ZKNOX_CRYPTO_BYTES, ZKNOX_CRYPTO_BYTES_EPERVIER};

static unsigned char pk[3][1025], sk[1281];
static unsigned char *base[3][3];
static size_t baselen[3][3];

static void *dup(const void *p, size_t n)
{
	void *r = malloc(n);
	if (!r) abort();
	if (n) memcpy(r, p, n);
	return r;
}
static void die(const char *s)
{
	fprintf(stderr, "VP-FAIL %s\n", s);
	abort();
}

static void init(void)
{
	static int done;
	if (done) return;
	done = 1;
	unsigned char seed[48], sk2[1281];
	for (int i = 0; i < 48; i++) seed[i] = (unsigned char)(i * 37 + 5);
	crypto_sign_keypair_from_seed(pk[0], sk, seed, 48);
	zknox_crypto_sign_keypair_from_seed(pk[1], sk2, seed, 48);
	memcpy(pk[2], pk[1], 1025);
	zknox_pk_epervier(pk[2]);
	static const size_t ML[3] = {0, 5, 300};
	for (int f = 0; f < 3; f++)
		for (int k = 0; k < 3; k++)
		{
			unsigned char m[300];
			for (int i = 0; i < 300; i++) m[i] = (unsigned char)(i * 11 + k);
			unsigned char *sm = malloc(ML[k] + OVER[f]);
			ull n = 0;
			unsigned char rb[88];
			memset(rb, 17 * f + k + 1, sizeof rb);
			vp_rb_set(rb, sizeof rb);
			if (SIGN[f](sm, &n, m, ML[k], sk)) n = 0;
			if (n > ML[k] + OVER[f]) die("signed message longer than advertised");
			INIT(sm, n);
			base[f][k] = sm;
			baselen[f][k] = n;
		}
}

static int do_open(int f, const unsigned char *sm, size_t n, const unsigned char *key)
{
	unsigned char *s = dup(sm, n), *k = dup(key, PKL[f]);
	/* "the message length is always less than the signed message length" */
	unsigned char *m = malloc(n);
	ull mlen = 0;
	int r = OPEN[f](m, &mlen, s, n, k);
	if (r == 0)
	{
		if (mlen > n) die("message longer than bundle");
		INIT(&mlen, sizeof mlen);
		INIT(m, mlen);
	}
	INIT(&r, sizeof r);
	if (memcmp(s, sm, n) || memcmp(k, key, PKL[f])) die("input modified");
	free(s); free(k); free(m);
	return r;
}

/* edits: 4-byte records; returns the new length */
static size_t edit(unsigned char *b, size_t n, size_t cap, const uint8_t *d, size_t dn)
{
	for (; dn >= 4; d += 4, dn -= 4)
	{
		size_t pos = (size_t)d[1] | (size_t)d[2] << 8;
		switch (d[0] & 7)
		{
		case 0: if (n) b[pos % n] ^= d[3]; break;
		case 1: if (n) b[pos % n] = d[3]; break;
		case 2: n = n ? pos % (n + 1) : 0; break;
		case 3: for (size_t i = 0; i < d[3] && n < cap; i++) b[n++] = d[1]; break;
		case 4: if (n) b[n - 1 - pos % n] = d[3]; break;
		case 5: if (n > 1) { b[0] = d[2]; b[1] = d[1]; } break;
		case 6: if (n) { size_t p = pos % n, l = d[3]; if (p + l > n) l = n - p; memset(b + p, 0, l); } break;
		case 7: if (n) { size_t p = pos % n, l = d[3]; if (p + l > n) l = n - p; memset(b + p, 0xFF, l); } break;
		}
	}
	return n;
}

/* signing does not terminate with secret keys that decode but are no NTRU basis: filter those */
static int is_ntru(const unsigned char *k)
{
	static int8_t f[512], g[512], F[512], G[512];
	static int32_t r[512];
	static uint8_t tmp[2048];
	size_t u = 1, v;
	if (k[0] != 0x59) return 1;
	v = Zf(trim_i8_decode)(f, 9, 6, k + u, 1281 - u); if (!v) return 1; u += v;
	v = Zf(trim_i8_decode)(g, 9, 6, k + u, 1281 - u); if (!v) return 1; u += v;
	v = Zf(trim_i8_decode)(F, 9, 8, k + u, 1281 - u); if (!v) return 1;
	if (!Zf(complete_private)(G, f, g, F, 9, tmp)) return 1;
	memset(r, 0, sizeof r);
	for (int i = 0; i < 512; i++)
		for (int j = 0; j < 512; j++)
		{
			int32_t x = f[i] * G[j] - g[i] * F[j];
			if (i + j < 512) r[i + j] += x; else r[i + j - 512] -= x;
		}
	if (r[0] != 12289) return 0;
	for (int i = 1; i < 512; i++) if (r[i]) return 0;
	return 1;
}

static void codec(const uint8_t *d, size_t n)
{
	if (n < 3) return;
	unsigned op = d[0] % 12, logn = 1 + d[1] % 10, bits = 2 + d[2] % 7;
	size_t N = (size_t)1 << logn;
	d += 3; n -= 3;
	size_t r = 0;
	if (op < 6)
	{
		unsigned char *in = dup(d, n);
		size_t el = op == 3 ? 1 : 2;
		void *out = malloc(N * el);
		switch (op)
		{
		case 0: r = Zf(modq_decode)(out, logn, in, n); break;
		case 1: r = Zf(modq_decode16)(out, logn, in, n); break;
		case 2: r = Zf(trim_i16_decode)(out, logn, bits + 4, in, n); break;
		case 3: r = Zf(trim_i8_decode)(out, logn, bits, in, n); break;
		case 4: r = Zf(comp_decode)(out, logn, in, n); break;
		case 5: r = Zf(comp_decode16)(out, logn, in, n); break;
		}
		if (r > n) die("decoder consumed more than it was given");
		if (r) INIT(out, N * el);
		free(in); free(out);
	}
	else
	{
		/* encoders: values cycled from the data; output buffer size from the data */
		if (n < 4) return;
		size_t cap = ((size_t)d[0] | (size_t)d[1] << 8) % (3 * N + 4);
		d += 2; n -= 2;
		size_t el = op == 9 ? 1 : 2;
		unsigned char *x = malloc(N * el), *out = malloc(cap);
		for (size_t i = 0; i < N * el; i++) x[i] = d[i % n];
		if (op != 9)
			for (size_t i = 0; i < N; i++)
			{
				int16_t v;
				memcpy(&v, x + 2 * i, 2);
				if (d[0] & 1) v = (int16_t)(op < 8 ? (uint16_t)v % 12289 : v % 1024);
				memcpy(x + 2 * i, &v, 2);
			}
		switch (op)
		{
		case 6: r = Zf(modq_encode)(out, cap, (void *)x, logn); break;
		case 7: r = Zf(modq_encode16)(out, cap, (void *)x, logn); break;
		case 8: r = Zf(trim_i16_encode)(out, cap, (void *)x, logn, bits + 4); break;
		case 9: r = Zf(trim_i8_encode)(out, cap, (void *)x, logn, bits); break;
		case 10: r = Zf(comp_encode)(out, cap, (void *)x, logn); break;
		case 11: r = Zf(comp_encode16)(out, cap, (void *)x, logn); break;
		}
		if (r > cap) die("encoder reports more than the buffer holds");
		INIT(out, r);
		free(x); free(out);
	}
}

static void sponge(const uint8_t *d, size_t n)
{
	inner_keccak256_prng_ctx *k = malloc(sizeof *k);
	inner_shake256_context *s = malloc(sizeof *s);
	int flipped = 0;
	inner_keccak256_init(k);
	inner_shake256_init(s);
	for (; n >= 3; )
	{
		unsigned op = d[0] % 4;
		size_t l = ((size_t)d[1] | (size_t)d[2] << 8) % 5000;
		d += 3; n -= 3;
		unsigned char *b = malloc(l);
		if (op <= 1)
		{
			for (size_t i = 0; i < l; i++) b[i] = n ? d[i % n] : 0;
			inner_keccak256_inject(k, b, l);
			if (!flipped) inner_shake256_inject(s, b, l);
		}
		else if (op == 2)
		{
			inner_keccak256_flip(k);
			if (!flipped) inner_shake256_flip(s);
			flipped = 1;
		}
		else
		{
			if (inner_keccak256_extract(k, b, l) == 0) INIT(b, l);
			if (flipped) { inner_shake256_extract(s, b, l); INIT(b, l); }
		}
		free(b);
	}
	free(k); free(s);
}

static void raw_verify(const uint8_t *d, size_t n)
{
	/* exact-size vectors for the verification and recovery cores */
	if (n < 2) return;
	unsigned op = d[0] % 4, logn = 1 + d[1] % 10;
	size_t N = (size_t)1 << logn;
	d += 2; n -= 2;
	uint16_t *c = malloc(2 * N), *h = malloc(2 * N);
	int16_t *a = malloc(2 * N), *b = malloc(2 * N);
	uint8_t *tmp = malloc(2 * N);
	for (size_t i = 0; i < N; i++)
	{
		uint32_t v = n ? (uint32_t)d[i % n] * 257u + (uint32_t)d[(i * 7 + 1) % n] : 0;
		c[i] = (uint16_t)(v % 12289);
		h[i] = (uint16_t)((v * 31 + i) % 12289);
		a[i] = (int16_t)((int)(v % 4095) - 2047);
		b[i] = (int16_t)((int)((v >> 3) % 4095) - 2047);
	}
	int r = 0;
	switch (op)
	{
	case 0: r = Zf(verify_raw)(c, a, h, logn, tmp); break;
	case 1: r = Zf(verify_recover)(h, c, a, b, logn, tmp); if (r) INIT(h, 2 * N); break;
	case 2: r = Zf(verify_recover_epervier)(h, c, a, b, logn, tmp); if (r) INIT(h, 2 * N); break;
	case 3: r = Zf(is_short)(a, b, logn) + Zf(is_invertible)(a, logn, tmp) + Zf(count_nttzero)(a, logn, tmp); break;
	}
	INIT(&r, sizeof r);
	free(c); free(h); free(a); free(b); free(tmp);
}

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	init();
	if (n < 2) return 0;
	unsigned op = d[0] % 16;
	unsigned sel = d[1];
	d += 2; n -= 2;
	static unsigned char buf[8192];
	if (op < 3)
		do_open((int)op, d, n, pk[op]);
	else if (op < 6)
	{
		int f = (int)op - 3, k = sel % 3;
		memcpy(buf, base[f][k], baselen[f][k]);
		size_t l = edit(buf, baselen[f][k], sizeof buf, d, n);
		do_open(f, buf, l, pk[f]);
	}
	else if (op == 6)
	{
		int f = sel % 3;
		memcpy(buf, pk[f], PKL[f]);
		edit(buf, PKL[f], PKL[f], d, n);
		do_open(f, base[f][1], baselen[f][1], buf);
	}
	else if (op == 7)
	{
		int f = sel % 3;
		memset(buf, sel, 1025);
		memcpy(buf, d, n < 1025 ? n : 1025);
		do_open(f, base[f][1], baselen[f][1], buf);
	}
	else if (op == 8 || op == 9)
		codec(d, n);
	else if (op == 10)
	{
		int f = sel % 3;
		unsigned char *k = dup(sk, 1281);
		size_t ml = (sel / 3) * 50;
		if (sel & 128) { size_t e = n & ~(size_t)3; edit(k, 1281, 1281, d, e); }
		else { memset(k + 1, sel, 1280); memcpy(k, d, n < 1281 ? n : 1281); }
		if (is_ntru(k))
		{
			unsigned char *m = malloc(ml), *sm = malloc(ml + OVER[f]);
			memset(m, 7, ml);
			ull l = 0;
			vp_rb_set(d, n < 88 ? n : 88);
			if (SIGN[f](sm, &l, m, ml, k) == 0)
			{
				if (l > ml + OVER[f]) die("signed message longer than advertised");
				INIT(sm, l);
			}
			free(m); free(sm);
		}
		free(k);
	}
	else if (op == 11)
	{
		unsigned char *k = malloc(1025);
		memcpy(k, pk[1], 1025);
		if (sel & 1) edit(k, 1025, 1025, d, n); else { memset(k, sel, 1025); memcpy(k, d, n < 1025 ? n : 1025); }
		zknox_pk_epervier(k);
		INIT(k, 1025);
		free(k);
	}
	else if (op == 12)
		sponge(d, n);
	else if (op == 13)
		raw_verify(d, n);
	else if (op == 14)
	{
		unsigned char *p = malloc(1025), *s = malloc(1281), *seed = dup(d, n);
		int r = sel & 1 ? zknox_crypto_sign_keypair_from_seed(p, s, seed, n) : crypto_sign_keypair_from_seed(p, s, seed, n);
		if ((n < 32) != (r != 0)) die("seed length");
		if (r == 0) { INIT(p, sel & 1 ? 1025 : 897); INIT(s, 1281); }
		free(p); free(s); free(seed);
	}
	else
	{
		/* sign with the valid key and any message, exact buffers, then open */
		int f = sel % 3;
		unsigned char *m = dup(d, n), *sm = malloc(n + OVER[f]);
		ull l = 0;
		vp_rb_set(d, n < 88 ? n : 88);
		if (SIGN[f](sm, &l, m, n, sk) == 0)
		{
			if (l > n + OVER[f]) die("signed message longer than advertised");
			INIT(sm, l);
			do_open(f, sm, l, pk[f]);
		}
		free(m); free(sm);
	}
	return 0;
}
