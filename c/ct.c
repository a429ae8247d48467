/*
 * Trace recorder for the check of data-independent execution (C17).  The code under test is
 * compiled with clang -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores; this file
 * supplies the callbacks.  vp_ct_run() calls one function on given arguments and keeps a hash of
 * the control-flow edges taken and of the addresses read and written.  Everything else in the
 * process is the same from call to call, so two runs on buffers at the same place are comparable.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define NOCOV __attribute__((no_sanitize("coverage")))
#define LOGN (1u << 20)

static int on;
static uint64_t h, cnt, seq;
static uint32_t step[LOGN];          /* events of the reference run, folded to 32 bits */
static void *pcs[LOGN];
static uint64_t ref_n, first;
static int mode;                     /* 1: record the reference, 2: compare with it */
static void *first_pc;

NOCOV static inline void ev(uint64_t v, void *pc)
{
	uint64_t x;

	if (!on)
		return;
	x = (v ^ (uint64_t)(uintptr_t)pc * 0x9E3779B97F4A7C15ull) * 0xC2B2AE3D27D4EB4Full;
	x ^= x >> 29;
	h = (h ^ x) * 0xD6E8FEB86659FD93ull;
	h ^= h >> 32;
	if (cnt < LOGN)
	{
		if (mode == 1)
		{
			step[cnt] = (uint32_t)x;
			pcs[cnt] = pc;
		}
		else if (mode == 2 && first == (uint64_t)-1 && (cnt >= ref_n || step[cnt] != (uint32_t)x))
		{
			first = cnt;
			first_pc = pc;
		}
	}
	cnt++;
}

NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
	if (a == b || *a)
		return;
	for (; a < b; a++)
		*a = (uint32_t)++seq;
}
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *g) { ev(*g, __builtin_return_address(0)); }
#define ACC(n) \
	NOCOV void __sanitizer_cov_load##n(void *p) { ev((uint64_t)(uintptr_t)p ^ (uint64_t)n << 56, __builtin_return_address(0)); } \
	NOCOV void __sanitizer_cov_store##n(void *p) { ev((uint64_t)(uintptr_t)p ^ (uint64_t)(n + 64) << 56, __builtin_return_address(0)); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)

typedef uint64_t (*fn8)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);

NOCOV __attribute__((noinline)) static uint64_t run(fn8 fn, const uint64_t *a, int m)
{
	uint64_t r;

	h = cnt = 0;
	mode = m;
	on = 1;
	r = fn(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
	on = 0;
	return r;
}

/*
 * Runs fn twice.  Before each run, buffer i of nb (dst[i], len[i] bytes) is filled with sa[i] or
 * sb[i]; after it, the buffers are copied back there.  out: return values, hashes, numbers of
 * events, index of the first event that differs (or -1).
 */
NOCOV void vp_ct_pair(void *fn, const uint64_t *a, const uint64_t *b, size_t nb, uint8_t **dst,
	uint8_t **sa, uint8_t **sb, const uint64_t *len, uint64_t *out)
{
	int k;
	size_t i;

	first = (uint64_t)-1;
	first_pc = NULL;
	for (k = 0; k < 2; k++)
	{
		for (i = 0; i < nb; i++)
			memcpy(dst[i], k ? sb[i] : sa[i], len[i]);
		out[k] = run((fn8)fn, k ? b : a, k + 1);
		for (i = 0; i < nb; i++)
			memcpy(k ? sb[i] : sa[i], dst[i], len[i]);
		out[2 + k] = h;
		out[4 + k] = cnt;
		if (k == 0)
			ref_n = cnt;
	}
	if (first == (uint64_t)-1 && cnt < ref_n)
		first = cnt;
	out[6] = first;
}

/* name of the function that holds the first difference */
NOCOV const char *vp_ct_where(void)
{
	Dl_info i;
	void *p = first_pc;

	if (p == NULL && first < LOGN)
		p = pcs[first];
	if (p != NULL && dladdr(p, &i) && i.dli_sname)
		return i.dli_sname;
	return "?";
}
