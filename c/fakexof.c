/* Output streams under the control of the check: linked in place of the squeeze functions used by common.c. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

static const uint8_t *st;
static size_t len, pos;
unsigned long vp_fake_calls, vp_fake_over;

void vp_fake_set(const uint8_t *p, size_t n) { st = p; len = n; pos = 0; vp_fake_calls = 0; vp_fake_over = 0; }
size_t vp_fake_pos(void) { return pos; }

static void give(uint8_t *out, size_t n)
{
	vp_fake_calls++;
	for (size_t i = 0; i < n; i++) {
		if (pos < len)
			out[i] = st[pos];
		else {
			out[i] = 0;
			vp_fake_over++;
		}
		pos++;
	}
}

void vp_fake_shake(void *sc, uint8_t *out, size_t n) { (void)sc; give(out, n); }
int vp_fake_keccak(void *kc, uint8_t *out, size_t n) { (void)kc; give(out, n); return 0; }

/* for key generation: after the chosen bytes, an endless pseudorandom stream */
static uint64_t tail;
void vp_fake_seed(uint64_t s) { tail = s | 1; }
void vp_fake_stream(void *sc, uint8_t *out, size_t n)
{
	(void)sc;
	vp_fake_calls++;
	for (size_t i = 0; i < n; i++) {
		if (pos < len)
			out[i] = st[pos];
		else {
			tail += 0x9E3779B97F4A7C15ull;
			uint64_t z = tail;
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			out[i] = (uint8_t)(z >> 56);
			vp_fake_over++;
		}
		pos++;
	}
}
