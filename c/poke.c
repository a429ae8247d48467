/* Optional (left out when it does not compile): moves the output counter of the Keccak generator. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "inner.h"

void vp_kp_counter(void *c, uint64_t v)
{
	((inner_keccak256_prng_ctx *)c)->counter = v;
}
