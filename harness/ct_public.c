/* Override for T01: the verdict of a comparison is public (the comparison itself is a job of its own). */
#include "vf.h"
int noise_is_equal(const void *x, const void *y, size_t n) { uint8_t v; (void)x; (void)y; (void)n; v = vf_u8("public verdict"); vf_assume(v < 2); return v; }
