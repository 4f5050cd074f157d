/* U01: comparison, zero test, wipe, allocation.  -DMAXL -DPART */
#include "protocol/internal.h"
#include "vf.h"
static size_t upto(size_t max, const char *nm) { size_t n = vf_u8(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
static uint8_t zeros[MAXL + 1];
void harness(void)
{
    size_t n = upto(MAXL, "n"), k; uint8_t *a = vf_obj(n, MAXL), *b = vf_obj(n, MAXL), old[MAXL + 1], want[MAXL + 1]; int r;
    vf_bytes(a, n, "a"); vf_bytes(b, n, "b"); memcpy(old, a, n);
#if PART == 0
    r = noise_is_equal(a, b, n); vf_assert(r == vf_same(a, b, n), "1 exactly when all bytes are equal");
    if (r) vf_cover("equal"); else vf_cover("different");
    r = noise_is_zero(a, n); vf_assert(r == vf_same(a, zeros, n), "1 exactly when all bytes are zero");
    if (r) vf_cover("zero"); else vf_cover("nonzero");
    vf_assert(noise_is_equal(a, a, n) == 1, "equal to itself"); vf_assert_eq(a, old, n, "comparing changes nothing");
    vf_cover("end");
#else
    size_t off = upto(n, "off"), j = upto(n - off, "len");
    memcpy(want, a, n); for (k = 0; k < j; ++k) want[off + k] = 0;
    noise_clean(a + off, j); vf_assert_eq(a, want, n, "exactly the given bytes are wiped");
    noise_clean(0, 0);
    if (n) { size_t z; uint8_t *o = noise_new_object(n); vf_assert(o != 0, "allocated");
      if (n >= sizeof(size_t)) { memcpy(&z, o, sizeof z); vf_assert(z == n, "new objects know their size"); vf_assert_eq(o + sizeof z, zeros, n - sizeof z, "new objects are zero"); }
      else vf_assert_eq(o, zeros, n, "new objects are zero");
      noise_free(o, n); noise_free(0, n); }
    { NoiseBuffer q; noise_buffer_init(q); vf_assert(q.data == 0 && q.size == 0 && q.max_size == 0, "init");
      noise_buffer_set_output(q, a, n); vf_assert(q.data == a && q.size == 0 && q.max_size == n, "output");
      noise_buffer_set_input(q, a, n); vf_assert(q.data == a && q.size == n && q.max_size == n, "input");
      noise_buffer_set_inout(q, a, off, n); vf_assert(q.data == a && q.size == off && q.max_size == n, "inout"); }
    vf_cover("end");
#endif
}
