/* Harness interface.  One harness source, three back ends:
 *   VF_CBMC    bounded model checking with CBMC (bit-precise, symbolic sizes)
 *   VF_SE      the LLVM-IR symbolic executor in vlib/ (calls are intrinsics)
 *   VF_NATIVE  ordinary execution, replaying a counterexample from a file
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#if defined(VF_CBMC)
unsigned char nondet_uchar(void); unsigned short nondet_ushort(void);
unsigned int nondet_uint(void); unsigned long nondet_ulong(void);
static inline uint8_t vf_u8_(void) { uint8_t v = nondet_uchar(); __CPROVER_input("v", v); return v; }
static inline uint16_t vf_u16_(void) { uint16_t v = nondet_ushort(); __CPROVER_input("v", v); return v; }
static inline uint32_t vf_u32_(void) { uint32_t v = nondet_uint(); __CPROVER_input("v", v); return v; }
static inline uint64_t vf_u64_(void) { uint64_t v = nondet_ulong(); __CPROVER_input("v", v); return v; }
#define vf_u8(name) vf_u8_()
#define vf_u16(name) vf_u16_()
#define vf_u32(name) vf_u32_()
#define vf_u64(name) vf_u64_()
#define vf_size(name) ((size_t)vf_u64_())
#define vf_int(name) ((int)vf_u32_())
#define vf_bytes(p, n, name) do { for (size_t vf_i_ = 0; vf_i_ < (n); ++vf_i_) ((uint8_t *)(p))[vf_i_] = vf_u8_(); } while (0)
#define vf_assume(c) __CPROVER_assume(c)
#define vf_assert(c, what) __CPROVER_assert((c), "VF " what)
#define vf_cover(what) __CPROVER_assert(0, "COVER " what)
#define vf_stop() __CPROVER_assume(0)
#elif defined(VF_SE)
uint8_t vf_u8(const char *name); uint16_t vf_u16(const char *name);
uint32_t vf_u32(const char *name); uint64_t vf_u64(const char *name);
#define vf_size(name) ((size_t)vf_u64(name))
#define vf_int(name) ((int)vf_u32(name))
void vf_bytes(void *p, size_t n, const char *name);
void vf_assume(int c);
void vf_assert(int c, const char *what);
void vf_assert_eq(const void *a, const void *b, size_t n, const char *what);  /* byte equality, no branch per byte */
void vf_cover(const char *what);
void vf_stop(void);
void vf_uf(const char *fn, void *out, size_t outlen, const void *in, size_t inlen);
int vf_same(const void *a, const void *b, size_t n);   /* symbolic equality as 0/1 without forking */
int vf_ideal_same(const void *a, const void *b, size_t n);  /* equality of ideal values, see vlib/libc.py ideal_eq */
int vf_identical(const void *a, const void *b, size_t n);  /* the very same terms: a fact about where values come from (natively: equal) */
int vf_heap_live(void);
int vf_is_const(const void *p, size_t n);  /* whether all bytes are concrete (natively: yes) */
void *vf_obj(size_t size, size_t max);  /* a heap block of exactly size bytes (at most max) */
void vf_pub(void *out, const void *priv, size_t n, int alg);   /* ideal commutative key agreement */
void vf_dh(void *out, const void *priv, const void *pub, size_t n, int alg);
#else
uint8_t vf_u8(const char *name); uint16_t vf_u16(const char *name);
uint32_t vf_u32(const char *name); uint64_t vf_u64(const char *name);
#define vf_size(name) ((size_t)vf_u64(name))
#define vf_int(name) ((int)vf_u32(name))
void vf_bytes(void *p, size_t n, const char *name);
void vf_assume(int c);
void vf_assert(int c, const char *what);
void vf_assert_eq(const void *a, const void *b, size_t n, const char *what);
void vf_cover(const char *what);
void vf_stop(void);
void vf_uf(const char *fn, void *out, size_t outlen, const void *in, size_t inlen);
int vf_same(const void *a, const void *b, size_t n);
int vf_ideal_same(const void *a, const void *b, size_t n);  /* equality of ideal values, see vlib/libc.py ideal_eq */
int vf_identical(const void *a, const void *b, size_t n);  /* the very same terms: a fact about where values come from (natively: equal) */
int vf_heap_live(void);
int vf_is_const(const void *p, size_t n);  /* whether all bytes are concrete (natively: yes) */
void *vf_obj(size_t size, size_t max);  /* a heap block of exactly size bytes (at most max) */
void vf_pub(void *out, const void *priv, size_t n, int alg);   /* ideal commutative key agreement */
void vf_dh(void *out, const void *priv, const void *pub, size_t n, int alg);
#endif
#if defined(VF_CBMC)
/* a constant-size array is far cheaper for the solver than a symbolic-size one: the block lies at the very start or, by
 * solver choice, at the very end of it, so an access beyond either end of the block leaves the array */
static inline void *vf_obj(size_t n, size_t max) { uint8_t *p = malloc(max ? max : 1); __CPROVER_assume(n <= max); return nondet_uchar() & 1 ? p : p + (max - n); }
#define vf_assert_eq(a, b, n, what) do { for (size_t vf_j_ = 0; vf_j_ < (n); ++vf_j_) \
    __CPROVER_assert(((const uint8_t *)(a))[vf_j_] == ((const uint8_t *)(b))[vf_j_], "VF " what); } while (0)
#endif
#if !defined(VF_CBMC)
uint64_t vf_bits(const char *name, unsigned bits);      /* an input of so many bits */
uint64_t vf_upto(const char *name, uint64_t max);       /* an input of at most max */
void vf_fdef(const uint64_t *limbs, const unsigned *shifts, unsigned n, int h);   /* fresh limbs hold element h (0: an arbitrary one) */
/* integers modulo a prime (1: 2^130-5, 2: 2^255-19): handles for sums of limbs shifted left, and their ring operations */
void vf_fmod(int which); int vf_fe(const uint64_t *limbs, const unsigned *shifts, unsigned n);
int vf_fpow2(unsigned k); int vf_fsmall(unsigned k); int vf_fadd(int a, int b); int vf_fsub(int a, int b); int vf_fmul(int a, int b);
void vf_fcheck(int a, int b, const char *what); void vf_range(const uint64_t *x, uint64_t max, const char *what);
#endif
#endif
