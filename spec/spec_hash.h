/* Reference definitions written from FIPS 180-4 and RFC 7693 (independent of the code under test). */
#ifndef SPEC_HASH_H
#define SPEC_HASH_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
void spec_sha256(uint8_t out[32], const uint8_t *m, size_t n);
void spec_sha512(uint8_t out[64], const uint8_t *m, size_t n);
void spec_blake2s(uint8_t out[32], const uint8_t *m, size_t n);
void spec_blake2b(uint8_t out[64], const uint8_t *m, size_t n);
/* with `extra` further bytes counted as already hashed after the first block */
void spec_sha256_ex(uint8_t *out, const uint8_t *m, size_t n, uint64_t extra);
void spec_sha512_ex(uint8_t *out, const uint8_t *m, size_t n, uint64_t extra);
void spec_blake2s_ex(uint8_t *out, const uint8_t *m, size_t n, uint64_t extra);
void spec_blake2b_ex(uint8_t *out, const uint8_t *m, size_t n, uint64_t extra);
#endif
