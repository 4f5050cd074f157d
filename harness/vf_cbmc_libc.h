/* plain definitions of the memory and string functions for CBMC: cheaper than its built-in models when lengths are small */
#ifdef VF_CBMC
void *memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; ++i) ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; return d; }
void *memset(void *d, int c, size_t n) { size_t i; for (i = 0; i < n; ++i) ((uint8_t *)d)[i] = (uint8_t)c; return d; }
int memcmp(const void *a, const void *b, size_t n) { size_t i; for (i = 0; i < n; ++i) if (((const uint8_t *)a)[i] != ((const uint8_t *)b)[i]) return (int)((const uint8_t *)a)[i] - (int)((const uint8_t *)b)[i]; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
#endif
