/* Forced into every translation unit of a job that lets allocations fail: the harness decides, the real allocator serves. */
#ifndef VF_OOM_H
#define VF_OOM_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
extern int vf_oom_on, vf_oom_failed, vf_oom_count;
extern int vf_oom_pick(void);       /* solver's choice whether this one fails */
static inline void *vf_oom_malloc(size_t n) { if (vf_oom_on && vf_oom_pick()) { ++vf_oom_failed; return 0; } ++vf_oom_count; return malloc(n); }
static inline void *vf_oom_calloc(size_t n, size_t m) { if (vf_oom_on && vf_oom_pick()) { ++vf_oom_failed; return 0; } ++vf_oom_count; return calloc(n, m); }
#define malloc vf_oom_malloc
#define calloc vf_oom_calloc
#endif
#if defined(VF_OOM_MAIN) && !defined(VF_OOM_DONE)   /* the harness: its own allocations never fail */
#define VF_OOM_DONE
#undef malloc
#undef calloc
int vf_oom_on, vf_oom_failed, vf_oom_count;
#endif
