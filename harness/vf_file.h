/* Forced into the loader: files are one in-memory block, and each operation may fail by the solver's choice. */
#ifndef VF_FILE_H
#define VF_FILE_H
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
typedef struct { size_t pos; int writing, open, err; } VfFile;
FILE *vf_fopen(const char *n, const char *m); int vf_fclose(FILE *f); int vf_fseek(FILE *f, long o, int w); long vf_ftell(FILE *f); size_t vf_fread(void *p, size_t a, size_t b, FILE *f); size_t vf_fwrite(const void *p, size_t a, size_t b, FILE *f); int vf_ferror(FILE *f); int vf_fflush(FILE *f);
#define fopen vf_fopen
#define fclose vf_fclose
#define fseek vf_fseek
#define ftell vf_ftell
#define fread vf_fread
#define fwrite vf_fwrite
#undef ferror
#define ferror vf_ferror
#define fflush vf_fflush
#endif
#ifdef VF_FILE_MAIN
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fread
#undef fwrite
#undef ferror
#undef fflush
#endif
