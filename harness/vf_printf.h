/* the printf family for CBMC: the conversions the library may reasonably use */
#ifdef VF_CBMC
#include <stdarg.h>
#include <stdio.h>
static int vf_vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
    size_t o = 0;
#define VF_PUT(c) do { if (o + 1 < size) buf[o] = (c); ++o; } while (0)
    for (; *f; ++f) {
        if (*f != '%') { VF_PUT(*f); continue; }
        ++f; int w = 0; int zero = 0; if (*f == '0') { zero = 1; ++f; } while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'z') ++f;
        if (*f == '%') VF_PUT('%');
        else if (*f == 'c') VF_PUT((char)va_arg(ap, int));
        else if (*f == 's') { const char *s = va_arg(ap, const char *); while (*s) { VF_PUT(*s); ++s; } }
        else if (*f == 'x' || *f == 'X' || *f == 'd' || *f == 'u' || *f == 'i') {
            char d[12]; int n = 0; unsigned v = va_arg(ap, unsigned), base = (*f == 'x' || *f == 'X') ? 16 : 10; if ((*f == 'd' || *f == 'i') && (int)v < 0) { VF_PUT('-'); v = 0u - v; }
            do { unsigned g = v % base; d[n++] = (char)(g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10); v /= base; } while (v);
            while (n < w) { d[n++] = zero ? '0' : ' '; }
            while (n) { --n; VF_PUT(d[n]); }
        } else vf_assert(0, "conversion known to the harness");
    }
    if (size) buf[o < size ? o : size - 1] = 0;
    return (int)o;
}
int snprintf(char *buf, size_t size, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vf_vsnprintf(buf, size, f, ap); va_end(ap); return r; }
#endif
