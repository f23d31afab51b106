/* C library routines that inspect memory, in plain C so that they are
 * instrumented and executed symbolically like the code under test. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
typedef unsigned char uc;
int __fsl_memcmp(const void* a, const void* b, size_t n)
{
    const uc *x = a, *y = b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return (int)x[i] - (int)y[i];
    return 0;
}
int __fsl_bcmp(const void* a, const void* b, size_t n) { return __fsl_memcmp(a, b, n); }
size_t __fsl_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int __fsl_strcmp(const char* a, const char* b)
{
    size_t i = 0;
    while (a[i] == b[i] && a[i]) ++i;
    return (int)(uc)a[i] - (int)(uc)b[i];
}
int __fsl_strncmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) return (int)(uc)a[i] - (int)(uc)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
int __fsl_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int __fsl_toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int __fsl_strcasecmp(const char* a, const char* b)
{
    size_t i = 0;
    while (1) {
        int x = __fsl_tolower((uc)a[i]), y = __fsl_tolower((uc)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
        ++i;
    }
}
void* __fsl_memchr(const void* s, int c, size_t n)
{
    const uc* x = s;
    for (size_t i = 0; i < n; ++i) if (x[i] == (uc)c) return (void*)(x + i);
    return 0;
}
char* __fsl_strchr(const char* s, int c)
{
    for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
char* __fsl_strrchr(const char* s, int c)
{
    const char* r = 0;
    for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* __fsl_strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* __fsl_strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
char* __fsl_strcat(char* d, const char* s) { __fsl_strcpy(d + __fsl_strlen(d), s); return d; }
char* __fsl_strstr(const char* h, const char* n)
{
    size_t l = __fsl_strlen(n);
    for (;; ++h) { if (!__fsl_strncmp(h, n, l)) return (char*)h; if (!*h) return 0; }
}
int __fsl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int __fsl_isdigit(int c) { return c >= '0' && c <= '9'; }
int __fsl_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int __fsl_islower(int c) { return c >= 'a' && c <= 'z'; }
int __fsl_isalpha(int c) { return __fsl_isupper(c) || __fsl_islower(c); }
int __fsl_isalnum(int c) { return __fsl_isalpha(c) || __fsl_isdigit(c); }
int __fsl_ispunct(int c) { return c > 32 && c < 127 && !__fsl_isalnum(c); }
int __fsl_isxdigit(int c) { return __fsl_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned long long conv(const char* s, char** e, int base, int* neg, int* any)
{
    const char* p = s;
    while (__fsl_isspace((uc)*p)) ++p;
    *neg = 0; *any = 0;
    if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && __fsl_isxdigit((uc)p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    for (;; ++p) {
        int d;
        if (__fsl_isdigit((uc)*p)) d = *p - '0';
        else if (__fsl_isalpha((uc)*p)) d = __fsl_tolower((uc)*p) - 'a' + 10;
        else break;
        if (d >= base) break;
        v = v * base + d;
        *any = 1;
    }
    if (e) *e = (char*)(*any ? p : s);
    return v;
}
long __fsl_strtol(const char* s, char** e, int b) { int n, a; unsigned long long v = conv(s, e, b, &n, &a); return n ? -(long)v : (long)v; }
long long __fsl_strtoll(const char* s, char** e, int b) { return __fsl_strtol(s, e, b); }
unsigned long __fsl_strtoul(const char* s, char** e, int b) { return (unsigned long)__fsl_strtol(s, e, b); }
unsigned long long __fsl_strtoull(const char* s, char** e, int b) { return (unsigned long long)__fsl_strtol(s, e, b); }
int __fsl_atoi(const char* s) { return (int)__fsl_strtol(s, 0, 10); }
long __fsl_atol(const char* s) { return __fsl_strtol(s, 0, 10); }
void __fsl_qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*))
{
    uc* p = b;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j > 0 && c(p + (j - 1) * w, p + j * w) > 0; --j)
            for (size_t k = 0; k < w; ++k) { uc t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
void* __fsl_bsearch(const void* key, const void* b, size_t n, size_t w, int (*c)(const void*, const void*))
{
    size_t l = 0, u = n;
    while (l < u) {
        size_t i = (l + u) / 2;
        const void* p = (const char*)b + i * w;
        int r = c(key, p);
        if (r < 0) u = i;
        else if (r > 0) l = i + 1;
        else return (void*)p;
    }
    return 0;
}
