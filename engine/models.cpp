// Models of library functions that are not available as IR.  This file is compiled with the code under test and
// instrumented like it: every function here is ordinary C++ with the documented behaviour of the function it stands
// for.  sym-early redirects calls of X to __m_X.
#include "sy.h"
#include <cctype>
#include <cerrno>
#include <climits>
#include <cstddef>
#include <locale>
extern "C" {
int __m_memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    int r = 0;
    for (size_t i = n; i-- > 0;) {
        int d = (int)x[i] - (int)y[i];
        r = d ? d : r;
    }
    return r;
}
int __m_bcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    unsigned r = 0;
    for (size_t i = 0; i < n; i++) r |= (unsigned)(x[i] ^ y[i]);
    return (int)r;
}
size_t __m_strlen(const char *s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
void *__m_memchr(const void *p, int c, size_t n)
{
    const unsigned char *x = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        if (x[i] == (unsigned char)c) return (void *)(x + i);
    return 0;
}
int __m_strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) { a++; b++; }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int __m_strncmp(const char *a, const char *b, size_t n)
{
    while (n && *a && *a == *b) { a++; b++; n--; }
    return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
long __m_strtol(const char *s, char **end, int base)
{
    const char *p = s;
    while (sp(*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if (base != 10) __builtin_trap();
    bool any = false, ovf = false;
    unsigned long v = 0;
    while (*p >= '0' && *p <= '9') {
        any = true;
        unsigned long nv;
        if (__builtin_mul_overflow(v, 10ul, &nv) || __builtin_add_overflow(nv, (unsigned long)(*p - '0'), &nv)) ovf = true;
        v = nv;
        p++;
    }
    if (end) *end = (char *)(any ? p : s);
    if (!any) return 0;
    if (ovf || v > (unsigned long)LONG_MAX + (neg ? 1 : 0)) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long)(0 - v) : (long)v;
}
long __m___isoc23_strtol(const char *s, char **end, int base) { return __m_strtol(s, end, base); }
unsigned long __m_strtoul(const char *s, char **end, int base)
{
    const char *p = s;
    while (sp(*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if (base != 10) __builtin_trap();
    bool any = false, ovf = false;
    unsigned long v = 0;
    while (*p >= '0' && *p <= '9') {
        any = true;
        unsigned long nv;
        if (__builtin_mul_overflow(v, 10ul, &nv) || __builtin_add_overflow(nv, (unsigned long)(*p - '0'), &nv)) ovf = true;
        v = nv;
        p++;
    }
    if (end) *end = (char *)(any ? p : s);
    if (!any) return 0;
    if (ovf) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0 - v : v;
}
unsigned long __m___isoc23_strtoul(const char *s, char **end, int base) { return __m_strtoul(s, end, base); }
unsigned long long __m_strtoull(const char *s, char **end, int base) { return __m_strtoul(s, end, base); }
unsigned long long __m___isoc23_strtoull(const char *s, char **end, int base) { return __m_strtoul(s, end, base); }
long long __m_strtoll(const char *s, char **end, int base) { return __m_strtol(s, end, base); }
long long __m___isoc23_strtoll(const char *s, char **end, int base) { return __m_strtol(s, end, base); }
size_t __m__ZSt11_Hash_bytesPKvmm(const void *, size_t, size_t) { return 0; }
void __m_exit(int code)
{
    sy_exit(code);
    __builtin_unreachable();
}
int __m_tolower(int c) { return c + ((c >= 'A' && c <= 'Z') ? 32 : 0); }
int __m_toupper(int c) { return c - ((c >= 'a' && c <= 'z') ? 32 : 0); }
int __m_isspace(int c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }
int __m_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int __m_isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
int __m_isalnum(int c) { return (((c | 32) >= 'a') & ((c | 32) <= 'z')) | ((c >= '0') & (c <= '9')); }
int __m_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int __m_islower(int c) { return (c >= 'a') & (c <= 'z'); }
static char ctLower(const void *, char c) { return c + ((c >= 'A' && c <= 'Z') ? 32 : 0); }
static char ctUpper(const void *, char c) { return c - ((c >= 'a' && c <= 'z') ? 32 : 0); }
void *__sy_model_tolower = (void *)&ctLower;
void *__sy_model_toupper = (void *)&ctUpper;
// locale::classic is used everywhere: the character class test of ctype<char> in the "C" locale, on ASCII
}
