// Instrumented replacements for libc text routines, so that symbolic text forks on its bytes.
#include <errno.h>
#include <limits.h>
#include <stddef.h>
int symc_isspace(int c) { return c == ' ' || (unsigned)(c - '\t') < 5; }
int symc_isdigit(int c) { return (unsigned)(c - '0') < 10; }
int symc_isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int symc_isalnum(int c) { return symc_isdigit(c) || symc_isalpha(c); }
int symc_tolower(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
int symc_toupper(int c) { return (unsigned)(c - 'a') < 26 ? c - 32 : c; }
char * symc_strchr(const char * s, int c)
{
  for (;; s++) {
    if (*s == (char)c) return (char *)s;
    if (!*s) return NULL;
  }
}
static int digit(int c)
{
  if ((unsigned)(c - '0') < 10) return c - '0';
  if ((unsigned)(c - 'a') < 26) return c - 'a' + 10;
  if ((unsigned)(c - 'A') < 26) return c - 'A' + 10;
  return 99;
}
static unsigned long conv(const char * s, char ** end, int base, int sgn)
{
  const char * p = s;
  while (symc_isspace((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; }
  else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digit((unsigned char)p[2]) < 16) {
    p += 2;
    base = 16;
  } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  int any = 0, over = 0;
  for (;; p++) {
    int d = digit((unsigned char)*p);
    if (d >= base) break;
    any = 1;
    unsigned long nv;
    if (__builtin_mul_overflow(v, (unsigned long)base, &nv) || __builtin_add_overflow(nv, (unsigned long)d, &nv)) over = 1;
    v = nv;
  }
  if (end) *end = (char *)(any ? p : s);
  if (!any) return 0;
  if (sgn) {
    unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
    if (over || v > lim) { errno = ERANGE; return neg ? (unsigned long)LONG_MIN : (unsigned long)LONG_MAX; }
  } else if (over) { errno = ERANGE; return ULONG_MAX; }
  return neg ? -v : v;
}
long symc_strtol(const char * s, char ** e, int b) { return (long)conv(s, e, b, 1); }
unsigned long symc_strtoul(const char * s, char ** e, int b) { return conv(s, e, b, 0); }
long long symc_strtoll(const char * s, char ** e, int b) { return (long long)conv(s, e, b, 1); }
unsigned long long symc_strtoull(const char * s, char ** e, int b) { return conv(s, e, b, 0); }
