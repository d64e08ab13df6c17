#include "mem.h"
#include <malloc.h>
#include <openssl/crypto.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static mem_t now;
static long fail_n = -1, fail_2, count;
static int fail_which;
static bool fail_persist, failed;

#define TAB (1 << 18)
static void *tab[TAB];
static long tombs;
static void *site[TAB];
static size_t size[TAB];
static unsigned slot(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % TAB; }
static void add(void *p, size_t n, void *s)
{
  if (!p) return;
  unsigned i = slot(p);
  while (tab[i] && tab[i] != (void *)1) i = (i + 1) % TAB;
  tab[i] = p;
  site[i] = s;
  size[i] = n;
  now.lib++;
  now.bytes += (long)n;
}
static bool del(void *p)
{
  unsigned i = slot(p), k = 0;
  while (tab[i] && tab[i] != p && k++ < TAB) i = (i + 1) % TAB;
  if (tab[i] != p) return false;
  tab[i] = tab[(i + 1) % TAB] ? (void *)1 : NULL;
  if (tab[i]) tombs++;
  now.lib--;
  now.bytes -= (long)size[i];
  return true;
}
static bool fails(int w)
{
  if (!(fail_which & w)) return false;
  long k = count++;
  if (fail_n < 0 || (fail_persist ? k < fail_n : k != fail_n && k != fail_2)) return false;
  failed = true;
  return true;
}
bool mem_fails(int w) { return fails(w); }
void *mc_malloc(size_t n)
{
  if (fails(1)) return NULL;
  void *p = malloc(n);
  add(p, n, __builtin_return_address(0));
  return p;
}
void *mc_calloc(size_t n, size_t m)
{
  if (fails(1)) return NULL;
  void *p = calloc(n, m);
  add(p, n * m, __builtin_return_address(0));
  return p;
}
void *mc_realloc(void *p, size_t n)
{
  if (fails(1)) return NULL;
  if (p) del(p);
  void *q = realloc(p, n);
  add(q, n, __builtin_return_address(0));
  return q;
}
void mc_free(void *p)
{
  if (p && !del(p)) now.ssl--; /* Made by OpenSSL, or ASan will tell. */
  free(p);
}
char *mc_strdup(const char *s)
{
  char *p = mc_malloc(strlen(s) + 1);
  if (p) strcpy(p, s);
  return p;
}
int mc_printf(const char *fmt, ...)
{
  static char b[70000];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof(b), fmt, a);
  va_end(a);
  return n;
}
int mc_vprintf(const char *fmt, va_list a)
{
  static char b[70000];
  return vsnprintf(b, sizeof(b), fmt, a);
}

static void *ssl_malloc(size_t n, const char *f, int l)
{
  if (!n || fails(2)) return NULL;
  now.ssl++;
  return malloc(n);
}
static void *ssl_realloc(void *p, size_t n, const char *f, int l)
{
  if (n && fails(2)) return NULL;
  if (!p && n) now.ssl++;
  if (p && !n) now.ssl--;
  if (!n) { free(p); return NULL; }
  return realloc(p, n);
}
static void ssl_free(void *p, const char *f, int l)
{
  if (p) {
    now.ssl--;
    memset(p, 0xdd, malloc_usable_size(p));
    __asm__ volatile("" : : "r"(p) : "memory"); /* use after free inside OpenSSL will show */
  }
  free(p);
}
void mem_init(void) { if (!CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free)) abort(); }
mem_t mem_now(void) { return now; }
void mem_forget(void)
{
  if (now.lib || tombs > TAB / 16) {
    memset(tab, 0, sizeof(tab));
    tombs = 0;
  }
  now.lib = now.bytes = 0;
}
void mem_fail_at(long n, int which, bool persistent)
{
  fail_n = n;
  fail_2 = -1;
  fail_which = which;
  fail_persist = persistent;
  count = 0;
  failed = false;
}
void mem_fail_too(long n) { fail_2 = n; }
long mem_count(void) { return count; }
bool mem_failed(void) { return failed; }
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
const char *mem_leaks(void)
{
  static char b[1200];
  size_t n = 0;
  int k = 0;
  b[0] = 0;
  for (int i = 0; i < TAB && n < 900; i++)
    if (tab[i] && tab[i] != (void *)1 && k++ < 4) {
      char s[200] = "";
      __sanitizer_symbolize_pc(site[i], "%f %S", s, sizeof(s));
      n += snprintf(b + n, sizeof(b) - n, "%s%zu bytes allocated by %s", n ? ", " : "", size[i], s);
    }
  return b;
}
