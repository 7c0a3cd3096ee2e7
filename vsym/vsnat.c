/* native replay of a harness: inputs come from the file named by VS_INPUTS ("b3 1", "s2 -4", "t7 123", decimal) */
#define _POSIX_C_SOURCE 200809L
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "vs.h"
static char kinds[65536]; static int ids[65536]; static unsigned long long vals[65536]; static int n = -1;
static int failed = 0;
static void load(void) {
  if (n >= 0) return;
  n = 0;
  const char *f = getenv("VS_INPUTS");
  FILE *fp = f ? fopen(f, "r") : 0;
  if (!fp) return;
  char k; int id; long long v;
  char tok[64];
  while (n < 65536 && fscanf(fp, " %c%d %63s", &k, &id, tok) == 3) {
    v = tok[0] == '-' ? strtoll(tok, 0, 10) : (long long)strtoull(tok, 0, 10);
    kinds[n] = k; ids[n] = id; vals[n] = (unsigned long long)v; n++;
  }
  fclose(fp);
}
static unsigned long long get(char k, int id, unsigned long long d) {
  load();
  for (int i = 0; i < n; i++) if (kinds[i] == k && ids[i] == id) return vals[i];
  return d;
}
_Bool vs_bool(int id) { return get('b', id, 0) != 0; }
int32_t vs_small(int id, int lo, int hi) { (void)hi; return (int32_t)get('s', id, (unsigned long long)(long long)lo); }
uint8_t vs_u8(int id) { return (uint8_t)get('t', id, 0); }
int32_t vs_i32(int id) { return (int32_t)get('t', id, 0); }
uint32_t vs_u32(int id) { return (uint32_t)get('t', id, 0); }
uint64_t vs_u64(int id) { return (uint64_t)get('t', id, 0); }
double vs_f64(int id) { uint64_t u = get('t', id, 0); double d; memcpy(&d, &u, 8); return d; }
void vs_assume(_Bool c) { if (!c) { printf("VS-ASSUME-FALSE\n"); fflush(stdout); exit(failed ? 9 : 7); } }
void vs_assert(_Bool c, const char *msg) { if (!c) { printf("VS-FAIL %s\n", msg); fflush(stdout); failed = 1; } }
void vs_reach(int id) { (void)id; }
extern int vs_main(void);
__attribute__((weak)) void vs_on_output(const char *s) { (void)s; }
/* linked with --wrap=fprintf: what the code under test prints reaches the harness hook, as in the symbolic run */
int __wrap_fprintf(FILE *f, const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); (void)f;
  vs_on_output(b);
  return n;
}
int main(void) { load(); vs_main(); printf("VS-END %d\n", failed); fflush(stdout); return failed ? 9 : 0; }
