/* C library functions, as plain C for the symbolic executor */
#include <stddef.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char *a, const char *b, size_t n) { size_t i = 0; if (!n) return 0; while (i + 1 < n && a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (;;) { d[i] = s[i]; if (!s[i]) break; i++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
static int in_set(char c, const char *d) { for (; *d; d++) if (*d == c) return 1; return 0; }
char *strtok_r(char *s, const char *d, char **sv) {
  if (!s) s = *sv;
  if (!s) return 0;
  while (*s && in_set(*s, d)) s++;
  if (!*s) { *sv = s; return 0; }
  char *r = s;
  while (*s && !in_set(*s, d)) s++;
  if (*s) { *s = 0; s++; }
  *sv = s;
  return r;
}
static char *vs_tok_save;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &vs_tok_save); }
size_t strspn(const char *s, const char *d) { size_t n = 0; while (s[n] && in_set(s[n], d)) n++; return n; }
size_t strcspn(const char *s, const char *d) { size_t n = 0; while (s[n] && !in_set(s[n], d)) n++; return n; }
char *strpbrk(const char *s, const char *d) { s += strcspn(s, d); return *s ? (char *)s : 0; }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; size_t n = strcspn(s, d); if (s[n]) { s[n] = 0; *sp = s + n + 1; } else *sp = 0; return s; }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
static const unsigned short vs_ctype[384] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,8195,8194,8194,8194,8194,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,24577,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,55304,55304,55304,55304,55304,55304,55304,55304,55304,55304,49156,49156,49156,49156,49156,49156,49156,54536,54536,54536,54536,54536,54536,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,49156,49156,49156,49156,49156,49156,54792,54792,54792,54792,54792,54792,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,49156,49156,49156,49156,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const unsigned short *vs_ctype_p = vs_ctype + 128;
const unsigned short **__ctype_b_loc(void) { return &vs_ctype_p; }
int abs(int x) { return x < 0 ? -x : x; }
