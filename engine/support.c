/* C library functions the engine executes symbolically (compiled to IR, linked to every harness module). */
typedef unsigned long sz;
sz strlen(const char *s) { sz n = 0; while (s[n]) n++; return n; }
sz strnlen(const char *s, sz m) { sz n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, sz n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char *strcpy(char *d, const char *s) { sz i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, sz n) { sz i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, sz n) { char *e = d + strlen(d); sz i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int memcmp(const void *p, const void *q, sz n) { const unsigned char *a = p, *b = q; for (sz i = 0; i < n; i++) if (a[i] != b[i]) return a[i] - b[i]; return 0; }
int bcmp(const void *p, const void *q, sz n) { return memcmp(p, q, n); }
void *memchr(const void *p, int c, sz n) { const unsigned char *a = p; for (sz i = 0; i < n; i++) if (a[i] == (unsigned char)c) return (void *)(a + i); return 0; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
double fabs(double x) { return x < 0 ? -x : x; }
double trunc(double x) { return fabs(x) < 4e18 ? (double)(long)x : x; }
double floor(double x) { double t = trunc(x); return t > x ? t - 1 : t; }
double ceil(double x) { double t = trunc(x); return t < x ? t + 1 : t; }
int vps_ctpop64(unsigned long x) { int n = 0; for (int i = 0; i < 64; i++) n += (int)(x >> i & 1); return n; }
int vps_cttz64(unsigned long x) { int n = 0; while (n < 64 && !(x >> n & 1)) n++; return n; }
int vps_ctlz64(unsigned long x) { int n = 0; while (n < 64 && !(x >> (63 - n) & 1)) n++; return n; }
