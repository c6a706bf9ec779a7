// Character and string functions in a form the interpreter can execute.
#include <stddef.h>
double strtod(const char*, char**); long __isoc23_strtol(const char*, char**, int); _Noreturn void abort(void); void free(void*), *malloc(size_t), *memcpy(void*, const void*, size_t), *memmove(void*, const void*, size_t); double round(double), nearbyint(double), sqrt(double), fabs(double), fmax(double, double), fmin(double, double);
typedef struct FILE FILE;
char __libc_single_threaded = 0;
FILE *stderr, *stdout, *stdin;
int fputc(int c, FILE*) { return c; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) { const unsigned char* x = (const unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return 0; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* a, const char* b) { size_t n = strlen(b); for (; ; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* d, char** save) { if (!s) s = *save; s += strspn(s, d); if (!*s) { *save = s; return 0; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *save = e; return s; }
char* strtok(char* s, const char* d) { static char* save; return strtok_r(s, d, &save); }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower(*a) == tolower(*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (tolower(*a) != tolower(*b)) return tolower((unsigned char)*a) - tolower((unsigned char)*b); if (!*a) break; } return 0; }
void qsort(void* b, size_t n, size_t w, int (*f)(const void*, const void*)) {
  char *p = (char*)b, *t = (char*)malloc(w);
  for (size_t i = 1; i < n; i++) { size_t j = i; while (j > 0 && f(p + (j - 1) * w, p + i * w) > 0) j--; if (j < i) { memcpy(t, p + i * w, w); memmove(p + (j + 1) * w, p + j * w, (i - j) * w); memcpy(p + j * w, t, w); } }
  free(t); }
void* bsearch(const void* k, const void* b, size_t n, size_t w, int (*f)(const void*, const void*)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char* p = (const char*)b + m * w; int c = f(k, p); if (!c) return (void*)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
long time(long* t) { if (t) *t = 0; return 0; }
long clock(void) { return 0; }
char* getenv(const char*) { return 0; }
long lround(double x) { return (long)round(x); }
long long llround(double x) { return (long long)round(x); }
long lrint(double x) { return (long)nearbyint(x); }
double ldexp(double x, int e) { while (e > 0) x *= 2, e--; while (e < 0) x /= 2, e++; return x; }
float sqrtf(float x) { return (float)sqrt(x); }
float fabsf(float x) { return (float)fabs(x); }
float fmaxf(float x, float y) { return (float)fmax(x, y); }
float fminf(float x, float y) { return (float)fmin(x, y); }
long __isoc23_strtoll(const char* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
long strtoll(const char* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return (unsigned long)__isoc23_strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)__isoc23_strtol(s, e, b); }
long atol(const char* s) { return __isoc23_strtol(s, 0, 10); }
void __assert_fail(const char*, const char*, unsigned, const char*) { abort(); }
double atof(const char* s) { return strtod(s, 0); }
int atoi(const char* s) { return (int)__isoc23_strtol(s, 0, 10); }
