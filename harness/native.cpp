// Native side of the harness interface: the inputs come from a replay file (argv[1]), one "name#n value" per line.
#include "sx.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
#include <cerrno>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#ifdef SX_THREADS
#include "coop.h"
#endif
static std::map<std::string, long>& vals() { static std::map<std::string, long> m; return m; }
static std::map<std::string, int>& cnt() { static std::map<std::string, int> m; return m; }
static std::string scratch;
long sx_native_value(const char* name, long lo) { std::string k = std::string(name) + "#" + std::to_string(cnt()[name]++); auto it = vals().find(k); return it == vals().end() ? lo : it->second; }
static void leave(int code) { fflush(stdout); fflush(stderr); _exit(code); }
extern "C" {
long (*sx_clock_hook)(void) = nullptr;
int sx_int(const char* n, int lo, int) { return (int)sx_native_value(n, lo); }
long sx_long(const char* n, long lo, long) { return sx_native_value(n, lo); }
int sx_choose(const char* n, int lo, int) { return (int)sx_native_value(n, lo); }
double sx_double(const char* n, long lo, long, int sc) { return std::ldexp((double)sx_native_value(n, lo), -sc); }
double sx_menu(const char* n, const double* v, int) { return v[sx_native_value(n, 0)]; }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME-FALSE\n"); leave(98); } }
void sx_assert(int c, const char* m) { if (!c) { printf("SX-VIOLATION assert: %s\n", m); leave(99); } }
void sx_fail(const char* m) { sx_assert(0, m); }
void sx_reach(const char* l) { printf("SX-REACH %s\n", l); }
int sx_close(double a, double b, double e) { return std::fabs(a - b) <= e || a == b || (a != a && b != b); }
int sx_same_d(double a, double b) { return a == b || (a != a && b != b); }
int sx_and(int a, int b) { return a && b; } int sx_or(int a, int b) { return a || b; } int sx_not(int a) { return !a; } int sx_implies(int a, int b) { return !a || b; }
double sx_ite_d(int c, double a, double b) { return c ? a : b; } int sx_ite_i(int c, int a, int b) { return c ? a : b; }
double sx_min(double a, double b) { return a < b ? a : b; } double sx_max(double a, double b) { return a > b ? a : b; }
long sx_concretize(long v) { return v; }
void sx_merge_mode(int) {}
int sx_native(void) { return 1; }
void sx_observe(const char* l, double v) { unsigned long b; std::memcpy(&b, &v, 8); if (v != v) b = 0x7ff8000000000000ul; if (v == 0) b = 0; printf("SX-OBS %s %016lx\n", l, b); }
const char* sx_path(const char* n) { static std::string s; s = scratch + "/" + n; return s.c_str(); }
// failing reads and writes of files: the calls the stream library makes are replaced
static long gRoom = -1, gBadAt = -1; static int gGood = 0, gPasses = 0;
void sx_disk_room(long n) { gRoom = n; }
void sx_read_error_at(long n, int good) { gBadAt = n; gGood = good; gPasses = 0; }
ssize_t write(int fd, const void* p, size_t n) {
  if (gRoom >= 0 && fd > 2) { long at = syscall(SYS_lseek, fd, 0L, SEEK_CUR); if (at >= 0) { if (at >= gRoom) { errno = ENOSPC; return -1; } if ((long)n > gRoom - at) n = gRoom - at; } }
  return syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (gRoom < 0 || fd <= 2) return syscall(SYS_writev, fd, v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0; }
ssize_t read(int fd, void* p, size_t n) {
  if (gBadAt >= 0 && fd > 2) { long at = syscall(SYS_lseek, fd, 0L, SEEK_CUR); if (at == 0) gPasses++; if (at >= 0 && gPasses > gGood) { if (at >= gBadAt) { errno = EIO; return -1; } if ((long)n > gBadAt - at) n = gBadAt - at; } }
  return syscall(SYS_read, fd, p, n); }
int sx_file_exists(const char* p) { struct stat st; return stat(p, &st) == 0; }
}
// heap accounting
static long gBytes, gObjs;
extern "C" { long sx_live_bytes(void) { return __atomic_load_n(&gBytes, __ATOMIC_RELAXED); } long sx_live_objects(void) { return __atomic_load_n(&gObjs, __ATOMIC_RELAXED); } }
#ifdef SX_COUNT_HEAP
static void* get(size_t n) { size_t* p = (size_t*)malloc(n + 16); if (!p) throw std::bad_alloc(); p[0] = n; memset(p + 2, 0xcd, n); __atomic_add_fetch(&gBytes, (long)n, __ATOMIC_RELAXED); __atomic_add_fetch(&gObjs, 1, __ATOMIC_RELAXED); return p + 2; }
static void put(void* q) { if (!q) return; size_t* p = (size_t*)q - 2; __atomic_sub_fetch(&gBytes, (long)p[0], __ATOMIC_RELAXED); __atomic_sub_fetch(&gObjs, 1, __ATOMIC_RELAXED); free(p); }
void* operator new(size_t n) { return get(n); } void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); } void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); } void operator delete[](void* p, size_t) noexcept { put(p); }
#endif
namespace std { namespace chrono { inline namespace _V2 {
static long real_ns(clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock_hook ? sx_clock_hook() : real_ns(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock_hook ? sx_clock_hook() : real_ns(CLOCK_MONOTONIC))); }
} } }
int main(int argc, char** argv) {
  cnt();                                     // before any thread exists
  if (argc < 3) return 2;
  FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  char n[512]; long v; while (fscanf(f, "%511s %ld", n, &v) == 2) vals()[n] = v;
  fclose(f);
  scratch = argv[2];
  try { 
#ifdef SX_THREADS
    coop::start();
#endif
    sx_main(); }
  catch (std::exception& e) { printf("SX-VIOLATION uncaught: %s\n", e.what()); leave(99); }
  catch (...) { printf("SX-VIOLATION uncaught\n"); leave(99); }
  printf("SX-DONE\n"); leave(0);
}
