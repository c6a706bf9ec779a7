// What a harness may say.  In the symbolic run the sx_* functions are the interpreter's; in a native replay
// they read the values of one counterexample.
#pragma once
extern "C" {
int sx_int(const char* name, int lo, int hi);              // any integer in lo..hi
long sx_long(const char* name, long lo, long hi);
int sx_choose(const char* name, int lo, int hi);           // the same, but each value is followed separately
double sx_double(const char* name, long lo, long hi, int scale);   // any k * 2^-scale with lo <= k <= hi
double sx_menu(const char* name, const double* v, int n);  // any of v[0..n-1]
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_fail(const char* msg);
void sx_reach(const char* label);                          // must be reached on some path, else the check is vacuous
int sx_close(double a, double b, double eps);              // |a-b| <= eps, or equal, or both NaN
int sx_same_d(double a, double b);                         // same value bit for bit, or both NaN
int sx_and(int a, int b); int sx_or(int a, int b); int sx_not(int a); int sx_implies(int a, int b);
double sx_ite_d(int c, double a, double b); int sx_ite_i(int c, int a, int b);
double sx_min(double a, double b); double sx_max(double a, double b);
long sx_concretize(long v);
void sx_merge_mode(int bits);                              // 1: join paths on doubles, 2: on integers, 4: on pointers
long sx_live_bytes(void); long sx_live_objects(void);      // heap in use
int sx_native(void);
void sx_observe(const char* label, double v);              // compared between the symbolic run and native execution
const char* sx_path(const char* name);                     // name of a file in scratch space
int sx_file_exists(const char* path);
void sx_disk_room(long bytes);                             // files written from now on can hold this many bytes (-1: any number)
void sx_read_error_at(long position, int good);            // files opened from now on cannot be read from this position on (-1: they can), after being read well `good` times from the start
extern long (*sx_clock_hook)(void);                        // what the system clock shows, in ns
void sx_main(void);
}
