// The part of the C and C++ runtime the code under test needs, in a form the interpreter can execute.
#include <sx_stream.h>
#include <sx_thread.h>
#include <chrono>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <map>
#include <list>
#include <unordered_map>
#include <vector>
#include <cstring>
#include <cerrno>
#include <cctype>
#include <cstdarg>
#include <bits/functexcept.h>

template class std::basic_string<char>;
template std::ostream& std::operator<<(std::ostream&, const std::string&);

extern "C" {
void __sx_throw_bad_alloc();
double __sx_host_strtod(const char* s, long* consumed, int* erange);
void sx_fail(const char*);
long (*sx_clock_hook)() = nullptr;
unsigned sx_cores = 2;
int isspace(int);
}

// ---- exceptions --------------------------------------------------------------------------------
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dup_(const char* s) { size_t n = strlen(s); char* p = new char[n + 1]; memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dup_("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dup_(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(dup_(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup_(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { delete[] _M_p; _M_p = dup_(o._M_p); } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dup_(""); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define BASE(X) X::X(const string& s) : _M_msg(s) {} X::X(const char* s) : _M_msg(s, 0) {} X::X(X&& o) noexcept : _M_msg(std::move(o._M_msg)) {} X& X::operator=(X&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } X::X(const X& o) noexcept : _M_msg(o._M_msg) {} X& X::operator=(const X& o) noexcept { _M_msg = o._M_msg; return *this; } X::~X() noexcept {} const char* X::what() const noexcept { return _M_msg._M_p; }
BASE(runtime_error) BASE(logic_error)
#define DER(X, B) X::X(const string& s) : B(s) {} X::X(const char* s) : B(s) {} X::~X() noexcept {}
DER(invalid_argument, logic_error) DER(out_of_range, logic_error) DER(length_error, logic_error) DER(domain_error, logic_error) DER(range_error, runtime_error) DER(overflow_error, runtime_error) DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw runtime_error("bad_exception"); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
}
extern "C" { void __sx_throw_bad_alloc() { throw std::bad_alloc(); } void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); } void __cxa_bad_cast() { throw std::bad_cast(); } }

// ---- red-black tree ------------------------------------------------------------------------------
namespace std {
typedef _Rb_tree_node_base N;
static N* inc(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static N* dec(N* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
N* _Rb_tree_increment(N* x) throw() { return inc(x); } const N* _Rb_tree_increment(const N* x) throw() { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return dec(x); } const N* _Rb_tree_decrement(const N* x) throw() { return dec(const_cast<N*>(x)); }
static void rotl(N* x, N*& root) { N* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(N* x, N*& root) { N* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  N*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N* xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      N* y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      N* y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
// Removal without recolouring: the tree stays a correct search tree, only its balance is not maintained.
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  N*& root = h._M_parent; N*& lm = h._M_left; N*& rm = h._M_right;
  N *nl = z == lm ? inc(z) : lm, *nr = z == rm ? (z == lm ? &h : dec(z)) : rm;
  N* x;
  auto repl = [&](N* a, N* b) { if (root == a) root = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (!z->_M_left) { x = z->_M_right; repl(z, x); }
  else if (!z->_M_right) { x = z->_M_left; repl(z, x); }
  else {
    N* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
  }
  if (!root) { lm = &h; rm = &h; } else { lm = nl; rm = nr; root->_M_color = _S_black; }
  return z;
}
}

// ---- numbers as text -----------------------------------------------------------------------------
static const char MARK[] = "7.000777";
static const int MARKN = 8, MARKD = 5;
static double gMark[20000]; static int gMarks;
static bool isMark(const char* s, size_t n) { if (n < (size_t)(MARKN + MARKD)) return false; for (int i = 0; i < MARKN; i++) if (s[i] != MARK[i]) return false; return true; }
static double markValue(const char* s) { int id = 0; for (int i = 0; i < MARKD; i++) id = id * 10 + (s[MARKN + i] - '0'); return gMark[id]; }
namespace sx {
void fmt_uint(std::string& out, unsigned long v) { v = (unsigned long)sx_concretize((long)v); char b[24]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); while (n) out.push_back(b[--n]); }
void fmt_int(std::string& out, long v) { v = sx_concretize(v); if (v < 0) { out.push_back('-'); fmt_uint(out, -(unsigned long)v); } else fmt_uint(out, v); }
void fmt_double(std::string& out, double d, int prec, int mode) {
  if (gMarks >= 20000) sx_fail("marks exhausted");
  gMark[gMarks] = __sx_roundtrip(d, prec, mode);
  char b[MARKD]; int v = gMarks++; for (int i = MARKD - 1; i >= 0; i--) { b[i] = '0' + v % 10; v /= 10; }
  out.append(MARK, MARKN); out.append(b, MARKD);
}
bool parse_int(const std::string& s, size_t& pos, long& v) {
  size_t p = pos, n = s.size(); bool neg = false; 
  if (p < n && ((char)sx_concretize(s[p]) == '-' || (char)sx_concretize(s[p]) == '+')) { neg = s[p] == '-'; p++; }
  bool any = false, over = false; unsigned long x = 0;
  while (p < n) { char c = (char)sx_concretize(s[p]); if (c < '0' || c > '9') break; any = true; if (x > 900000000000000000ul) over = true; else x = x * 10 + (c - '0'); p++; }
  pos = p; if (!any) return false; v = over ? (neg ? -9223372036854775807L : 9223372036854775807L) : neg ? -(long)x : (long)x; return true;
}
static long scan(const char* s, size_t n, double& d, int& erange, bool stream) {
  erange = 0;
  if (isMark(s, n)) { d = markValue(s); if (stream && !(d - d == 0)) return 0; return MARKN + MARKD; }
  // short plain decimals are read without fixing their digits (integer / power of ten rounds correctly); anything else by the host
  { size_t k = 0, m = n; bool neg = false, any = false, plain = true; long x = 0; double p10 = 1; int dig = 0;
    if (m && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; k = 1; }
    while (k < m && s[k] >= '0' && s[k] <= '9') { x = x * 10 + ((s[k] - '0') & 15); any = true; dig++; k++; if (dig > 8) { plain = false; break; } }
    if (plain && k < m && s[k] == '.') { size_t dot = k++; while (k < m && s[k] >= '0' && s[k] <= '9') { x = x * 10 + ((s[k] - '0') & 15); p10 *= 10; any = true; dig++; k++; if (dig > 8) { plain = false; break; } } if (!any) k = dot; }
    if (plain && k < m) { char c = s[k]; if (c == 'e' || c == 'E' || c == 'x' || c == 'X' || (!any && (c == 'i' || c == 'I' || c == 'n' || c == 'N'))) plain = false; }
    if (plain) { if (!any) return 0; d = (double)(neg ? -x : x) / p10; return k; } }
  char b[400]; size_t k = 0; 
  while (k < n && k < 399) { char c = (char)sx_concretize(s[k]); if (!c || (stream && !((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E'))) break; b[k++] = c; }
  b[k] = 0; long used = 0; d = __sx_host_strtod(b, &used, &erange); return used;
}
bool parse_double(const std::string& s, size_t& pos, double& d) { int er; long n = scan(s.data() + pos, s.size() - pos, d, er, true); pos += n; return n > 0 && !(er && !(d - d == 0)); }
}
extern "C" double strtod(const char* s, char** end) {
  const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  size_t n = 0; while (p[n]) n++;
  double d = 0; int er; long used = sx::scan(p, n, d, er, false);
  if (end) *end = (char*)(used ? p + used : s);
  if (er) errno = ERANGE;
  return used ? d : 0;
}
extern "C" float strtof(const char* s, char** e) { return (float)strtod(s, e); }
extern "C" long strtol(const char* s, char** end, int) { const char* p = s; while (isspace((char)sx_concretize(*p))) p++; std::string t(p); size_t pos = 0; long v = 0; bool ok = sx::parse_int(t, pos, v); if (end) *end = (char*)(ok ? p + pos : s); return ok ? v : 0; }

// ---- files and streams ---------------------------------------------------------------------------
namespace sx {
struct FileEnt { std::string name; File f; FileEnt* next; };
static FileEnt* gFiles; long gRoom = -1, gBadAt = -1, gGood = 0;
File* file_find(const std::string& n) { for (FileEnt* e = gFiles; e; e = e->next) if (e->name == n) return &e->f; return 0; }
File* file_create(const std::string& n) { if (n.empty() || n.find("/missing/") != std::string::npos) return 0; File* f = file_find(n); if (!f) { FileEnt* e = new FileEnt; e->name = n; e->next = gFiles; gFiles = e; f = &e->f; } f->data.clear(); return f; }
}
namespace std {
ostream cout((std::string*)0), cerr((std::string*)0), clog((std::string*)0); istream cin((const std::string*)0);
template <> basic_istream<char>& operator>>(basic_istream<char>& i, std::string& s) {
  s.clear(); if (!i.sentry_()) return i;
  while (i.pos_ < i.i_->size() && !i.sp_((*i.i_)[i.pos_])) s.push_back((*i.i_)[i.pos_++]);
  i.endcheck_(); return i;
}
template <> basic_istream<char>& getline(basic_istream<char>& i, std::string& s, char d) {
  s.clear(); if (i.st_) { i.st_ |= ios_base::failbit; return i; }
  if (!i.i_ || i.pos_ >= i.i_->size()) { i.end_(ios_base::eofbit | ios_base::failbit); return i; }
  for (;;) { if (i.pos_ >= i.i_->size()) { i.end_(ios_base::eofbit); break; } char c = (*i.i_)[i.pos_++]; if (c == d) break; s.push_back(c); }
  return i;
}
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock_hook ? sx_clock_hook() : 0)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock_hook ? sx_clock_hook() : 0)); }
} }
}
extern "C" { char* sx_path_buf; const char* sx_path(const char* n) { static char b[256]; strcpy(b, "/mem/"); strcpy(b + 5, n); return b; }
void sx_disk_room(long n) { sx::gRoom = n; } void sx_read_error_at(long n, int good) { sx::gBadAt = n; sx::gGood = good; }
int sx_file_exists(const char* p) { return sx::file_find(p) != 0; }
int remove(const char* p) { for (sx::FileEnt** e = &sx::gFiles; *e; e = &(*e)->next) if ((*e)->name == p) { sx::FileEnt* d = *e; *e = d->next; delete d; return 0; } return -1; }
int unlink(const char* p) { return remove(p); }
int rename(const char* a, const char* b) { sx::File* f = sx::file_find(a); if (!f) return -1; std::string t = f->data; sx::File* g = sx::file_create(b); if (!g) return -1; g->data = t; remove(a); return 0; } }
// hashing and bucket counts as the real library computes them, so that both give the same order of iteration
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const size_t mul = 0xc6a4a7935bd1e995ull; const unsigned char* b = (const unsigned char*)p; size_t h = seed ^ (n * mul), i = 0;
  auto mix = [](size_t v) { return v ^ (v >> 47); };
  for (; i + 8 <= n; i += 8) { size_t d = 0; for (int k = 7; k >= 0; k--) d = (d << 8) | b[i + k]; h ^= mix(d * mul) * mul; h *= mul; }
  if (n & 7) { size_t d = 0; for (size_t k = n; k-- > i;) d = (d << 8) | b[k]; h ^= d; h *= mul; }
  return mix(mix(h) * mul); }
namespace __detail {
static const unsigned long primes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; size_t r;
  if (n < sizeof fast) { if (n == 0) return 1; r = fast[n]; } else { size_t i = 0; while (i < sizeof primes / sizeof *primes && primes[i] < n) i++; if (i == sizeof primes / sizeof *primes) abort(); r = primes[i]; }
  _M_next_resize = (size_t)__builtin_floor((double)r * (double)_M_max_load_factor); return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t ins) const {
  if (e + ins <= _M_next_resize) return make_pair(false, (size_t)0);
  size_t want = e + ins; if (!_M_next_resize && want < 11) want = 11;
  double m = (double)want / (double)_M_max_load_factor;
  if (m >= (double)b) { size_t k = (size_t)__builtin_floor(m) + 1; if (k < b * 2) k = b * 2; return make_pair(true, _M_next_bkt(k)); }
  _M_next_resize = (size_t)__builtin_floor((double)b * (double)_M_max_load_factor); return make_pair(false, (size_t)0); }
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool xe = x._M_next == &x, ye = y._M_next == &y; _List_node_base a = x, b = y;
  if (ye) y._M_next = y._M_prev = &y; if (xe) x._M_next = x._M_prev = &x;
  if (!xe) { y._M_next = a._M_next; y._M_prev = a._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else y._M_next = y._M_prev = &y;
  if (!ye) { x._M_next = b._M_next; x._M_prev = b._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; } else x._M_next = x._M_prev = &x; }
}
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __sx_exc_incref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { __sx_exc_decref(_M_exception_object); _M_exception_object = 0; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { return exception_ptr(__sx_current_exception()); }
void rethrow_exception(exception_ptr p) { __sx_rethrow(p._M_get()); abort(); }
}
// ---- formatted output to memory ------------------------------------------------------------------
extern "C" int vsnprintf(char* b, size_t cap, const char* f, va_list ap) {
  std::string o;
  for (; *f; f++) {
    if (*f != '%') { o.push_back(*f); continue; }
    f++; bool left = false, zero = false; long width = 0, prec = -1; int l = 0;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f != '+' && *f != ' ' && *f != '#') break; else sx_fail("format flag not modelled"); }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { prec = 0; f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') l++; f++; }
    std::string t;
    switch (*f) {
      case '%': t = "%"; break;
      case 'c': t.push_back((char)va_arg(ap, int)); break;
      case 's': { const char* s = va_arg(ap, const char*); while (*s && (prec < 0 || (long)t.size() < prec)) t.push_back(*s++); break; }
      case 'd': case 'i': sx::fmt_int(t, l ? va_arg(ap, long) : (long)va_arg(ap, int)); break;
      case 'u': sx::fmt_uint(t, l ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned)); break;
      case 'f': sx::fmt_double(t, va_arg(ap, double), prec < 0 ? 6 : (int)prec, std::ios_base::fixed); break;
      case 'e': sx::fmt_double(t, va_arg(ap, double), prec < 0 ? 6 : (int)prec, std::ios_base::scientific); break;
      case 'g': sx::fmt_double(t, va_arg(ap, double), prec < 0 ? 6 : (int)prec, 0); break;
      default: sx_fail("format not modelled");
    }
    if ((long)t.size() < width) { size_t pad = width - t.size(); if (left) t.append(pad, ' '); else t.insert(0, pad, zero ? '0' : ' '); }
    o += t;
  }
  if (cap) { size_t n = o.size() < cap - 1 ? o.size() : cap - 1; memcpy(b, o.data(), n); b[n] = 0; }
  return (int)o.size();
}
extern "C" int snprintf(char* b, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
extern "C" int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
