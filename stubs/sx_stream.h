// Input/output streams as the symbolic runs see them: files are byte strings held in memory, console output
// goes nowhere.  Numbers are written as the text a real stream would give, except that a double is written
// as a mark that stands for that text and remembers the value the text reads back as.
#pragma once
#define SX_STREAMS 1
#include <iosfwd>
#include <stdexcept>
#include <cctype>
#include <cwchar>
#include <clocale>
#include <cstdio>
#include <cerrno>
#include <system_error>
#include <string>
#include <map>
#include <cstdlib>
extern "C" {
double __sx_roundtrip(double x, int precision, int mode);   // value that reading back the formatted text gives
long sx_concretize(long);
int __sx_mark_new(double v); double __sx_mark_get(int id);
}
namespace sx {
struct File { std::string data; };
extern long gRoom, gBadAt, gGood;                      // bytes a written file can hold; position from which reading fails (-1: no limit)
File* file_find(const std::string& name);
File* file_create(const std::string& name);     // null: cannot be opened for writing
void fmt_double(std::string& out, double d, int prec, int mode);
void fmt_int(std::string& out, long v); void fmt_uint(std::string& out, unsigned long v);
bool parse_double(const std::string& s, size_t& pos, double& d);
bool parse_int(const std::string& s, size_t& pos, long& v);
}
namespace std {
class ios_base {
public:
  typedef int iostate; static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  typedef int openmode; static const openmode in = 8, out = 16, binary = 4, trunc = 32, app = 1, ate = 2;
  typedef int seekdir; static const seekdir beg = 0, cur = 1, end = 2;
  typedef int fmtflags; static const fmtflags fixed = 4, scientific = 256, floatfield = 260, boolalpha = 1, skipws = 4096, dec = 2, hex = 8, oct = 64, left = 32, right = 128;
  class failure : public std::runtime_error { public: explicit failure(const std::string& s) : std::runtime_error(s) {} explicit failure(const char* s) : std::runtime_error(s) {} };
  struct State {                                  // state bits; those in the mask are reported by exception
    iostate b, mask; State() : b(0), mask(0) {}
    operator iostate() const { return b; }
    void look() { if (b & mask) throw failure("basic_ios::clear: iostream error"); }
    State& operator=(iostate s) { b = s; look(); return *this; } State& operator|=(iostate s) { b |= s; look(); return *this; } State& operator&=(iostate s) { b &= s; return *this; }
  };
  fmtflags flags_ = 0; int prec_ = 6; long width_ = 0; char fill_ = ' '; State st_; bool ws_ = true;
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void clear(iostate s = 0) { st_ = s; } void setstate(iostate s) { st_ |= s; } iostate rdstate() const { return st_; }
  void exceptions(iostate m) { st_.mask = m; st_.look(); } iostate exceptions() const { return st_.mask; }
  long precision() const { return prec_; } long precision(long p) { long o = prec_; prec_ = (int)p; return o; }
  long width() const { return width_; } long width(long w) { long o = width_; width_ = w; return o; }
  fmtflags flags() const { return flags_; } fmtflags flags(fmtflags f) { fmtflags o = flags_; flags_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = flags_; flags_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { flags_ &= ~f; }
  int dmode() const { return flags_ & floatfield; }
  static bool sync_with_stdio(bool = true) { return true; }
};
template <class C, class T> class basic_ios : public ios_base { public: char widen(char c) const { return c; } char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; } void* tie() const { return 0; } void* tie(void*) { return 0; } };
// the byte string a stream works on
template <class C, class T> class basic_streambuf {
public:
  std::string* s; size_t rp; bool null; const std::string* const* in_; size_t* pos_;      // in_, pos_: buffer of an input stream
  size_t limit = (size_t)-1; const bool* err_ = 0;
  basic_streambuf() : s(0), rp(0), null(false), in_(0), pos_(0) {} virtual ~basic_streambuf() {}
  int sgetc() { if (err_ && *err_ && *in_ && *pos_ >= (*in_)->size()) throw ios_base::failure("basic_filebuf::underflow error reading the file"); return in_ && *in_ && *pos_ < (*in_)->size() ? (int)(unsigned char)(**in_)[*pos_] : -1; }
  int sbumpc() { int c = sgetc(); if (c >= 0) ++*pos_; return c; }
  int snextc() { sbumpc(); return sgetc(); }
  long in_avail() { return in_ && *in_ ? (long)((*in_)->size() - *pos_) : 0; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type;
  std::string* o_; 
  basic_streambuf<C, T> ob_;
  basic_streambuf<C, T>* rdbuf() { ob_.s = o_; return &ob_; }
  basic_ostream& operator<<(basic_streambuf<C, T>* b) { std::string t; int c; try { while ((c = b->sbumpc()) >= 0) t.push_back((char)c); } catch (...) { this->st_ |= ios_base::failbit; } if (t.empty()) this->st_ |= ios_base::failbit; else if (o_ && !this->fail()) o_->append(t); return *this; }
  explicit basic_ostream(std::string* o = 0) : o_(o) {}
  explicit basic_ostream(basic_streambuf<C, T>* b) : o_(b ? b->s : 0) {}
  virtual ~basic_ostream() {}
  basic_ostream(const basic_ostream&) = delete; basic_ostream& operator=(const basic_ostream&) = delete;
  basic_ostream& put_(const std::string& s) { if (o_ && !this->fail()) { long pad = this->width_ - (long)s.size(); bool l = (this->flags_ & (ios_base::left | ios_base::right)) == ios_base::left; if (pad > 0 && !l) o_->append(pad, this->fill_); o_->append(s); if (pad > 0 && l) o_->append(pad, this->fill_); } this->width_ = 0; return *this; }
  basic_ostream& operator<<(int v) { std::string s; if (o_) sx::fmt_int(s, v); return put_(s); }
  basic_ostream& operator<<(short v) { return *this << (int)v; }
  basic_ostream& operator<<(unsigned short v) { return *this << (int)v; }
  basic_ostream& operator<<(long v) { std::string s; if (o_) sx::fmt_int(s, v); return put_(s); }
  basic_ostream& operator<<(long long v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned v) { std::string s; if (o_) sx::fmt_uint(s, v); return put_(s); }
  basic_ostream& operator<<(unsigned long v) { std::string s; if (o_) sx::fmt_uint(s, v); return put_(s); }
  basic_ostream& operator<<(unsigned long long v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(bool v) { if (this->flags_ & ios_base::boolalpha) return put_(v ? "true" : "false"); return *this << (int)v; }
  basic_ostream& operator<<(double v) { std::string s; if (o_) sx::fmt_double(s, v, this->prec_, this->dmode()); return put_(s); }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(const void*) { return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& put(char c) { if (o_ && !this->fail()) o_->push_back(c); return *this; }
  virtual void sync_() {}
  basic_ostream& write(const char* p, long n) { if (o_ && !this->fail()) o_->append(p, n); return *this; }
  basic_ostream& flush() { sync_(); return *this; }
  long tellp() { return o_ ? (long)o_->size() : -1; }
};
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.put_(std::string(s)); }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.put_(std::string(1, c)); }
template <class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); o.sync_(); return o; }
template <class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { o.sync_(); return o; }
template <class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { o.put('\0'); return o; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& hexfloat(ios_base& b) { b.setf(ios_base::floatfield, ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::left | ios_base::right); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::left | ios_base::right); return b; } inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& skipws(ios_base& b) { b.ws_ = true; return b; } inline ios_base& noskipws(ios_base& b) { b.ws_ = false; return b; }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type;
  const std::string* i_; size_t pos_; long gcount_; bool err_ = false;      // err_: reading past the end is an error
  void end_(ios_base::iostate s) { this->st_ |= err_ ? ios_base::badbit | (s & ~ios_base::eofbit) : s; }
  basic_streambuf<C, T> ib_;
  basic_streambuf<C, T>* rdbuf() { ib_.in_ = &i_; ib_.pos_ = &pos_; ib_.err_ = &err_; return &ib_; }
  basic_istream& putback(char) { this->st_ &= ~ios_base::eofbit; if (!this->fail()) { if (i_ && pos_) pos_--; else this->st_ |= ios_base::badbit; } return *this; }
  explicit basic_istream(const std::string* i = 0) : i_(i), pos_(0), gcount_(0) {}
  explicit basic_istream(basic_streambuf<C, T>* b) : i_(b ? b->s : 0), pos_(0), gcount_(0) {}
  virtual ~basic_istream() {}
  basic_istream(const basic_istream&) = delete; basic_istream& operator=(const basic_istream&) = delete;
  bool sentry_(bool ws = true) {
    if (this->st_) { this->st_ |= ios_base::failbit; return false; }
    if (ws && this->ws_) while (i_ && pos_ < i_->size() && sp_((*i_)[pos_])) pos_++;
    if (!i_ || pos_ >= i_->size()) { end_(ios_base::eofbit | ios_base::failbit); return false; }
    return true; }
  static bool sp_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  void endcheck_() { if (pos_ >= i_->size()) end_(ios_base::eofbit); }
  template <class N> basic_istream& int_(N& v, long lo, long hi) { if (!sentry_()) { return *this; } long x = 0; if (!sx::parse_int(*i_, pos_, x)) { v = 0; this->st_ |= ios_base::failbit; } else if (x < lo) { v = (N)lo; this->st_ |= ios_base::failbit; } else if (x > hi) { v = (N)hi; this->st_ |= ios_base::failbit; } else v = (N)x; endcheck_(); return *this; }
  basic_istream& operator>>(int& v) { return int_(v, -2147483647L - 1, 2147483647L); }
  basic_istream& operator>>(short& v) { return int_(v, -32768, 32767); }
  basic_istream& operator>>(unsigned& v) { return int_(v, 0, 4294967295L); }
  basic_istream& operator>>(long& v) { return int_(v, -9223372036854775807L - 1, 9223372036854775807L); }
  basic_istream& operator>>(unsigned long& v) { return int_(v, 0, 9223372036854775807L); }
  basic_istream& operator>>(bool& v) { int x = 0; int_(x, 0, 1); v = x; return *this; }
  basic_istream& operator>>(double& v) { if (!sentry_()) return *this; if (!sx::parse_double(*i_, pos_, v)) { v = 0; this->st_ |= ios_base::failbit; } endcheck_(); return *this; }
  basic_istream& operator>>(float& v) { double d = 0; *this >> d; v = (float)d; return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  int get() { gcount_ = 0; if (!sentry_(false)) return -1; gcount_ = 1; return (unsigned char)(*i_)[pos_++]; }
  basic_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  int peek() { if (this->st_) return -1; if (!i_ || pos_ >= i_->size()) { end_(ios_base::eofbit); return -1; } return (unsigned char)(*i_)[pos_]; }
  basic_istream& unget() { return putback(0); }
  basic_istream& ignore(long n = 1, int d = -1) { for (long k = 0; k < n; k++) { if (!i_ || pos_ >= i_->size()) { end_(ios_base::eofbit); break; } char c = (*i_)[pos_++]; if (d >= 0 && c == (char)d) break; } return *this; }
  basic_istream& read(char* p, long n) { gcount_ = 0; if (!sentry_(false)) return *this; long k = 0; while (k < n && pos_ < i_->size()) p[k++] = (*i_)[pos_++]; gcount_ = k; if (k < n) end_(ios_base::eofbit | ios_base::failbit); return *this; }
  long gcount() const { return gcount_; }
  basic_istream& seekg(long p) { this->st_ &= ~ios_base::eofbit; if (!this->fail()) { if (!i_) this->st_ |= ios_base::failbit; else { pos_ = p; if (!p) again_(); } } return *this; }
  virtual void again_() {}
  basic_istream& seekg(long p, int dir) { return seekg(dir == 0 ? p : dir == 1 ? (long)pos_ + p : (long)(i_ ? i_->size() : 0) + p); }
  long tellg() { return this->fail() || !i_ ? -1 : (long)pos_; }
};
template <class C, class T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) { while (i.i_ && i.pos_ < i.i_->size() && i.sp_((*i.i_)[i.pos_])) i.pos_++; if (i.i_) i.endcheck_(); return i; }
template <class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { if (i.sentry_()) c = (*i.i_)[i.pos_++]; return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(std::string* s = 0) : basic_istream<C, T>(s), basic_ostream<C, T>(s) {} using basic_istream<C, T>::rdbuf; };

template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
  bool open_ = false;
public:
  basic_ofstream() {}
  explicit basic_ofstream(const char* n, int m = 0) { open(std::string(n), m); }
  explicit basic_ofstream(const std::string& n, int m = 0) { open(n, m); }
  void open(const std::string& n, int m = 0) { sx::File* f = (m & ios_base::app) ? sx::file_find(n) : 0; if (!f) f = sx::file_create(n); if (!f) { this->st_ |= ios_base::failbit; return; } this->st_ = 0; this->o_ = &f->data; open_ = true; }
  void open(const char* n, int m = 0) { open(std::string(n), m); }
  bool is_open() const { return open_; }
  bool full_() { if (sx::gRoom < 0 || !this->o_ || (long)this->o_->size() <= sx::gRoom) return false; this->o_->resize(sx::gRoom); return true; }
  void sync_() override { if (full_()) this->st_ |= ios_base::badbit; }
  void close() { bool bad = !open_ || full_(); open_ = false; this->o_ = 0; if (bad) this->st_ |= ios_base::failbit; }
  ~basic_ofstream() { full_(); }
};
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
  bool open_ = false; std::string part_; int passes_ = 0;
public:
  basic_ifstream() {}
  explicit basic_ifstream(const char* n, int m = 0) { open(std::string(n), m); }
  explicit basic_ifstream(const std::string& n, int m = 0) { open(n, m); }
  void open(const std::string& n, int = 0) { sx::File* f = sx::file_find(n); if (!f) { this->st_ |= ios_base::failbit; return; } this->st_ = 0; this->i_ = &f->data; this->pos_ = 0; open_ = true; passes_ = 0; again_(); }
  void again_() override { if (sx::gBadAt >= 0 && ++passes_ > sx::gGood && !this->err_) { part_ = this->i_->substr(0, sx::gBadAt); this->i_ = &part_; this->err_ = true; } }
  void open(const char* n, int m = 0) { open(std::string(n), m); }
  bool is_open() const { return open_; }
  void close() { if (!open_) this->st_ |= ios_base::failbit; open_ = false; this->i_ = 0; }
};
template <class C, class T> class basic_fstream : public basic_iostream<C, T> {
  bool open_ = false;
public:
  basic_fstream() {}
  explicit basic_fstream(const std::string& n, int m = 24) { open(n, m); }
  void open(const std::string& n, int m = 24) { sx::File* f = (m & ios_base::trunc) || !(m & ios_base::in) ? sx::file_create(n) : sx::file_find(n); if (!f) { this->st_ |= ios_base::failbit; return; } this->st_ = 0; if (m & ios_base::in) this->i_ = &f->data; if (m & ios_base::out) this->o_ = &f->data; open_ = true; }
  bool is_open() const { return open_; }
  void close() { open_ = false; this->i_ = 0; this->o_ = 0; }
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { std::string b_; public: basic_ostringstream() { this->o_ = &b_; } explicit basic_ostringstream(const std::string& s) : b_(s) { this->o_ = &b_; } std::string str() const { return b_; } void str(const std::string& s) { b_ = s; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { std::string b_; public: basic_istringstream() { this->i_ = &b_; } explicit basic_istringstream(const std::string& s, int = 0) : b_(s) { this->i_ = &b_; } std::string str() const { return b_; } void str(const std::string& s) { b_ = s; this->pos_ = 0; } };
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { std::string b_; public: basic_stringstream() { this->i_ = &b_; this->o_ = &b_; } explicit basic_stringstream(const std::string& s, int = 0) : b_(s) { this->i_ = &b_; this->o_ = &b_; } std::string str() const { return b_; } void str(const std::string& s) { b_ = s; this->pos_ = 0; } };

_GLIBCXX_END_NAMESPACE_CXX11
extern ostream cout, cerr, clog; extern istream cin;
template <> basic_istream<char>& operator>>(basic_istream<char>& i, std::string& s);
template <> basic_istream<char>& getline(basic_istream<char>& i, std::string& s, char d);
struct Setprec_ { int p; }; inline Setprec_ setprecision(int p) { Setprec_ x = {p}; return x; }
inline ostream& operator<<(ostream& o, Setprec_ p) { o.prec_ = p.p; return o; }
struct Setw_ { int p; }; inline Setw_ setw(int p) { Setw_ x = {p}; return x; }
inline ostream& operator<<(ostream& o, Setw_ p) { o.width_ = p.p; return o; }
inline istream& operator>>(istream& o, Setw_) { return o; }
struct Setfill_ { char p; }; inline Setfill_ setfill(char p) { Setfill_ x = {p}; return x; }
inline ostream& operator<<(ostream& o, Setfill_ p) { o.fill_ = p.p; return o; }
// used by libstdc++'s own operator<< for strings
template <class C, class T> inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, long n) { return o.put_(std::string(s, n)); }
}
