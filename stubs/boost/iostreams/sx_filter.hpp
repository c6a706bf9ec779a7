// Compression is taken to be the identity on bytes, followed by an end mark.  What comes out of a file without its end
// comes in blocks, as from the real filter: the last, incomplete block is an error.
#pragma once
#include <sx_stream.h>
namespace boost { namespace iostreams {
namespace zlib { static const int best_compression = 9, best_speed = 1, default_compression = -1, no_compression = 0; }
struct zlib_params { int level; zlib_params(int l = -1) : level(l) {} };
struct zlib_compressor { zlib_compressor(int = -1) {} zlib_compressor(const zlib_params&) {} }; struct zlib_decompressor { zlib_decompressor(int = 0) {} };
struct input {}; struct output {};
class zlib_error : public std::exception {};
template <class M> class filtering_streambuf : public std::streambuf {
public:
  bool zip = false, zout = false;
  void push(const zlib_compressor&) { zip = zout = true; } void push(const zlib_decompressor&) { zip = true; }
  void push(std::ostream& o) { this->s = o.o_; } void push(std::istream& i) {
    this->s = const_cast<std::string*>(i.i_); if (!zip || !this->s) return;
    size_t n = this->s->size(); this->limit = n >= 4 && this->s->compare(n - 4, 4, "ZEND") == 0 ? n - 4 : n / 4096 * 4096; }
  ~filtering_streambuf() { if (zout && this->s) this->s->append("ZEND", 4); }
  void reset() {} void pop() {}
};
typedef filtering_streambuf<output> filtering_ostreambuf; typedef filtering_streambuf<input> filtering_istreambuf;
inline bool close(std::streambuf&) { return true; }
} }
