// Archives: a tape of raw bytes.  Class types go through their own serialize member; reading past the end of
// the tape, or a tape that does not start like one, throws archive_exception as the real one does.
#pragma once
#include <sx_stream.h>
#include <cstring>
#include <type_traits>
#include <vector>
#include <exception>
#include <boost/serialization/access.hpp>
#include <boost/mpl/bool.hpp>
namespace boost { namespace archive {
class archive_exception : public virtual std::exception { public: typedef enum { no_exception, input_stream_error, invalid_signature, other_exception } exception_code; exception_code code; archive_exception(exception_code c) noexcept : code(c) {} const char* what() const noexcept override { return "archive error"; } };
enum archive_flags { no_header = 1 };
class sx_oarchive {
public:
  typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading;
  std::string* o;
  explicit sx_oarchive(std::streambuf& b, unsigned = 0) : o(b.s) { if (o) o->append("SXAR", 4); }
  explicit sx_oarchive(std::ostream& s, unsigned = 0) : o(s.o_) { if (o) o->append("SXAR", 4); }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type one(const T& v) { if (o) { size_t n = o->size(); o->append(sizeof(T), '\0'); memcpy(&(*o)[n], &v, sizeof(T)); } }
  void one(const std::string& v) { one((unsigned long)v.size()); if (o) o->append(v); }
  template <class T> void one(const std::vector<T>& v) { one((unsigned long)v.size()); for (auto& x : v) one(x); }
  template <class A, class B> void one(const std::pair<A, B>& v) { one(v.first); one(v.second); }
  template <class T, size_t N> void one(const T (&v)[N]) { for (size_t i = 0; i < N; i++) one(v[i]); }
  template <class T> typename std::enable_if<std::is_class<T>::value>::type one(const T& v) { boost::serialization::access::serialize(*this, const_cast<T&>(v), 0u); }
  template <class T> sx_oarchive& operator<<(const T& v) { one(v); return *this; }
  template <class T> sx_oarchive& operator&(const T& v) { return *this << v; }
};
class sx_iarchive {
public:
  typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading;
  const std::string* i; size_t pos, end = (size_t)-1;
  void head() { if (i && end > i->size()) end = i->size();
    if (!i || end < 4 || i->compare(0, 4, "SXAR") != 0) throw archive_exception(archive_exception::invalid_signature); pos = 4; }
  explicit sx_iarchive(std::streambuf& b, unsigned = 0) : i(b.s), pos(0), end(b.limit) { head(); }
  explicit sx_iarchive(std::istream& s, unsigned = 0) : i(s.i_), pos(0) { head(); }
  void need(size_t n) { if (!i || pos + n > end) throw archive_exception(archive_exception::input_stream_error); }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type one(T& v) { need(sizeof(T)); memcpy(&v, i->data() + pos, sizeof(T)); pos += sizeof(T); }
  void one(std::string& v) { unsigned long n = 0; one(n); need(n); v.assign(i->data() + pos, n); pos += n; }
  template <class T> void one(std::vector<T>& v) { unsigned long n = 0; one(n); need(n ? n - 1 : 0); v.resize(n); for (auto& x : v) one(x); }
  template <class A, class B> void one(std::pair<A, B>& v) { one(v.first); one(v.second); }
  template <class T, size_t N> void one(T (&v)[N]) { for (size_t k = 0; k < N; k++) one(v[k]); }
  template <class T> typename std::enable_if<std::is_class<T>::value>::type one(T& v) { boost::serialization::access::serialize(*this, v, 0u); }
  template <class T> sx_iarchive& operator>>(T& v) { one(v); return *this; }
  template <class T> sx_iarchive& operator>>(const T& v) { one(const_cast<T&>(v)); return *this; }
  template <class T> sx_iarchive& operator&(T& v) { return *this >> v; }
};
typedef sx_oarchive binary_oarchive; typedef sx_iarchive binary_iarchive; typedef sx_oarchive text_oarchive; typedef sx_iarchive text_iarchive;
} }
