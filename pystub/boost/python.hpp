// What the Python module needs of Boost.Python, without a Python interpreter: objects, argument names with defaults,
// and a table of the functions the module offers.  Calls follow Boost.Python's rules: argument names belong to the last
// parameters, the most recently defined function that fits is taken, and values are converted as Boost.Python does.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace boost { namespace python {

struct argument_error_ {};                   // no function of that name takes these arguments
struct error_already_set { std::string what; error_already_set() {} explicit error_already_set(const std::string& w) : what(w) {} };

enum kind_t { NONE, BOOL, INT, FLOAT, STR, LIST, TUPLE, DICT };
class object;
struct node_ { kind_t k; long i; double d; std::string s; std::vector<object> v; std::vector<std::string> keys; node_(kind_t k) : k(k), i(0), d(0) {} };
template <class T> struct to_;
class object {
public:
  std::shared_ptr<node_> n;
  object() : n(std::make_shared<node_>(NONE)) {}
  template <class T> object(const T& x);
  kind_t kind() const { return n->k; }
  bool is_none() const { return n->k == NONE; }
  object operator[](const char* key) const { need(DICT); for (size_t i = 0; i < n->keys.size(); i++) if (n->keys[i] == key) return n->v[i]; throw error_already_set("KeyError"); }
  object operator[](const std::string& key) const { return (*this)[key.c_str()]; }
  object operator[](long i) const { if (n->k != LIST && n->k != TUPLE) throw error_already_set("TypeError"); if (i < 0) i += (long)n->v.size(); if (i < 0 || i >= (long)n->v.size()) throw error_already_set("IndexError"); return n->v[i]; }
  object operator[](int i) const { return (*this)[(long)i]; }
protected:
  explicit object(kind_t k) : n(std::make_shared<node_>(k)) {}
  void need(kind_t k) const { if (n->k != k) throw error_already_set("TypeError"); }
};
class list : public object { public: list() : object(LIST) {} template <class T> void append(const T& x) { n->v.push_back(object(x)); } };
class tuple : public object { public: tuple() : object(TUPLE) {} };
class str : public object { public: str() : object(STR) {} str(const char* s) : object(STR) { n->s = s; } str(const std::string& s) : object(STR) { n->s = s; } };
class dict : public object {
public:
  dict() : object(DICT) {}
  struct item { object d; std::string key;
    template <class T> const item& operator=(const T& x) const { put(*d.n, key, object(x)); return *this; }
    operator object() const { return d[key]; } };
  item operator[](const char* k) const { item i; i.d.n = n; i.key = k; return i; }
  item operator[](const std::string& k) const { return (*this)[k.c_str()]; }
  item operator[](const str& k) const { return (*this)[k.n->s.c_str()]; }
  bool has_key(const char* k) const { for (size_t i = 0; i < n->keys.size(); i++) if (n->keys[i] == k) return true; return false; }
  static void put(node_& n, const std::string& k, const object& x) { for (size_t i = 0; i < n.keys.size(); i++) if (n.keys[i] == k) { n.v[i] = x; return; } n.keys.push_back(k); n.v.push_back(x); }
};
inline long len(const object& o) { return o.n->k == STR ? (long)o.n->s.size() : (long)o.n->v.size(); }

// to Python
template <class T> struct number_ { enum { is = 0 }; };
#define SX_PY_INT(T) template <> struct number_<T> { enum { is = 1 }; };
SX_PY_INT(char) SX_PY_INT(signed char) SX_PY_INT(short) SX_PY_INT(unsigned short) SX_PY_INT(int) SX_PY_INT(unsigned) SX_PY_INT(long) SX_PY_INT(unsigned long) SX_PY_INT(long long) SX_PY_INT(unsigned long long)
#undef SX_PY_INT
template <class T, int I> struct toInt_ { static void put(object&, const T&) { static_assert(I, "no conversion to Python"); } };
template <class T> struct toInt_<T, 1> { static void put(object& o, const T& x) { o.n->k = INT; o.n->i = (long)x; } };
template <class T> struct to_ { static void put(object& o, const T& x) { toInt_<T, number_<T>::is>::put(o, x); } };
template <> struct to_<bool> { static void put(object& o, bool x) { o.n->k = BOOL; o.n->i = x; } };
template <> struct to_<double> { static void put(object& o, double x) { o.n->k = FLOAT; o.n->d = x; } };
template <> struct to_<float> { static void put(object& o, float x) { o.n->k = FLOAT; o.n->d = x; } };
template <> struct to_<std::string> { static void put(object& o, const std::string& x) { o.n->k = STR; o.n->s = x; } };
template <> struct to_<const char*> { static void put(object& o, const char* x) { o.n->k = STR; o.n->s = x; } };
template <size_t N> struct to_<char[N]> { static void put(object& o, const char* x) { o.n->k = STR; o.n->s = x; } };
template <> struct to_<list> { static void put(object& o, const list& x) { o.n = x.n; } };
template <> struct to_<tuple> { static void put(object& o, const tuple& x) { o.n = x.n; } };
template <> struct to_<dict> { static void put(object& o, const dict& x) { o.n = x.n; } };
template <> struct to_<str> { static void put(object& o, const str& x) { o.n = x.n; } };
template <> struct to_<dict::item> { static void put(object& o, const dict::item& x) { object y = x; o.n = y.n; } };
template <class T> object::object(const T& x) : n(std::make_shared<node_>(NONE)) { to_<T>::put(*this, x); }

inline void fill_(tuple&) {}
template <class A, class... R> void fill_(tuple& t, const A& a, const R&... r) { t.n->v.push_back(object(a)); fill_(t, r...); }
template <class... A> tuple make_tuple(const A&... a) { tuple t; fill_(t, a...); return t; }

// from Python
struct unfit_ {};                            // the arguments do not fit this function
template <class T, int I> struct fromInt_ { static T get(const object&) { static_assert(I, "no conversion from Python"); throw unfit_(); } };
template <class T> struct fromInt_<T, 1> { static T get(const object& o) { if (o.n->k != INT && o.n->k != BOOL) throw unfit_(); if (sizeof(T) < sizeof(long) && (long)(T)o.n->i != o.n->i) throw error_already_set("OverflowError"); return (T)o.n->i; } };
template <class T> struct from_ { static T get(const object& o) { return fromInt_<T, number_<T>::is>::get(o); } };
template <> struct from_<bool> { static bool get(const object& o) { if (o.n->k == NONE) return false; if (o.n->k != INT && o.n->k != BOOL) throw unfit_(); return o.n->i != 0; } };
template <> struct from_<double> { static double get(const object& o) { if (o.n->k == FLOAT) return o.n->d; if (o.n->k != INT && o.n->k != BOOL) throw unfit_(); return (double)o.n->i; } };
template <> struct from_<std::string> { static std::string get(const object& o) { if (o.n->k != STR) throw unfit_(); return o.n->s; } };
template <> struct from_<object> { static object get(const object& o) { return o; } };
template <> struct from_<list> { static list get(const object& o) { if (o.n->k != LIST) throw unfit_(); list l; l.n = o.n; return l; } };
template <> struct from_<dict> { static dict get(const object& o) { if (o.n->k != DICT) throw unfit_(); dict l; l.n = o.n; return l; } };
template <> struct from_<tuple> { static tuple get(const object& o) { if (o.n->k != TUPLE) throw unfit_(); tuple l; l.n = o.n; return l; } };
template <class T> struct extract { object o; explicit extract(const object& o) : o(o) {} T operator()() const { try { return from_<T>::get(o); } catch (unfit_&) { throw error_already_set("TypeError"); } } operator T() const { return (*this)(); } bool check() const { try { from_<T>::get(o); return true; } catch (unfit_&) { return false; } } };

// argument names
struct keyword_ { std::string name; bool has; object def; };
struct keywords_ { std::vector<keyword_> v; keywords_ operator,(const keywords_& r) const { keywords_ k = *this; k.v.insert(k.v.end(), r.v.begin(), r.v.end()); return k; } };
struct arg : keywords_ {
  explicit arg(const char* n) { keyword_ k; k.name = n; k.has = false; v.push_back(k); }
  template <class T> arg& operator=(const T& x) { v[0].has = true; v[0].def = object(x); return *this; }
};
inline void names_(keywords_&) {}
template <class... R> void names_(keywords_& k, const char* a, R... r) { k = (k, arg(a)); names_(k, r...); }
template <class... A> keywords_ args(A... a) { keywords_ k; names_(k, a...); return k; }

// the table of functions
typedef std::vector<object> values_;
struct function_ { size_t arity; keywords_ kw; std::function<object(const values_&)> call; };
inline std::map<std::string, std::vector<function_> >& table_() { static std::map<std::string, std::vector<function_> > t; return t; }
template <size_t... I> struct seq_ {};
template <size_t N, size_t... I> struct make_ : make_<N - 1, N - 1, I...> {};
template <size_t... I> struct make_<0, I...> { typedef seq_<I...> type; };
template <class T> struct bare_ { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template <class T> typename bare_<T>::type conv_(const object& o) { return from_<typename bare_<T>::type>::get(o); }
template <class R, class... A> struct invoke_ { template <size_t... I> static object run(R (*f)(A...), const values_& v, seq_<I...>) { std::tuple<typename bare_<A>::type...> t((conv_<A>(v[I]))...); return object(static_cast<const typename bare_<R>::type&>(f(std::get<I>(t)...))); } };
template <class... A> struct invoke_<void, A...> { template <size_t... I> static object run(void (*f)(A...), const values_& v, seq_<I...>) { std::tuple<typename bare_<A>::type...> t((conv_<A>(v[I]))...); f(std::get<I>(t)...); return object(); } };
inline void option_(function_& f, const keywords_& k) { f.kw = k; }
inline void option_(function_&, const char*) {}
inline void options_(function_&) {}
template <class O, class... R> void options_(function_& f, const O& o, const R&... r) { option_(f, o); options_(f, r...); }
template <class R, class... A, class... O> void def(const char* name, R (*f)(A...), const O&... o) {
  function_ x; x.arity = sizeof...(A); options_(x, o...);
  x.call = [f](const values_& v) { return invoke_<R, A...>::run(f, v, typename make_<sizeof...(A)>::type()); };
  table_()[name].push_back(x);
}
template <> struct to_<object> { static void put(object& o, const object& x) { o.n = x.n; } };

// a call from Python
typedef std::vector<std::pair<std::string, object> > named_;
inline object call(const std::string& name, const values_& given, const named_& named = named_()) {
  std::map<std::string, std::vector<function_> >::iterator e = table_().find(name);
  if (e == table_().end()) throw argument_error_();
  for (size_t k = e->second.size(); k-- > 0;) {
    const function_& f = e->second[k]; values_ v = given; size_t used = 0; bool fits = given.size() <= f.arity && f.kw.v.size() <= f.arity;
    for (size_t p = given.size(); fits && p < f.arity; p++) {
      size_t first = f.arity - f.kw.v.size();
      if (p < first) { fits = false; break; }
      const keyword_& w = f.kw.v[p - first]; bool got = false;
      for (size_t i = 0; i < named.size() && !got; i++) if (named[i].first == w.name) { v.push_back(named[i].second); got = true; used++; }
      if (!got && w.has) { v.push_back(w.def); got = true; }
      fits = got;
    }
    if (!fits || used < named.size()) continue;
    try { return f.call(v); } catch (unfit_&) {}
  }
  throw argument_error_();
}
template <class R> struct return_value_policy {};
inline void throw_error_already_set() { throw error_already_set(); }
template <class E, class F> void register_exception_translator(F) {}
struct scope { struct sink { template <class T> const sink& operator=(const T&) const { return *this; } }; sink attr(const char*) const { return sink(); } }; struct docstring_options { template <class... A> docstring_options(A...) {} };
} }
struct PyObject_sx_ {}; typedef PyObject_sx_ PyObject;
static PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_IndexError, *PyExc_KeyError, *PyExc_Exception, *PyExc_IOError, *PyExc_OSError;
inline void PyErr_SetString(PyObject*, const char*) {}
#define BOOST_PYTHON_MODULE(name) extern "C" void sx_py_module()
#define BOOST_PYTHON_MODULE_INIT(name) extern "C" void sx_py_module()
