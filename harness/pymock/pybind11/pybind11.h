// A stand-in for pybind11 used for analysis only: bound callables are recorded with their types, defaults and
// return policies, and can be applied to abstract arguments. It models the conversions pybind11 performs.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cstring>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_MODULE(name, var) extern "C" void pymock_module(::pybind11::module_ &var)
#define PYBIND11_MAKE_OPAQUE(...)
namespace mrob { class FGraphSolve; class PlaneRegistration; class CreatePoints; } // looked into by the harness, whatever class is bound
namespace pymock {
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> Nd;
template <class T> struct tid { static char v; };
template <class T> char tid<T>::v;
template <class T> const void *id() { return &tid<typename std::decay<T>::type>::v; }
// a Python value: none, number, array, list or object of a registered class
struct Any { const void *t; void *p; int kind; Any() : t(0), p(0), kind(0) {} };
enum { NONE = 0, NUM = 1, ARR = 2, LIST = 3, OBJ = 4, ENUM = 5 };
struct Arr { Nd m; int nd; };
typedef std::vector<Any> List;
inline Any num(double v) { Any a; a.kind = NUM; a.t = id<double>(); a.p = new double(v); return a; }
inline Any inum(long v) { Any a; a.kind = NUM; a.t = id<long>(); a.p = new long(v); return a; }
inline Any arr(const Nd &m, int nd = 2) { Any a; a.kind = ARR; a.t = id<Arr>(); Arr *q = new Arr; q->m = m; q->nd = nd; a.p = q; return a; }
inline Any lst(const List &l) { Any a; a.kind = LIST; a.t = id<List>(); a.p = new List(l); return a; }
template <class T> Any objp(T *p) { Any a; a.kind = OBJ; a.t = id<T>(); a.p = p; return a; }
template <class T> Any obj(const T &v) { return objp(new T(v)); }
template <class T> Any enm(T v) { Any a; a.kind = ENUM; a.t = id<T>(); a.p = new long((long)v); return a; }
// base classes: casts from derived to base
struct Up { const void *d, *b; void *(*f)(void *); };
extern Up ups[64]; extern int nups;
template <class D, class B> void *upcast(void *p) { return static_cast<B *>(static_cast<D *>(p)); }
template <class D, class B> void add_base() { Up u; u.d = id<D>(); u.b = id<B>(); u.f = &upcast<D, B>; ups[nups++] = u; }
inline void *as(const Any &a, const void *t) {
  if (a.t == t) return a.p;
  for (int i = 0; i < nups; ++i) if (ups[i].d == a.t) { if (ups[i].b == t) return ups[i].f(a.p); Any b; b.t = ups[i].b; b.p = ups[i].f(a.p); void *r = as(b, t); if (r) return r; }
  return 0;
}
template <class D> std::true_type plain_t(const Eigen::PlainObjectBase<D> *); std::false_type plain_t(...);
template <class D, int L> std::true_type map_t(const Eigen::MapBase<D, L> *); std::false_type map_t(...);
template <class T> struct is_plain : decltype(plain_t((T *)0)) {};
template <class T> struct is_map : decltype(map_t((T *)0)) {};
// ---- argument conversion
template <class T, class X = void> struct in { // objects
  void *p = 0; std::string *dummy = 0;
  bool load(const Any &a) { if (a.kind != OBJ) return false; p = as(a, id<T>()); return p != 0; }
  T &get() { return *static_cast<T *>(p); }
};
template <class T> struct in<T *, void> { in<T> c; T *q = 0; bool load(const Any &a) { if (a.kind == NONE) return true; if (!c.load(a)) return false; q = &c.get(); return true; } T *&get() { return q; } };
template <class T> struct in<std::shared_ptr<T>, void> { std::shared_ptr<T> q; bool load(const Any &a) { in<T> c; if (!c.load(a)) return false; q = std::shared_ptr<T>(&c.get(), [](T *) {}); return true; } std::shared_ptr<T> &get() { return q; } };
template <class T> struct in<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
  T v;
  bool load(const Any &a) {
    if (a.kind == ENUM) return std::is_integral<T>::value && !std::is_same<T, bool>::value ? (v = (T) * static_cast<long *>(a.p), true) : false;
    if (a.kind != NUM) return false;
    if (a.t == id<long>()) { v = (T) * static_cast<long *>(a.p); return true; }
    if (!std::is_floating_point<T>::value) return false;
    v = (T) * static_cast<double *>(a.p); return true;
  }
  T &get() { return v; }
};
template <class T> struct in<T, typename std::enable_if<std::is_enum<T>::value>::type> { T v; bool load(const Any &a) { if (a.kind != ENUM || a.t != id<T>()) return false; v = (T) * static_cast<long *>(a.p); return true; } T &get() { return v; } };
template <class T> struct in<T, typename std::enable_if<is_plain<T>::value>::type> {
  T v;
  bool load(const Any &a) {
    if (a.kind != ARR) return false;
    const Arr &q = *static_cast<Arr *>(a.p); int R = T::RowsAtCompileTime, C = T::ColsAtCompileTime;
    if (q.nd == 2) { if ((R != Eigen::Dynamic && R != q.m.rows()) || (C != Eigen::Dynamic && C != q.m.cols())) return false; v.resize(q.m.rows(), q.m.cols()); for (int i = 0; i < q.m.rows(); ++i) for (int j = 0; j < q.m.cols(); ++j) v(i, j) = q.m(i, j); return true; }
    int n = q.m.rows(); bool row = R == 1; // a one-dimensional array
    if (row) { if (C != Eigen::Dynamic && C != n) return false; v.resize(1, n); for (int i = 0; i < n; ++i) v(0, i) = q.m(i, 0); return true; }
    if (C != 1 && C != Eigen::Dynamic) return false;
    if (R != Eigen::Dynamic && R != n) return false;
    v.resize(n, 1); for (int i = 0; i < n; ++i) v(i, 0) = q.m(i, 0); return true;
  }
  T &get() { return v; }
};
template <class M, int O, class S> struct stride_of { static S make(int inner, int outer) { return S(outer, inner); } enum { dyn = 1 }; };
template <class M, int O> struct stride_of<M, O, Eigen::OuterStride<>> { static Eigen::OuterStride<> make(int, int outer) { return Eigen::OuterStride<>(outer); } enum { dyn = 0 }; };
template <class M, int O> struct stride_of<M, O, Eigen::InnerStride<1>> { static Eigen::InnerStride<1> make(int, int) { return Eigen::InnerStride<1>(); } enum { dyn = 0 }; };
template <class M, int O, class S> struct in<Eigen::Ref<M, O, S>, void> { // an array the callee sees through strides, as for a slice of a larger array
  typedef typename std::remove_const<M>::type P; typedef Eigen::Ref<M, O, S> R;
  in<P> c; double *store = 0; R *r = 0;
  bool load(const Any &a) {
    if (!c.load(a)) return false;
    P &v = c.get(); int n = v.rows(), m = v.cols(); bool rm = P::IsRowMajor;
    int I = stride_of<M, O, S>::dyn ? 3 : 1; int inner = rm ? m : n; int Ou = stride_of<M, O, S>::dyn ? inner * I + 2 : inner;
    int outer = rm ? n : m; store = new double[Ou * outer + 8];
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) store[rm ? i * Ou + j * I : j * Ou + i * I] = v(i, j);
    Eigen::Map<P, 0, S> mp(store, n, m, stride_of<M, O, S>::make(I, Ou)); r = new R(mp); return true;
  }
  R &get() { return *r; }
};
template <class T, class A> struct in<std::vector<T, A>, void> { std::vector<T, A> v; bool load(const Any &a) { if (a.kind != LIST) return false; for (auto &x : *static_cast<List *>(a.p)) { in<typename std::decay<T>::type> c; if (!c.load(x)) return false; v.push_back(c.get()); } return true; } std::vector<T, A> &get() { return v; } };
template <> struct in<Any, void> { Any v; bool load(const Any &a) { v = a; return true; } Any &get() { return v; } };
template <class T> using in_t = in<typename std::remove_cv<typename std::remove_reference<T>::type>::type>;
} // namespace pymock
namespace pybind11 {
using pymock::Any;
enum class return_value_policy { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };
typedef Any object; typedef Any handle;
typedef Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic> EigenDStride;
template <class T> using EigenDRef = Eigen::Ref<T, 0, EigenDStride>;
template <class T> using EigenDMap = Eigen::Map<T, 0, EigenDStride>;
} // namespace pybind11
namespace pymock {
typedef pybind11::return_value_policy Pol;
inline bool auto_(Pol p) { return p == Pol::automatic || p == Pol::automatic_reference; }
// ---- result conversion: value, and whether Python would hold a view of native storage
extern int view_seen; // set when a result is handed out without a copy
template <class T, class X = void> struct out { // objects of classes
  static Any by(const T &v, Pol p, bool lvalue) { if (lvalue && (p == Pol::reference || p == Pol::reference_internal || p == Pol::take_ownership)) { view_seen = 1; return objp(const_cast<T *>(&v)); } return obj(v); }
};
template <class T> struct out<T *, void> { static Any by(T *v, Pol p, bool) { if (!v) return Any(); if (p != Pol::copy && p != Pol::move && p != Pol::take_ownership && !auto_(p)) { view_seen = 1; } else if (auto_(p)) view_seen = 2; return objp(const_cast<typename std::remove_const<T>::type *>(v)); } };
template <class T> struct out<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static Any by(T v, Pol, bool) { return std::is_integral<T>::value ? inum((long)v) : num((double)v); } };
template <class T> struct out<T, typename std::enable_if<std::is_enum<T>::value>::type> { static Any by(T v, Pol, bool) { return enm(v); } };
template <class E> inline Nd nd_of(const E &e) { Nd m(e.rows(), e.cols()); for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) m(i, j) = e(i, j); return m; }
template <class T> struct out<T, typename std::enable_if<is_plain<T>::value>::type> {
  static Any by(const T &v, Pol p, bool lvalue) { if (lvalue && (p == Pol::reference || p == Pol::reference_internal || p == Pol::take_ownership)) view_seen = 1; return arr(nd_of(v), T::IsVectorAtCompileTime ? 1 : 2); }
};
template <class T> struct out<T, typename std::enable_if<is_map<T>::value>::type> { // maps and Ref: a view unless copied
  static Any by(const T &v, Pol p, bool) { if (p != Pol::copy) view_seen = 1; return arr(nd_of(v), T::IsVectorAtCompileTime ? 1 : 2); }
};
template <class S, int O, class I> struct out<Eigen::SparseMatrix<S, O, I>, void> { static Any by(const Eigen::SparseMatrix<S, O, I> &v, Pol, bool) { Eigen::MatrixXd d = v; return arr(nd_of(d)); } };
template <class T, class A> struct out<std::vector<T, A>, void> { static Any by(const std::vector<T, A> &v, Pol p, bool lvalue) { List l; for (auto &x : v) l.push_back(out<T>::by(x, p, lvalue)); return lst(l); } };
template <class T> struct out<std::shared_ptr<T>, void> { static Any by(const std::shared_ptr<T> &v, Pol, bool) { return objp(v.get()); } };
template <class T, class D> struct out<std::unique_ptr<T, D>, void> { static Any by(const std::unique_ptr<T, D> &v, Pol, bool) { return objp(const_cast<std::unique_ptr<T, D> &>(v).release()); } };
template <class T, class U> struct out<std::pair<T, U>, void> { static Any by(const std::pair<T, U> &v, Pol p, bool lv) { List l; l.push_back(out<T>::by(v.first, p, lv)); l.push_back(out<U>::by(v.second, p, lv)); return lst(l); } };
template <class... A> struct out<std::tuple<A...>, void> {
  template <size_t... I> static Any go(const std::tuple<A...> &v, Pol p, bool lv, std::index_sequence<I...>) { List l; int d[] = {0, (l.push_back(out<typename std::decay<A>::type>::by(std::get<I>(v), p, lv)), 0)...}; (void)d; return lst(l); }
  static Any by(const std::tuple<A...> &v, Pol p, bool lv) { return go(v, p, lv, std::index_sequence_for<A...>()); }
};
template <> struct out<std::string, void> { static Any by(const std::string &, Pol, bool) { return Any(); } };
template <> struct out<Any, void> { static Any by(const Any &a, Pol, bool) { return a; } };
template <> struct out<const char *, void> { static Any by(const char *, Pol, bool) { return Any(); } };
// ---- recorded callables
struct Fn {
  const char *scope, *name; int n; // n: number of arguments, self included
  Any (*inv)(Fn *, Any *, bool *); void *f; Pol pol;
  int nargs; const char *argn[16]; Any def[16]; bool hasdef[16]; // annotations of the arguments after self
  bool method;
  Fn *next;
};
extern Fn *first_, *last_;
struct Val { const char *scope, *name; long v; Val *next; };
extern Val *vals_;
template <class F> struct sig : sig<decltype(&F::operator())> { enum { lambda = 1 }; };
template <class R, class... A> struct sig<R (*)(A...)> { typedef R ret; typedef std::tuple<A...> args; };
template <class R, class... A> struct sig<R(A...)> : sig<R (*)(A...)> {};
template <class R, class T, class... A> struct sig<R (T::*)(A...)> { typedef R ret; typedef std::tuple<A...> args; typedef T cls; };
template <class R, class T, class... A> struct sig<R (T::*)(A...) const> { typedef R ret; typedef std::tuple<A...> args; typedef T cls; };
template <class Ret> struct finish {
  template <class F, class... A> static Any go(Pol p, F &f, A &&... a) { Ret r = f(std::forward<A>(a)...); return out<typename std::remove_cv<Ret>::type>::by(r, p, false); }
};
template <class Ret> struct finish<Ret &> {
  template <class F, class... A> static Any go(Pol p, F &f, A &&... a) { Ret &r = f(std::forward<A>(a)...); return out<typename std::remove_cv<Ret>::type>::by(r, auto_(p) ? Pol::copy : p, true); }
};
template <> struct finish<void> { template <class F, class... A> static Any go(Pol, F &f, A &&... a) { f(std::forward<A>(a)...); return Any(); } };
template <class T> struct fwd { template <class C> static T &get(C &c) { return c.get(); } };           // by value or const &
template <class T> struct fwd<T &> { template <class C> static T &get(C &c) { return c.get(); } };
template <class T> struct fwd<T &&> { template <class C> static T &&get(C &c) { return std::move(c.get()); } };
template <class F, class Ret, class Tup, class Seq> struct caller;
template <class F, class Ret, class... A, size_t... I> struct caller<F, Ret, std::tuple<A...>, std::index_sequence<I...>> {
  static Any go(Fn *fn, Any *a, bool *ok) {
    std::tuple<in_t<A>...> c; bool l[] = {true, std::get<I>(c).load(a[I])...};
    for (bool b : l) if (!b) { *ok = false; return Any(); }
    *ok = true; F &f = *static_cast<F *>(fn->f); return finish<Ret>::go(fn->pol, f, fwd<A>::get(std::get<I>(c))...);
  }
};
template <class S, class T, class R, class... A> struct Mem { R (T::*f)(A...); R operator()(S &s, A... a) const { return (s.*f)(std::forward<A>(a)...); } };
template <class S, class T, class R, class... A> struct MemC { R (T::*f)(A...) const; R operator()(const S &s, A... a) const { return (s.*f)(std::forward<A>(a)...); } };
// methods are called on the class they are bound on, which may derive from the class that declares them
template <class Self, class T> using bound_on = typename std::conditional<std::is_void<Self>::value, T, Self>::type;
template <class Self, class R, class T, class... A> Mem<bound_on<Self, T>, T, R, A...> wrap(R (T::*f)(A...)) { Mem<bound_on<Self, T>, T, R, A...> m; m.f = f; return m; }
template <class Self, class R, class T, class... A> MemC<bound_on<Self, T>, T, R, A...> wrap(R (T::*f)(A...) const) { MemC<bound_on<Self, T>, T, R, A...> m; m.f = f; return m; }
template <class Self, class F, class = typename std::enable_if<!std::is_member_pointer<F>::value>::type> F wrap(F f) { return f; }
template <class F> struct sigof : sig<typename std::conditional<std::is_class<F>::value, F, F>::type> {};
template <class F> struct sig_l { typedef typename sig<decltype(&F::operator())>::ret ret; typedef typename sig<decltype(&F::operator())>::args args; };
template <class R, class... A> struct sig_l<R (*)(A...)> { typedef R ret; typedef std::tuple<A...> args; };
template <class F> Fn *record(const char *scope, const char *name, F f, bool method) {
  typedef sig_l<F> S; Fn *n = new Fn; n->scope = scope; n->name = name; n->n = std::tuple_size<typename S::args>::value; n->f = new F(f); n->pol = Pol::automatic; n->nargs = 0; n->method = method; n->next = 0;
  for (int i = 0; i < 16; ++i) { n->argn[i] = 0; n->hasdef[i] = false; }
  n->inv = &caller<F, typename S::ret, typename S::args, std::make_index_sequence<std::tuple_size<typename S::args>::value>>::go;
  if (last_) last_->next = n; else first_ = n; last_ = n; return n;
}
template <class T> struct isclass { enum { v = 0 }; };
} // namespace pymock
namespace pybind11 {
using pymock::Fn;
template <class T> struct arg_v;
struct arg {
  const char *name; bool none_;
  explicit constexpr arg(const char *n = nullptr) : name(n), none_(false) {}
  template <class T> arg_v<typename std::decay<T>::type> operator=(T &&v) const { return arg_v<typename std::decay<T>::type>{name, std::forward<T>(v)}; }
  arg &noconvert(bool = true) { return *this; } arg &none(bool = true) { return *this; }
};
template <class T> struct arg_v { const char *name; T v; };
struct is_operator {}; struct is_method {}; struct dynamic_attr {}; struct kw_only {}; struct pos_only {}; struct module_local { module_local(bool = true) {} }; struct multiple_inheritance {}; struct arithmetic {}; struct buffer_protocol {}; struct prepend {};
struct doc { const char *v; explicit doc(const char *s) : v(s) {} };
template <class...> struct call_guard {}; template <int, int> struct keep_alive {}; template <class...> struct base {};
struct gil_scoped_release {}; struct gil_scoped_acquire {}; struct scoped_ostream_redirect {}; struct scoped_estream_redirect {};
struct const_tag {}; static constexpr std::true_type const_{};
template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
  template <class R, class T> constexpr auto operator()(R (T::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
  template <class R, class T> constexpr auto operator()(R (T::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast = {};
template <class T> Any cast_default(const T &v) { return pymock::out<T>::by(v, return_value_policy::copy, false); }
inline Any cast_default(const char *) { return Any(); }
inline void extra(Fn *) {}
inline void ex(Fn *, const char *) {}
inline void ex(Fn *f, return_value_policy p) { f->pol = p; }
inline void ex(Fn *f, const arg &a) { f->argn[f->nargs] = a.name; f->nargs++; }
template <class T> void ex(Fn *f, const arg_v<T> &a) { f->argn[f->nargs] = a.name; f->def[f->nargs] = cast_default(a.v); f->hasdef[f->nargs] = true; f->nargs++; }
template <class T> void ex(Fn *, const T &) {}
template <class E, class... R> void extra(Fn *f, const E &e, const R &... r) { ex(f, e); extra(f, r...); }
template <class... A> struct init_ { };
template <class... A> init_<A...> init() { return init_<A...>(); }
template <class F> struct initf_ { F f; };
template <class F> typename std::enable_if<!std::is_void<decltype(&F::operator())>::value, initf_<F>>::type init(F f) { return initf_<F>{f}; }
template <class R, class... A> initf_<R (*)(A...)> init(R (*f)(A...)) { return initf_<R (*)(A...)>{f}; }
template <class T, class... A> struct Make { // a constructed object of the bound class
  Any operator()(A... a) const { return pymock::objp(new T(std::forward<A>(a)...)); }
};
struct self_t {}; static const self_t self{};
enum op_id { op_mul, op_add, op_sub, op_eq, op_ne, op_neg };
template <op_id O, class R> struct op_ {};
inline op_<op_mul, self_t> operator*(const self_t &, const self_t &) { return {}; }
inline op_<op_add, self_t> operator+(const self_t &, const self_t &) { return {}; }
inline op_<op_sub, self_t> operator-(const self_t &, const self_t &) { return {}; }
template <class T> struct other {}; 
inline const char *scoped(const char *m, const char *n) { if (!*m) return n; char *s = new char[128], *d = s; for (; *m; ++m) *d++ = *m; *d++ = '.'; for (; *n; ++n) *d++ = *n; *d = 0; return s; }
class module_ {
public:
  const char *name; explicit module_(const char *n = "") : name(n) {}
  const char *doc_ = ""; const char *&doc() { return doc_; }
  module_ def_submodule(const char *n, const char * = nullptr) { return module_(scoped(name, n)); }
  template <class F, class... E> module_ &def(const char *n, F &&f, const E &... e) { extra(pymock::record(name, n, pymock::wrap<void>(typename std::decay<F>::type(std::forward<F>(f))), false), e...); return *this; }
  struct Attr { template <class T> Attr &operator=(const T &) { return *this; } }; Attr attr(const char *) { return Attr(); }
  void add_object(const char *, const Any &) {}
};
typedef module_ module;
struct options { options &disable_function_signatures() { return *this; } options &disable_user_defined_docstrings() { return *this; } options &enable_function_signatures() { return *this; } };
template <class T> struct is_holder : std::false_type {};
template <class T> struct is_holder<std::shared_ptr<T>> : std::true_type {};
template <class T, class D> struct is_holder<std::unique_ptr<T, D>> : std::true_type {};
template <class T, class B, bool> struct basereg { static void go() { pymock::add_base<T, B>(); } };
template <class T, class B> struct basereg<T, B, false> { static void go() {} };
template <class T, class... Opt> class class_ {
public:
  const char *name; typedef T type;
  template <class... E> class_(const module_ &m, const char *n, const E &...) : name(scoped(m.name, n)) { int d[] = {0, (basereg<T, Opt, !is_holder<Opt>::value && std::is_base_of<Opt, T>::value>::go(), 0)...}; (void)d;
    basereg<T, mrob::FGraphSolve, std::is_base_of<mrob::FGraphSolve, T>::value && !std::is_same<T, mrob::FGraphSolve>::value>::go(); basereg<T, mrob::PlaneRegistration, std::is_base_of<mrob::PlaneRegistration, T>::value && !std::is_same<T, mrob::PlaneRegistration>::value>::go(); basereg<T, mrob::CreatePoints, std::is_base_of<mrob::CreatePoints, T>::value && !std::is_same<T, mrob::CreatePoints>::value>::go(); }
  template <class C, class... O, class... E> class_(const class_<C, O...> &m, const char *n, const E &...) : name(scoped(m.name, n)) {}
  template <class... A, class... E> class_ &def(const init_<A...> &, const E &... e) { extra(pymock::record(name, "__init__", Make<T, A...>(), false), e...); return *this; }
  template <class F, class... E> class_ &def(const initf_<F> &i, const E &... e) { extra(pymock::record(name, "__init__", i.f, false), return_value_policy::take_ownership, e...); return *this; }
  template <class F, class... E> class_ &def(const char *n, F &&f, const E &... e) { extra(pymock::record(name, n, pymock::wrap<T>(typename std::decay<F>::type(std::forward<F>(f))), true), e...); return *this; }
  template <class F, class... E> class_ &def_static(const char *n, F &&f, const E &... e) { extra(pymock::record(name, n, pymock::wrap<void>(typename std::decay<F>::type(std::forward<F>(f))), false), e...); return *this; }
  struct MulF { auto operator()(const T &a, const T &b) const -> decltype(a * b) { return a * b; } };
  template <class... E> class_ &def(const op_<op_mul, self_t> &, const E &... e) { return def("__mul__", [](const T &a, const T &b) { return a * b; }, e...); }
  template <class F, class... E> class_ &def_property_readonly(const char *n, F &&f, const E &... e) { extra(pymock::record(name, n, pymock::wrap<T>(typename std::decay<F>::type(std::forward<F>(f))), true), return_value_policy::reference_internal, e...); return *this; }
  template <class F, class S, class... E> class_ &def_property(const char *n, F &&f, S &&, const E &... e) { return def_property_readonly(n, std::forward<F>(f), e...); }
  template <class C, class D, class... E> class_ &def_readonly(const char *n, const D C::*m, const E &... e) { extra(pymock::record(name, n, [m](const T &s) -> const D & { return s.*m; }, true), return_value_policy::reference_internal, e...); return *this; }
  template <class C, class D, class... E> class_ &def_readwrite(const char *n, D C::*m, const E &... e) { extra(pymock::record(name, n, [m](const T &s) -> const D & { return s.*m; }, true), return_value_policy::reference_internal, e...); return *this; }
  module_::Attr attr(const char *) { return module_::Attr(); }
};
template <class T> class enum_ {
public:
  const char *name;
  template <class S, class... E> enum_(const S &m, const char *n, const E &...) : name(scoped(m.name, n)), sc(m.name) {}
  const char *sc;
  enum_ &value(const char *n, T v, const char * = nullptr) { pymock::Val *q = new pymock::Val; q->scope = sc; q->name = n; q->v = (long)v; q->next = pymock::vals_; pymock::vals_ = q; return *this; }
  enum_ &export_values() { return *this; }
};
inline void add_ostream_redirect(module_, const char * = "") {}
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }
using namespace literals;
template <class T> using array_t = Any; typedef Any array; typedef Any list; typedef Any dict; typedef Any tuple; typedef Any str; typedef Any function;
} // namespace pybind11
namespace py_compat = pybind11;
