#pragma once
#ifndef PART
#define PART 0
#endif
#include "utils/config/ConfigMap.h"
// Stand-in for Kokkos: every kernel is run for two different work items chosen by the solver, every access of a view is
// checked against the extents of the view, and the accesses to one location chosen by the solver are recorded.
#include <cmath>
#include <cstdint>
#include <cstddef>
#include <type_traits>
extern "C" { int v_int(int); void v_assert(int, const char *); void v_assume(int); double v_real(void); void v_kernel(const char *); void v_where(int, int, int, int, int, int, int, int); }
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_IMPL_MATH_CONSTANT(n, v) inline constexpr double n = v;
#define KOKKOS_ASSERT(x)
#define KOKKOS_VERSION 30701
#define KOKKOS_ENABLE_OPENMP
namespace R {
enum { READ = 1, WRITE = 2, ATOMIC = 4 };
inline int nreg, active, cur, watch, at[6], seen[2], count;
__attribute__((noinline)) inline void access(int kind, int reg, int rank, const int *e, int i0, int i1, int i2, int i3, int i4) {
  v_where(kind, reg, cur, i0, i1, i2, i3, i4);
#if PART != 2
  v_assert(reg != 0, "the array has been allocated");
  v_assert(i0 >= 0 && i0 < e[0] && (rank < 2 || (i1 >= 0 && i1 < e[1])) && (rank < 3 || (i2 >= 0 && i2 < e[2])) && (rank < 4 || (i3 >= 0 && i3 < e[3])) && (rank < 5 || (i4 >= 0 && i4 < e[4])), "the access is inside the array");
#endif
#if PART != 1
  if (cur == 0 && kind == READ) return;   // the first work item is the one that writes
  if (active && reg == watch && i0 == at[0] && (rank < 2 || i1 == at[1]) && (rank < 3 || i2 == at[2]) && (rank < 4 || i3 == at[3]) && (rank < 5 || i4 == at[4])) seen[cur] |= kind;
#endif
}
inline int pick(int mask = -1) { return v_int(nvar++) & mask; }   // the mask keeps the circuits small
}
namespace Kokkos {
struct OpenMP {}; struct Serial {}; struct HostSpace {}; struct LayoutLeft {}; struct LayoutRight {}; struct InitArguments {};
using DefaultExecutionSpace = OpenMP; using DefaultHostExecutionSpace = OpenMP;
template <class T, size_t N = 0, class P = void> struct Array { T v[N ? N : 1]; T &operator[](size_t i) { return v[i]; } const T &operator[](size_t i) const { return v[i]; } static constexpr size_t size() { return N; } T *data() { return v; } const T *data() const { return v; } };
template <class T> struct Ptr { struct VB *dummy; int reg, rank; const int *e; int i[5]; };
template <class T> struct Ref {
  int reg, rank; const int *e; int i[5];
  void acc(int k) const { R::access(k, reg, rank, e, i[0], i[1], i[2], i[3], i[4]); }
  operator T() const { acc(R::READ); return (T)v_real(); }
  const Ref &operator=(T) const { acc(R::WRITE); return *this; }
  const Ref &operator=(const Ref &o) const { o.acc(R::READ); acc(R::WRITE); return *this; }
  const Ref &operator+=(T) const { acc(R::READ | R::WRITE); return *this; } const Ref &operator-=(T) const { acc(R::READ | R::WRITE); return *this; }
  const Ref &operator*=(T) const { acc(R::READ | R::WRITE); return *this; } const Ref &operator/=(T) const { acc(R::READ | R::WRITE); return *this; }
  const Ref *operator&() const { return this; }
  Ref() = default; Ref(const Ref &) = default;
};
template <class T> inline void atomic_add(const Ref<T> *r, T) { r->acc(R::ATOMIC); }
template <class T> inline void atomic_sub(const Ref<T> *r, T) { r->acc(R::ATOMIC); }
template <class T> inline T atomic_fetch_add(const Ref<T> *r, T) { r->acc(R::ATOMIC); return (T)v_real(); }
template <class T> inline T atomic_fetch_sub(const Ref<T> *r, T) { r->acc(R::ATOMIC); return (T)v_real(); }
template <class T> struct Dims { enum { dyn = 0, st = 0 }; using type = T; static void fill(int *) {} };
template <class T> struct Dims<T *> { enum { dyn = Dims<T>::dyn + 1, st = 0 }; using type = typename Dims<T>::type; static void fill(int *) {} };
template <class T, size_t N> struct Dims<T[N]> { enum { dyn = Dims<T>::dyn, st = Dims<T>::st + 1 }; using type = typename Dims<T>::type; static void fill(int *e) { *e = N; Dims<T>::fill(e + 1); } };
template <class T, class... P> struct View {
  using D = Dims<T>; using value_type = typename std::remove_const<typename D::type>::type; using HostMirror = View; using non_const_type = View; enum { rank = D::dyn + D::st, Rank = rank };
  int reg; int e[5];
  View() : reg(0) { e[0] = e[1] = e[2] = e[3] = e[4] = 0; }
  void set(long a, long b, long c, long d, long f) { e[0] = D::dyn > 0 ? (int)a : 1; e[1] = D::dyn > 1 ? (int)b : 1; e[2] = D::dyn > 2 ? (int)c : 1; e[3] = D::dyn > 3 ? (int)d : 1; e[4] = D::dyn > 4 ? (int)f : 1; if (D::st) D::fill(e + D::dyn); reg = ++R::nreg; }
  View(const char *, long a = 0, long b = 0, long c = 0, long d = 0, long f = 0) { set(a, b, c, d, f); }
  template <class S, class = decltype(std::declval<S>().c_str())> View(const S &, long a = 0, long b = 0, long c = 0, long d = 0, long f = 0) { set(a, b, c, d, f); }
  template <class U, class... Q, class = typename std::enable_if<(int)View<U, Q...>::rank == (int)rank>::type> View(const View<U, Q...> &o) : reg(o.reg) { e[0] = o.e[0]; e[1] = o.e[1]; e[2] = o.e[2]; e[3] = o.e[3]; e[4] = o.e[4]; }
  Ref<value_type> operator()(long i0, long i1 = 0, long i2 = 0, long i3 = 0, long i4 = 0) const { Ref<value_type> r; r.reg = reg; r.rank = rank; r.e = e; r.i[0] = (int)i0; r.i[1] = (int)i1; r.i[2] = (int)i2; r.i[3] = (int)i3; r.i[4] = (int)i4; return r; }
  Ref<value_type> operator[](long i0) const { return (*this)(i0); }
  size_t extent(int k) const { return k < rank ? e[k] : 1; } size_t size() const { return (size_t)e[0] * e[1]; } bool is_allocated() const { return reg != 0; } value_type *data() const { return nullptr; } value_type *ptr_on_device() const { return nullptr; } size_t span() const { return 0; }
};
template <class A, class B> inline void deep_copy(const A &a, const B &b) { if constexpr (!std::is_arithmetic<B>::value) v_assert(a.reg && b.reg && a.e[0] == b.e[0] && a.e[1] == b.e[1] && a.e[2] == b.e[2] && a.e[3] == b.e[3] && a.e[4] == b.e[4], "an array is copied to one of the same size"); }
template <class V> inline V create_mirror(const V &v) { return v; } template <class V> inline V create_mirror_view(const V &v) { return v; }
template <class V, class... N> inline void resize(V &v, N... n) { long a[5] = {(long)n...}; v.set(a[0], a[1], a[2], a[3], a[4]); }
inline void fence() {} 
template <int N> struct Rank { enum { rank = N }; };
template <class... P> struct RangePolicy { long b, n; RangePolicy(long b_, long n_) : b(b_), n(n_) {} };
template <class K, class... P> struct MDRangePolicy { long b[K::rank], n[K::rank]; template <class A, class B> MDRangePolicy(const A (&x)[K::rank], const B (&y)[K::rank]) { for (int i = 0; i < K::rank; ++i) { b[i] = x[i]; n[i] = y[i]; } } };
template <class T> struct Max { using value_type = T; T *v; Max(T &x) : v(&x) {} }; template <class T> struct Min { using value_type = T; T *v; Min(T &x) : v(&x) {} }; template <class T> struct Sum { using value_type = T; T *v; Sum(T &x) : v(&x) {} };
template <class F, class... A> inline void item2(const F &f, const int (&q)[2][4], int k, int dim, A &...a) { const int &x = q[k][0], &y = q[k][1], &z = q[k][2]; (void)y; (void)z; if constexpr (std::is_invocable<const F &, int, int, int, A &...>::value) f(x, y, z, a...); else if constexpr (std::is_invocable<const F &, int, int, A &...>::value) f(x, y, a...); else f(x, a...); }
constexpr bool has(const char *s, const char *t) { for (; *s; ++s) { int i = 0; while (t[i] && s[i] == t[i]) ++i; if (!t[i]) return true; } return false; }
// two work items, one location
template <class F, class... A> inline void two(const char *name, int dim, const long *b, const long *n, const F &f, A &...a) {
  [[clang::nomerge]] v_kernel(__PRETTY_FUNCTION__); ++R::count;
#ifdef ONLY
  if constexpr (has(__PRETTY_FUNCTION__, ONLY)) {
#endif
  int q[2][4] = {}; int differ = 0;
  const int items = PART == 1 ? 1 : 2;
  for (int k = 0; k < items; ++k) for (int d = 0; d < dim; ++d) { q[k][d] = R::pick(dim == 1 ? 0xfffff : 0xff); v_assert(b[d] >= 0 && n[d] <= (dim == 1 ? 0x100000 : 0x100), "every work item can be chosen"); v_assume(q[k][d] >= b[d] && q[k][d] < n[d]); }
#if PART != 1
  for (int d = 0; d < dim; ++d) differ |= q[0][d] != q[1][d];
  v_assume(differ);
  R::watch = R::pick(63); v_assert(R::nreg < 64, "every array can be chosen"); for (int i = 0; i < 5; ++i) R::at[i] = R::pick(0xff);
#endif
  R::seen[0] = R::seen[1] = 0; R::active = 1;
  for (int k = 0; k < items; ++k) { R::cur = k; item2(f, q, k, dim, a...); }
  R::active = 0;
#if PART != 1
  int s = R::seen[0], t = R::seen[1];
  v_assert(!((s & R::WRITE) && t) && !((s & R::ATOMIC) && (t & (R::READ | R::WRITE))), "two work items do not interfere");
#endif
#ifdef ONLY
  }
#endif
}
template <class F> inline void parallel_for(const char *nm, long n, const F &f) { long b = 0; two(nm, 1, &b, &n, f); }
template <class F> inline void parallel_for(long n, const F &f) { long b = 0; two("", 1, &b, &n, f); }
template <class F, class... P> inline void parallel_for(const char *nm, const RangePolicy<P...> &p, const F &f) { two(nm, 1, &p.b, &p.n, f); }
template <class F, class K, class... P> inline void parallel_for(const char *nm, const MDRangePolicy<K, P...> &p, const F &f) { two(nm, K::rank, p.b, p.n, f); }
template <class F, class... P> inline void parallel_for(const RangePolicy<P...> &p, const F &f) { two("", 1, &p.b, &p.n, f); }
template <class F, class K, class... P> inline void parallel_for(const MDRangePolicy<K, P...> &p, const F &f) { two("", K::rank, p.b, p.n, f); }
template <class T> struct RV { using type = T; static T *p(T &t) { return &t; } }; template <class T> struct RV<Max<T>> { using type = T; }; template <class T> struct RV<Min<T>> { using type = T; }; template <class T> struct RV<Sum<T>> { using type = T; };
template <class X> inline void set_result(X &x) { x = (X)v_real(); } template <class T> inline void set_result(Max<T> &x) { *x.v = (T)v_real(); } template <class T> inline void set_result(const Max<T> &x) { *x.v = (T)v_real(); } template <class T> inline void set_result(Min<T> &x) { *x.v = (T)v_real(); } template <class T> inline void set_result(Sum<T> &x) { *x.v = (T)v_real(); }
template <class F, class K, class... P, class X> inline void parallel_reduce(const char *nm, const MDRangePolicy<K, P...> &p, const F &f, X &&x) { typename RV<typename std::decay<X>::type>::type t = 0; two(nm, K::rank, p.b, p.n, f, t); set_result(x); }
template <class F, class... P, class X> inline void parallel_reduce(const char *nm, const RangePolicy<P...> &p, const F &f, X &&x) { typename RV<typename std::decay<X>::type>::type t = 0; two(nm, 1, &p.b, &p.n, f, t); set_result(x); }
template <class F, class K, class... P, class X> inline void parallel_reduce(const MDRangePolicy<K, P...> &p, const F &f, X &&x) { typename RV<typename std::decay<X>::type>::type t = 0; two("", K::rank, p.b, p.n, f, t); set_result(x); }
template <class F, class X> inline void parallel_reduce(const char *nm, long n, const F &f, X &&x) { long b = 0; typename RV<typename std::decay<X>::type>::type t = 0; two(nm, 1, &b, &n, f, t); set_result(x); }
template <class F, class X> inline void parallel_reduce(long n, const F &f, X &&x) { long b = 0; typename RV<typename std::decay<X>::type>::type t = 0; two("", 1, &b, &n, f, t); set_result(x); }
using std::abs; using std::fabs; using std::sqrt; using std::exp; using std::fmin; using std::fmax; using std::fmod; using std::isnan;
namespace Experimental { using std::fabs; using std::sqrt; using std::exp; using std::fmin; using std::fmax; using std::fmod; using std::isnan; }
struct Rnd { double drand(double = 0, double = 0) { return v_real(); } };
template <class S> struct Random_XorShift64_Pool { using generator_type = Rnd; Random_XorShift64_Pool(uint64_t = 0) {} Rnd get_state() const { return Rnd(); } void free_state(Rnd) const {} };
}
