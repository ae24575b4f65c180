// Small working replacement for the parts of algoim these demonstrations need.
#pragma once
#include <algorithm>
#include <ranges>
#include <array>
#include <cmath>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace algoim {
using real = double;
template<typename T, int N> class uvector
{
  T data_[N > 0 ? N : 1];

public:
  using value_type = T;
  uvector() {}
  uvector(const T &v) { for (int i = 0; i < N; ++i) data_[i] = v; }
  template<typename S, std::enable_if_t<std::is_convertible_v<S, T> && !std::is_same_v<S, T>, int> = 0> uvector(const S &v) { for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(v); }
  template<typename S> uvector(const uvector<S, N> &o) { for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(o(i)); }
  uvector &operator=(const uvector &) = default;
  uvector(const uvector &) = default;
  uvector &operator=(const T &v) { for (int i = 0; i < N; ++i) data_[i] = v; return *this; }
  template<typename... Args, std::enable_if_t<(sizeof...(Args) == N && N > 1), int> = 0> uvector(Args... args) : data_{ static_cast<T>(args)... } {}
  const T &operator()(int i) const { return data_[i]; }
  T &operator()(int i) { return data_[i]; }
  const T *data() const { return data_; }
  T *data() { return data_; }
#define CA(op) \
  template<typename S> uvector &operator op(const uvector<S, N> &o) { for (int i = 0; i < N; ++i) data_[i] op o(i); return *this; } \
  template<typename S, std::enable_if_t<std::is_convertible_v<S, T>, int> = 0> uvector &operator op(const S &s) { const T v = s; for (int i = 0; i < N; ++i) data_[i] op v; return *this; }
  CA(+=) CA(-=) CA(*=) CA(/=)
#undef CA
  uvector operator-() const { uvector r(*this); for (int i = 0; i < N; ++i) r(i) = -data_[i]; return r; }
};
namespace detail {
  template<typename T> struct is_uv : std::false_type {};
  template<typename T, int N> struct is_uv<uvector<T, N>> : std::true_type {};
}
#define UV_OP(op) \
  template<typename T, typename S, int N> auto operator op(const uvector<T, N> &a, const uvector<S, N> &b) { uvector<std::decay_t<decltype(a(0) op b(0))>, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b(i); return r; } \
  template<typename T, typename S, int N, std::enable_if_t<!detail::is_uv<S>::value, int> = 0> auto operator op(const uvector<T, N> &a, const S &b) -> uvector<std::decay_t<decltype(std::declval<T>() op std::declval<S>())>, N> { uvector<std::decay_t<decltype(a(0) op b)>, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b; return r; } \
  template<typename T, typename S, int N, std::enable_if_t<!detail::is_uv<S>::value, int> = 0> auto operator op(const S &a, const uvector<T, N> &b) -> uvector<std::decay_t<decltype(std::declval<S>() op std::declval<T>())>, N> { uvector<std::decay_t<decltype(a op b(0))>, N> r; for (int i = 0; i < N; ++i) r(i) = a op b(i); return r; }
UV_OP(+) UV_OP(-) UV_OP(*) UV_OP(/) UV_OP(==) UV_OP(!=) UV_OP(<) UV_OP(<=) UV_OP(>) UV_OP(>=) UV_OP(&&) UV_OP(||)
#undef UV_OP
template<typename T, int N> std::ostream &operator<<(std::ostream &o, const uvector<T, N> &v) { for (int i = 0; i < N; ++i) o << v(i) << ' '; return o; }
template<typename T, typename S, int N> auto dot(const uvector<T, N> &a, const uvector<S, N> &b) { auto r = a(0) * b(0); for (int i = 1; i < N; ++i) r += a(i) * b(i); return r; }
template<typename T, int N> T sqrnorm(const uvector<T, N> &a) { T r = a(0) * a(0); for (int i = 1; i < N; ++i) r += a(i) * a(i); return r; }
template<typename T, int N> T norm(const uvector<T, N> &a) { using std::sqrt; return sqrt(sqrnorm(a)); }
template<typename T, int N> T prod(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r *= a(i); return r; }
template<typename T, int N> T max(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r = std::max(r, a(i)); return r; }
template<typename T, int N> T min(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r = std::min(r, a(i)); return r; }
template<typename T, int N> int argmax(const uvector<T, N> &a) { int r = 0; for (int i = 1; i < N; ++i) if (a(i) > a(r)) r = i; return r; }
template<typename T, int N> int argmin(const uvector<T, N> &a) { int r = 0; for (int i = 1; i < N; ++i) if (a(i) < a(r)) r = i; return r; }
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a) { uvector<T, N> r; for (int i = 0; i < N; ++i) r(i) = std::abs(a(i)); return r; }
template<typename T, int N> bool all(const uvector<T, N> &a) { for (int i = 0; i < N; ++i) if (!a(i)) return false; return true; }
template<typename T, int N> bool any(const uvector<T, N> &a) { for (int i = 0; i < N; ++i) if (a(i)) return true; return false; }
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &a, int d, T v) { uvector<T, N + 1> r; for (int i = 0; i < N + 1; ++i) r(i) = i < d ? a(i) : i == d ? v : a(i - 1); return r; }
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &a, int d) { uvector<T, N - 1> r; for (int i = 0; i < N - 1; ++i) r(i) = i < d ? a(i) : a(i + 1); return r; }
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &a, int d, T v) { auto r = a; r(d) = v; return r; }
template<typename T, int N> uvector<T, N> inc_component(const uvector<T, N> &a, int d, T v) { auto r = a; r(d) += v; return r; }
template<int N> class MultiLoop
{
  uvector<int, N> lo_, hi_, i_; bool ok_{true};
public:
  MultiLoop(const uvector<int, N> &lo, const uvector<int, N> &hi) : lo_(lo), hi_(hi), i_(lo) { for (int d = 0; d < N; ++d) if (lo(d) >= hi(d)) ok_ = false; }
  MultiLoop &operator++() { for (int d = N - 1; d >= 0; --d) { if (++i_(d) < hi_(d)) return *this; i_(d) = lo_(d); } ok_ = false; return *this; }
  const uvector<int, N> &operator()() const { return i_; }
  int operator()(int d) const { return i_(d); }
  operator bool() const { return ok_; }
  bool operator~() const { return ok_; }
};
}// namespace algoim
