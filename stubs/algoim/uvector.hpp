// Stand-in for algoim's uvector: same names and signatures, just enough for the
// front end to type-check qugar's sources offline.  Never linked or executed.
#pragma once
#include <algorithm>
#include <ranges>
#include <array>
#include <cmath>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace algoim {
using real = double;
template<typename T, int N> class uvector;
template<typename T, int N> class uvector
{
  T data_[N > 0 ? N : 1];

public:
  using value_type = T;
  uvector() {}
  uvector(const T &value);
  template<typename S, std::enable_if_t<std::is_convertible_v<S, T> && !std::is_same_v<S, T>, int> = 0> uvector(const S &value);
  template<typename S> uvector(const uvector<S, N> &other);
  uvector &operator=(const uvector &) = default;
  uvector(const uvector &) = default;
  uvector &operator=(const T &);
  template<typename... Args, std::enable_if_t<(sizeof...(Args) == N && N > 1), int> = 0> uvector(Args... args);
  const T &operator()(int i) const;
  T &operator()(int i);
  const T *data() const;
  T *data();
  template<typename S> uvector &operator+=(const S &);
  template<typename S> uvector &operator-=(const S &);
  template<typename S> uvector &operator*=(const S &);
  template<typename S> uvector &operator/=(const S &);
  uvector operator-() const;
};
namespace detail {
  template<typename T> struct is_uv : std::false_type {};
  template<typename T, int N> struct is_uv<uvector<T, N>> : std::true_type {};
}
#define ALGOIM_STUB_OP(op)                                                                               \
  template<typename T, typename S, int N> auto operator op(const uvector<T, N> &, const uvector<S, N> &) \
    -> uvector<std::decay_t<decltype(std::declval<T>() op std::declval<S>())>, N>;                                    \
  template<typename T, typename S, int N, std::enable_if_t<!detail::is_uv<S>::value, int> = 0>           \
  auto operator op(const uvector<T, N> &, const S &)                                                     \
    -> uvector<std::decay_t<decltype(std::declval<T>() op std::declval<S>())>, N>;                                    \
  template<typename T, typename S, int N, std::enable_if_t<!detail::is_uv<S>::value, int> = 0>           \
  auto operator op(const S &, const uvector<T, N> &)                                                     \
    -> uvector<std::decay_t<decltype(std::declval<S>() op std::declval<T>())>, N>;
ALGOIM_STUB_OP(+)
ALGOIM_STUB_OP(-)
ALGOIM_STUB_OP(*)
ALGOIM_STUB_OP(/)
ALGOIM_STUB_OP(==)
ALGOIM_STUB_OP(!=)
ALGOIM_STUB_OP(<)
ALGOIM_STUB_OP(<=)
ALGOIM_STUB_OP(>)
ALGOIM_STUB_OP(>=)
ALGOIM_STUB_OP(&&)
ALGOIM_STUB_OP(||)
#undef ALGOIM_STUB_OP
template<typename T, int N> std::ostream &operator<<(std::ostream &, const uvector<T, N> &);
template<typename T, typename S, int N>
auto dot(const uvector<T, N> &, const uvector<S, N> &) -> std::decay_t<decltype(std::declval<T>() * std::declval<S>())>;
template<typename T, int N> T sqrnorm(const uvector<T, N> &);
template<typename T, int N> T norm(const uvector<T, N> &);
template<typename T, int N> T prod(const uvector<T, N> &);
template<typename T, int N> T max(const uvector<T, N> &);
template<typename T, int N> T min(const uvector<T, N> &);
template<typename T, int N> int argmax(const uvector<T, N> &);
template<typename T, int N> int argmin(const uvector<T, N> &);
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &);
template<typename T, int N> bool all(const uvector<T, N> &);
template<typename T, int N> bool any(const uvector<T, N> &);
template<typename T, int N> bool all(const uvector<T, N> &);
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &, int, T);
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &, int);
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &, int, T);
template<typename T, int N> uvector<T, N> inc_component(const uvector<T, N> &, int, T);
template<int N> class MultiLoop
{
public:
  MultiLoop(const uvector<int, N> &, const uvector<int, N> &);
  MultiLoop &operator++();
  const uvector<int, N> &operator()() const;
  int operator()(int) const;
  operator bool() const;
  bool operator~() const;
};
}// namespace algoim
