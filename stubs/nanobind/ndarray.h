#pragma once
#include <nanobind/nanobind.h>
namespace nanobind {
struct numpy
{
};
struct c_contig
{
};
struct f_contig
{
};
struct ro
{
};
namespace device {
  struct cpu
  {
  };
}
template<long... N> struct shape
{
};
struct any_contig
{
};
template<typename T, typename... A> class ndarray
{
public:
  using Scalar = T;
  ndarray();
  ndarray(const T *data, std::size_t ndim, const std::size_t *shape, handle owner = {}, const std::int64_t *strides = nullptr);
  ndarray(const T *data, std::initializer_list<std::size_t> shape, handle owner = {}, std::initializer_list<std::int64_t> strides = {});
  T *data() const;
  std::size_t size() const;
  std::size_t ndim() const;
  std::size_t shape(std::size_t) const;
  template<typename... I> T &operator()(I...) const;
  object cast(rv_policy = rv_policy::automatic_reference, handle = {}) const;
};
}// namespace nanobind
