#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext);
  xarray(const xarray &x);
  xarray &operator=(const xarray &x);
  xarray &operator=(T);
  void alloc();
  const T &operator[](int) const;
  T &operator[](int);
  const T &m(const uvector<int, N> &) const;
  T &m(const uvector<int, N> &);
  const T &operator()(const uvector<int, N> &) const;
  T &operator()(const uvector<int, N> &);
  const uvector<int, N> &ext() const;
  int ext(int) const;
  int size() const;
  T *data();
  const T *data() const;
  MultiLoop<N> loop() const;
  T maxNorm() const;
  T max() const;
  T min() const;
};
template<typename T> struct SparkStack
{
  template<typename... R> SparkStack(T **, R...);
};
#define algoim_spark_alloc(T, ...) SparkStack<T> spark_stack_{ __VA_ARGS__ }
#define algoim_spark_alloc_def(T, val, ...) SparkStack<T> spark_stack_def_{ __VA_ARGS__ }
}
