#pragma once
#include <algoim/uvector.hpp>
#include <vector>
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_; uvector<int, N> ext_;
public:
  xarray(T *d, const uvector<int, N> &e) : data_(d), ext_(e) {}
  xarray(const xarray &) = default;
  xarray &operator=(const xarray &x) { for (int i = 0; i < size(); ++i) data_[i] = x.data_[i]; return *this; }
  xarray &operator=(T v) { for (int i = 0; i < size(); ++i) data_[i] = v; return *this; }
  void alloc(T *p) { data_ = p; }
  int size() const { return prod(ext_); }
  int fl(const uvector<int, N> &i) const { int k = i(0); for (int d = 1; d < N; ++d) k = k * ext_(d) + i(d); return k; }
  const T &operator[](int i) const { return data_[i]; }
  T &operator[](int i) { return data_[i]; }
  const T &m(const uvector<int, N> &i) const { return data_[fl(i)]; }
  T &m(const uvector<int, N> &i) { return data_[fl(i)]; }
  const T &operator()(const uvector<int, N> &i) const { return m(i); }
  T &operator()(const uvector<int, N> &i) { return m(i); }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int d) const { return ext_(d); }
  T *data() { return data_; }
  const T *data() const { return data_; }
  MultiLoop<N> loop() const { return MultiLoop<N>(uvector<int, N>(0), ext_); }
};
}
