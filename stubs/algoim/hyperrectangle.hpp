#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class HyperRectangle
{
public:
  HyperRectangle(const uvector<T, N> &min, const uvector<T, N> &max);
  const uvector<T, N> &side(int) const;
  uvector<T, N> &side(int);
  const uvector<T, N> &min() const;
  uvector<T, N> &min();
  const uvector<T, N> &max() const;
  uvector<T, N> &max();
  const T &min(int) const;
  T &min(int);
  const T &max(int) const;
  T &max(int);
  uvector<T, N> extent() const;
  T extent(int) const;
  uvector<T, N> midpoint() const;
  T midpoint(int) const;
};
}
