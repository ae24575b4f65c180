#pragma once
#include <algoim/bernstein.hpp>
#ifndef ALGOIM_M
#define ALGOIM_M 8
#endif
namespace algoim {
template<int N, int E> struct PolySet
{
  int count() const;
  xarray<real, N> &poly(int);
  const xarray<real, N> &poly(int) const;
  booluarray<N, E> &mask(int);
  const booluarray<N, E> &mask(int) const;
  void push_back(const xarray<real, N> &, const booluarray<N, E> &);
};
namespace detail {
  template<int N, int E> uvector<real, N> score_estimate(PolySet<N, E> &, uvector<bool, N> &);
  template<int N, int E> void eliminate_axis(PolySet<N, E> &, int, PolySet<N - 1, E> &);
  template<int N, int E> bool lineIntersectsMask(const booluarray<N, E> &, const uvector<real, N - 1> &, int);
  template<int N, int E> bool maskEmpty(const booluarray<N, E> &);
  template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &, const booluarray<N, E> &);
  template<int N, int E> bool pointWithinMask(const booluarray<N, E> &, const uvector<real, N> &);
}
}
