#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
template<int N> struct Interval
{
  real alpha;
  uvector<real, N> beta;
  real eps;
  Interval();
  Interval(real);
  Interval(real, const uvector<real, N> &);
  Interval(real, const uvector<real, N> &, real);
  bool uniformSign() const;
  int sign() const;
  real maxAbs() const;
  real maxDeviation() const;
  Interval &operator+=(const Interval &);
  Interval &operator-=(const Interval &);
  Interval &operator*=(const Interval &);
  Interval &operator/=(const Interval &);
  Interval operator-() const;
  static real &delta(int);
  static uvector<real, N> &delta();
};
#define ALGOIM_STUB_OP(op)                                                   \
  template<int N> Interval<N> operator op(const Interval<N> &, const Interval<N> &); \
  template<int N> Interval<N> operator op(const Interval<N> &, real);        \
  template<int N> Interval<N> operator op(real, const Interval<N> &);
ALGOIM_STUB_OP(+)
ALGOIM_STUB_OP(-)
ALGOIM_STUB_OP(*)
ALGOIM_STUB_OP(/)
#undef ALGOIM_STUB_OP
template<int N> Interval<N> sin(const Interval<N> &);
template<int N> Interval<N> cos(const Interval<N> &);
template<int N> Interval<N> sqrt(const Interval<N> &);
template<int N> Interval<N> exp(const Interval<N> &);
template<int N> Interval<N> log(const Interval<N> &);
}// namespace algoim
