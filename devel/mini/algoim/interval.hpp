#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
// centre + linear part + remainder; the demonstrations only need it to compile, link and bound loosely
template<int N> struct Interval
{
  real alpha{0}; uvector<real, N> beta{0.0}; real eps{0};
  Interval() = default;
  Interval(real a) : alpha(a) {}
  Interval(real a, const uvector<real, N> &b) : alpha(a), beta(b) {}
  Interval(real a, const uvector<real, N> &b, real e) : alpha(a), beta(b), eps(e) {}
  static uvector<real, N> &delta() { static thread_local uvector<real, N> d{0.0}; return d; }
  static real &delta(int i) { return delta()(i); }
  real rad() const { real r = eps; for (int i = 0; i < N; ++i) r += std::abs(beta(i)) * delta()(i); return r; }
  real maxAbs() const { return std::abs(alpha) + rad(); }
  real maxDeviation() const { return rad(); }
  bool uniformSign() const { return std::abs(alpha) > rad(); }
  int sign() const { return uniformSign() ? (alpha > 0 ? 1 : -1) : 0; }
  Interval operator-() const { return { -alpha, -beta, eps }; }
  Interval &operator+=(const Interval &o) { alpha += o.alpha; beta += o.beta; eps += o.eps; return *this; }
  Interval &operator-=(const Interval &o) { alpha -= o.alpha; beta -= o.beta; eps += o.eps; return *this; }
  Interval &operator*=(const Interval &o) { const real r = rad(), s = o.rad(); const real a = alpha; const real e = r * s + std::abs(a) * o.eps + std::abs(o.alpha) * eps; beta = beta * o.alpha + o.beta * a; alpha = a * o.alpha; eps = e; return *this; }
  Interval &operator/=(const Interval &o) { const real r = o.rad(); return *this *= Interval(1.0 / o.alpha, uvector<real, N>(0.0), std::abs(r) / std::max(1e-300, std::abs(o.alpha) * std::abs(std::abs(o.alpha) - r))); }
};
#define IOP(op) \
  template<int N> Interval<N> operator op(Interval<N> a, const Interval<N> &b) { a op##= b; return a; } \
  template<int N> Interval<N> operator op(Interval<N> a, real b) { a op##= Interval<N>(b); return a; } \
  template<int N> Interval<N> operator op(real a, const Interval<N> &b) { Interval<N> r(a); r op##= b; return r; }
IOP(+) IOP(-) IOP(*) IOP(/)
#undef IOP
#define IFN(f) template<int N> Interval<N> f(const Interval<N> &a) { const real r = a.rad(); return { std::f(a.alpha), uvector<real, N>(0.0), std::max(std::abs(std::f(a.alpha + r) - std::f(a.alpha)), std::abs(std::f(a.alpha - r) - std::f(a.alpha))) }; }
IFN(sqrt) IFN(exp) IFN(log)
template<int N> Interval<N> sin(const Interval<N> &a) { return { std::sin(a.alpha), uvector<real, N>(0.0), a.rad() }; }
template<int N> Interval<N> cos(const Interval<N> &a) { return { std::cos(a.alpha), uvector<real, N>(0.0), a.rad() }; }
}
