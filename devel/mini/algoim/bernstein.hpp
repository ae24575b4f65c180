#pragma once
#include <algoim/binomial.hpp>
#include <algoim/xarray.hpp>
namespace algoim::bernstein {
inline real bern(int p, int i, real x) { return Binomial::c(p, i) * std::pow(x, i) * std::pow(1 - x, p - i); }
template<int N> real evalBernsteinPoly(const xarray<real, N> &a, const uvector<real, N> &x) { real r = 0; for (auto i = a.loop(); ~i; ++i) { real t = a.m(i()); for (int d = 0; d < N; ++d) t *= bern(a.ext(d) - 1, i(d), x(d)); r += t; } return r; }
template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &a, const uvector<real, N> &x) { uvector<real, N> g(0.0); for (auto i = a.loop(); ~i; ++i) for (int e = 0; e < N; ++e) { real t = a.m(i()); for (int d = 0; d < N; ++d) { const int p = a.ext(d) - 1; t *= d != e ? bern(p, i(d), x(d)) : p == 0 ? 0.0 : p * ((i(d) > 0 ? bern(p - 1, i(d) - 1, x(d)) : 0.0) - (i(d) < p ? bern(p - 1, i(d), x(d)) : 0.0)); } g(e) += t; } return g; }
template<int N> int uniformSign(const xarray<real, N> &a) { int p = 0, m = 0; for (int i = 0; i < a.size(); ++i) (a[i] > 0 ? p : m)++; return p == a.size() ? 1 : m == a.size() ? -1 : 0; }
inline real modifiedChebyshevNode(int i, int n) { return 0.5 - 0.5 * std::cos((2 * i + 1) * M_PI / (2 * n)) / std::cos(M_PI / (2 * n)); }
// restriction of a Bernstein polynomial to the box [a,b]
template<typename T, int N> void deCasteljau(xarray<T, N> &out, const real *a, const real *b)
{
  for (int d = 0; d < N; ++d) {
    const int p = out.ext(d) - 1;
    int st = 1; for (int e = d + 1; e < N; ++e) st *= out.ext(e);
    for (auto i = out.loop(); ~i; ++i) if (i(d) == 0) {
      T *c = &out.m(i());
      std::vector<T> o(p + 1), q(p + 1);
      // blossom
      for (int k = 0; k <= p; ++k) {
        for (int j = 0; j <= p; ++j) q[j] = c[j * st];
        for (int l = 0; l < p; ++l) { const real t = l < k ? b[d] : a[d]; for (int j = 0; j < p - l; ++j) q[j] = q[j] * (1 - t) + q[j + 1] * t; }
        o[k] = q[0];
      }
      for (int j = 0; j <= p; ++j) c[j * st] = o[j];
    }
  }
}
}
