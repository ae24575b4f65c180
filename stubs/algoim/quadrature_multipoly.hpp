#pragma once
#include <algoim/bernstein.hpp>
#include <algoim/polyset.hpp>
namespace algoim {
enum QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };
template<int N> struct ImplicitPolyQuadrature
{
  explicit ImplicitPolyQuadrature(const xarray<real, N> &);
  ImplicitPolyQuadrature(const xarray<real, N> &, const xarray<real, N> &);
  template<typename F> void integrate(QuadStrategy, int q, const F &f)
  {
    uvector<real, N> x;
    real w{};
    f(x, w);
  }
  template<typename F> void integrate_surf(QuadStrategy, int q, const F &f)
  {
    uvector<real, N> x, wn;
    real w{};
    f(x, w, wn);
  }
};
}
