#pragma once
#include <algoim/interval.hpp>
#include <algoim/hyperrectangle.hpp>
#include <algoim/xarray.hpp>
namespace algoim {
template<int N> struct PsiCode
{
  unsigned bits;
  PsiCode();
  PsiCode(const uvector<int, N> &sides, int sign);
  PsiCode(const PsiCode<N> &other, int dir, int side, int sign);
  int side(int) const;
  int sign() const;
};
template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &, real);
  };
  std::vector<Node> nodes;
  real sumWeights() const;
  void evalIntegrand(const uvector<real, N> &, real);
};
template<int N, typename F>
QuadratureRule<N> quadGen(const F &, const HyperRectangle<real, N> &, int dim, int side, int qo);
template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  template<typename P>
  ImplicitIntegral(const Phi &, F &f, const uvector<bool, N> &, const P &, int, const HyperRectangle<real, N> &, int)
  {
    uvector<real, N> x;
    real w{};
    f.evalIntegrand(x, w);
  }
};
namespace detail {
  template<bool S> void determineSigns(bool, int, int &, int &);
  template<typename F, int N>
  void rootFind(const F &, const uvector<real, N> &, int, real, real, std::vector<real> &, bool);
}
}
