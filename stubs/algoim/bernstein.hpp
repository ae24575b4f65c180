#pragma once
#include <algoim/binomial.hpp>
#include <algoim/xarray.hpp>
#include <algoim/booluarray.hpp>
namespace algoim::bernstein {
template<int N> real evalBernsteinPoly(const xarray<real, N> &, const uvector<real, N> &);
template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &, const uvector<real, N> &);
template<int N> int uniformSign(const xarray<real, N> &);
template<typename T, int N> void deCasteljau(xarray<T, N> &, const real *, const real *);
real modifiedChebyshevNode(int i, int n);
int bernsteinUnitIntervalRealRoots(const real *, int, real *);
template<int N> void collapseAlongAxis(const xarray<real, N> &, const uvector<real, N - 1> &, int, real *);
}
