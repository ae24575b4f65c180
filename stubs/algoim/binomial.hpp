#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
struct Binomial
{
  static const real *row(int n);
  static real c(int n, int k);
};
}
