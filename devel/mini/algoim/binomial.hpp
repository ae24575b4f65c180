#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
struct Binomial
{
  static const real *row(int n) { static thread_local std::map<int, std::vector<real>> m; auto &v = m[n]; if (v.empty()) { v.assign(n + 1, 1.0); for (int k = 1; k < n; ++k) v[k] = v[k - 1] * (n - k + 1) / k; } return v.data(); }
  static real c(int n, int k) { return row(n)[k]; }
};
}
