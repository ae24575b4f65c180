// Declarations of the parts of basix 0.10 that the shim may use (analysis only).
#pragma once
#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <span>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
namespace basix {
namespace cell {
enum class type : int { point = 0, interval = 1, triangle = 2, tetrahedron = 3, quadrilateral = 4, hexahedron = 5, prism = 6, pyramid = 7 };
}
namespace element {
enum class lagrange_variant {
  unset = 0, equispaced = 1, gll_warped = 2, gll_isaac = 3, gll_centroid = 4, chebyshev_warped = 5, chebyshev_isaac = 6,
  chebyshev_centroid = 7, gl_warped = 8, gl_isaac = 9, gl_centroid = 10, legendre = 11, bernstein = 12,
};
enum class dpc_variant {
  unset = 0, simplex_equispaced = 1, simplex_gll = 2, horizontal_equispaced = 3, horizontal_gll = 4, diagonal_equispaced = 5,
  diagonal_gll = 6, legendre = 7,
};
enum class family { custom = 0, P = 1, RT = 2, N1E = 3, BDM = 4, N2E = 5, CR = 6, Regge = 7, DPC = 8, bubble = 9, serendipity = 10, HHJ = 11, Hermite = 12, iso = 13 };
}// namespace element
template<std::floating_point F> class FiniteElement
{
  std::vector<F> data_;

public:
  FiniteElement(const FiniteElement &) = default;
  FiniteElement(FiniteElement &&) = default;
  FiniteElement &operator=(const FiniteElement &) = default;
  FiniteElement &operator=(FiniteElement &&) = default;
  ~FiniteElement() = default;
  std::array<std::size_t, 4> tabulate_shape(std::size_t nd, std::size_t num_points) const;
  std::pair<std::vector<F>, std::array<std::size_t, 4>> tabulate(int nd, std::span<const F> x, std::array<std::size_t, 2> shape) const;
  void tabulate(int nd, std::span<const F> x, std::array<std::size_t, 2> xshape, std::span<F> basis) const;
  const std::vector<std::size_t> &value_shape() const;
  int dim() const;
  int degree() const;
};
template<std::floating_point T>
FiniteElement<T> create_element(element::family family, cell::type cell, int degree, element::lagrange_variant lvariant,
  element::dpc_variant dvariant, bool discontinuous, std::vector<int> dof_ordering = {});
}// namespace basix
