#pragma once
#include <algoim/uvector.hpp>
namespace algoim {
template<int N, int E> class booluarray
{
public:
  booluarray();
  booluarray(bool);
  bool operator()(const uvector<int, N> &) const;
  bool &operator()(const uvector<int, N> &);
  bool operator()(int) const;
};
}
