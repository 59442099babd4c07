// Sampling along a run-time axis
#include "LitlRaster/Sampling.h"
using namespace Litl;
int main() {
  const PositionSampling<2> sampling(Box<2>({0, 0}, {4, 4}), {1, 2});
  return int(sampling.along(Index(1)).size()) - 3;
}
