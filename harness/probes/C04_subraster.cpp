// Iterate over a mutable subraster
#include "LitlRaster/Raster.h"
#include "LitlRaster/Subraster.h"
using namespace Litl;
int main() {
  VecRaster<int, 2> raster({3, 2});
  for (auto& e : raster.subraster({{1, 0}, {2, 1}})) {
    e = 1;
  }
  return raster[1] - 1;
}
