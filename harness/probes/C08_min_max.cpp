// Element-wise min() and max()
#include "LitlRaster/Raster.h"
using namespace Litl;
int main() {
  VecRaster<int, 2> raster({3, 2});
  raster.max(3).min(2);
  return raster[0] - 2;
}
