// Unary plus
#include "LitlRaster/Raster.h"
using namespace Litl;
int main() {
  VecRaster<int, 2> raster({3, 2});
  return (+raster)[0];
}
