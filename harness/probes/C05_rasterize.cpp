// Make a raster from a named container
#include "LitlRaster/Raster.h"
#include <vector>
using namespace Litl;
int main() {
  std::vector<int> values {1, 2, 3, 4, 5, 6};
  return rasterize(values, 3, 2)[5] - 6;
}
