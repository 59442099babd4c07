// Erosion and dilation
#include "LitlRaster/Raster.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/StructuringElement.h"
using namespace Litl;
int main() {
  VecRaster<int, 2> in({3, 2}), out({3, 2});
  StructuringElement<int, 2> element(Box<2>({-1, -1}, {1, 1}));
  element.erodeTo(extrapolate<NearestNeighbor>(in), out);
  element.dilateTo(extrapolate<NearestNeighbor>(in), out);
  return out[0];
}
