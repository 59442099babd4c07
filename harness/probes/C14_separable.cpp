// Window, axes and Laplacian of separable kernels
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/SeparableKernel.h"
using namespace Litl;
int main() {
  const auto kernel = LineKernel<double>({1, 2, 1}, 1).along<0, 1>();
  const auto& line = kernel[0];
  return int(kernel.window().size()) - 9;
}
