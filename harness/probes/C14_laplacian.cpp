// Laplacian
#include "LitlTransforms/SeparableKernel.h"
using namespace Litl;
int main() {
  const auto kernel = SeparableKernel<double, 0, 1>::laplacian();
  return 0;
}
