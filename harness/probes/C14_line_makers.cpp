// Make line kernels
#include "LitlContainer/Sequence.h"
#include "LitlTransforms/LineKernel.h"
using namespace Litl;
int main() {
  const Sequence<int> values({1, 2, 3});
  const auto a = kernelize(values, 1);
  const auto b = kernelize(values);
  const auto c = kernelize(values.data(), Segment {-1, 1});
  return 0;
}
