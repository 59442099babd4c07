// clamp() a position inside a box
#include "LitlRaster/Box.h"
using namespace Litl;
int main() {
  return clamp(Position<2>({5, -1}), Box<2>({0, 0}, {3, 3})) == Position<2>({3, 0}) ? 0 : 1;
}
