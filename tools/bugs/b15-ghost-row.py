PROPERTY = 'P20'
NEEDS = 'a value left in the first ghost row behind the last interior row'
BREAKS = 'that row is not cleared by overlay_set, so it is counted again at the next exchange'
EDITS = [('include/algo/grid.hpp', 'i >= x_real_size - o_s || j >= y_real_size - o_s', 'i > x_real_size - o_s || j >= y_real_size - o_s')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "algo/grid.hpp"
int main()
{
  Grid<double> g(5, 7, 2); g = 3; g.overlay_set(1); g.overlay_set(0); int bad = 0;
  for (int i = -2; i < 7; ++i) for (int j = -2; j < 9; ++j) { g.set(i, j, 4); } g.overlay_set(0);
  for (int i = -2; i < 7; ++i) for (int j = -2; j < 9; ++j) { bool in = i >= 0 && i < 5 && j >= 0 && j < 7; if (g(i, j) != (in ? 4 : 0)) { ++bad; printf("%d,%d: %g\n", i, j, g(i, j)); } }
  return bad ? 1 : 0;
}
'''
