PROPERTY = 'P23'
NEEDS = 'normal numbers of two different widths drawn in the same process (species of different temperature or mass)'
BREAKS = 'the distribution is created once, with the width of the first call; all the others get the same width'
EDITS = [('src/math/rand.cpp', 'std::normal_distribution<double> normal_distribution(0., stddev);', 'thread_local std::normal_distribution<double> normal_distribution(0., stddev);')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "math/rand.hpp"
int main()
{
  int bad = 0;
  for (double w : {1., 100., 3e-3}) { double s = 0; int n = 100000; for (int i = 0; i < n; ++i) { double x = math::random::normal(w); s += x * x; } s = sqrt(s / n); printf("%g of %g\n", s, w); if (!(fabs(s / w - 1) < .05)) ++bad; }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
