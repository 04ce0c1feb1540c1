PROPERTY = 'P22'
NEEDS = 'relativistic momentum'
BREAKS = 'the limit of the classical formula is compared to the momentum per unit of mass instead of mass squared: energies of fast particles come from the classical formula'
EDITS = [('src/phys/rel.cpp', 'if (momentum_2 > REL_LIMIT_POW_2 * mass * mass)', 'if (momentum_2 > REL_LIMIT_POW_2 * mass)')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "phys/rel.hpp"
int main()
{
  int bad = 0; for (double b : {.01, .3, .9, .99}) for (double m : {9.1e-31, 1.67e-27}) { double g = 1 / sqrt(1 - b * b), p = g * m * b * 3e8, e = phys::rel::energy_m(m, p * p), x = (g - 1) * m * 9e16; if (!(fabs(e / x - 1) < .03)) { ++bad; printf("beta %g: %g instead of %g\n", b, e, x); } }
  return bad ? 1 : 0;
}
'''
