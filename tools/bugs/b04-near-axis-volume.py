PROPERTY = 'P04'
NEEDS = 'a particle between half a cell and one cell away from the axis'
BREAKS = 'the weight of such particles is normalised to the volume of the wrong cell: the density map does not hold their whole weight'
EDITS = [('include/algo/weighter.hpp', '''    v_2 = CELL_VOLUME(r_i + 1, dr, dz);

    rho_w_value = weight_value / v_0;''', '''    v_2 = CELL_VOLUME(r_i + 2, dr, dz);

    rho_w_value = weight_value / v_0;''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
int main()
{
  double d = 1e-3; Geometry* g = vw::geom(0, 0, 8, 8, 8, 8, d, d); TimeSim* t = vw::tsim(1e-12); int bad = 0;
  for (double r : {.3, .6, .8, .95, 1.3, 3.7})
  {
    SpecieP* s = vw::specie(g, t); vw::particle(s, r * d, 3.4 * d, 1e6); s->calc_density(); double n = 0;
    for (int i = 0; i < 8; ++i) for (int k = 0; k < 8; ++k) { double v = i ? M_PI * d * d * d * (2 * i + 1) : M_PI * d * d * d; n += s->density_map(i, k) * v; }
    printf("r %g: %g of 1e6\n", r, n); if (!(fabs(n - 1e6) < 1)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
