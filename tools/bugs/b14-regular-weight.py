PROPERTY = 'P03'
NEEDS = 'a plasma load with the regular or centered option (fewer particles placed than configured)'
BREAKS = 'the average volume is taken over the particles placed, while the weight is shared between the particles configured: the loaded density is wrong'
EDITS = [('src/specieP.cpp', 'double v_avg = v_sum / macro_amount;', 'double v_avg = v_sum / particles.size();')]
SH = 'SPATIAL=REGULAR; kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
int main()
{
  int bad = 0; double d = 1e-3, rho = 1e15;
  for (unsigned n : {700u, 1500u, 3000u})
  {
    Geometry* g = vw::geom(8, 8, 8, 8, 24, 24, d, d); TimeSim* t = vw::tsim(1e-12); SpecieP* s = vw::specie(g, t, "electrons", -1, 1, n, rho, rho); s->fullyfill_spatial_distribution();
    double w = 0, x = rho * M_PI * d * d * (16 * 16 - 8 * 8) * 8 * d; for (auto p : s->particles) w += p->weight; printf("%zu of %u particles: %g of %g\n", s->particles.size(), n, w, x); if (!(fabs(w / x - 1) < 1e-6)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
