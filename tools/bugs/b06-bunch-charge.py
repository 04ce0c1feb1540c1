PROPERTY = 'P10'
NEEDS = 'a beam of more than one bunch'
BREAKS = 'the number of real particles is taken for one bunch while the macroparticles are those of all bunches: every bunch carries too little charge'
EDITS = [('src/beamP.cpp', 'double N_total = PI * radius * radius * bunch_length * bunches_amount * density;', 'double N_total = PI * radius * radius * bunch_length * density;')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vsmb.hpp"
int main()
{
  vw::quiet(); int bad = 0;
  for (int n : {1, 3})
  {
    double d = 1e-3, dt = 1e-12, v = 1e8, L = 40 * v * dt, R = 10 * d, rho = 1e12; Geometry* g = vw::geom(0, 0, 16, 16, 16, 16, d, d, {true, true, true, true}); TimeSim* t = vw::tsim(dt);
    BeamP b(9, "beam_b", -1, 1, 4000 * n, 0, R, rho, n, L, L, v, g, t); double w = 0; for (int k = 0; k < 41; ++k) { t->current = k * dt; b.inject(); }
    for (auto p : b.particles) w += p->weight; double e = M_PI * R * R * L * rho; printf("%d bunches: first one has %g of %g\n", n, w, e); if (!(fabs(w / e - 1) < .2)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
