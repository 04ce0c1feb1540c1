PROPERTY = 'P05'
NEEDS = 'a particle that crosses both an inner radial and a forward axial cell border in one step, the radial one first (Villasenor-Buneman deposition)'
BREAKS = 'the middle segment of such a move is deposited to the wrong axial cell, so current and charge do not match any more'
EDITS = [('src/current/currentVB.cpp', '''              if (z1<(k_n) * dz)
              {
                simple_current_distribution(r1, z1 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);''', '''              if (z1<(k_n) * dz)
              {
                simple_current_distribution(r1, z1 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                simple_current_distribution(r2, z2, r1, z1, i_n, k_n, p_charge);''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "current/currentVB.hpp"
// the current of a whole move is the sum of the currents of its two halves
static std::vector<double> deposit(double r0, double z0, double r1, double z1)
{
  double d = 1e-3; Geometry* g = vw::geom(0, 0, 8, 8, 8, 8, d, d); TimeSim* t = vw::tsim(1e-12); SpecieP* s = vw::specie(g, t); Particle* p = vw::particle(s, r1 * d, z1 * d, 1e6); p->pos_old_r = r0 * d; p->pos_old_z = z0 * d;
  CurrentVB c(g, t, {s}); c.rz_current_distribution(); std::vector<double> o; for (int m = 0; m < 3; m += 2) for (int i = 0; i < 8; ++i) for (int k = 0; k < 8; ++k) o.push_back(c.current(m, i, k)); return o;
}
int main()
{
  int bad = 0; vh::Rng r(5);
  for (int n = 0; n < 4000; ++n)
  {
    double r0 = 4 + r.uni(-.9, .9), z0 = 4 + r.uni(-.9, .9), r1 = 4 + r.uni(-.9, .9), z1 = 4 + r.uni(-.9, .9), rb = (4 - r0) / (r1 - r0), zb = (4 - z0) / (z1 - z0);
    if (rb <= .01 || rb >= .99 || zb <= .01 || zb >= .99 || fabs(rb - zb) < .02) continue;
    double m = (rb + zb) / 2, rm = r0 + m * (r1 - r0), zm = z0 + m * (z1 - z0);
    auto a = deposit(r0, z0, r1, z1), b = deposit(r0, z0, rm, zm), c = deposit(rm, zm, r1, z1); double w = 0; for (double x : a) w = std::max(w, fabs(x));
    for (size_t i = 0; i < a.size(); ++i) if (!(fabs(a[i] - b[i] - c[i]) <= 1e-6 * w)) { if (!bad++) printf("move %g,%g -> %g,%g: %g instead of %g\n", r0, z0, r1, z1, a[i], b[i] + c[i]); break; }
  }
  return bad ? 1 : 0;
}
'''
