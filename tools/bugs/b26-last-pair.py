PROPERTY = 'P26'
NEEDS = 'a cell with 5, 7, 9.. electrons and the TA77S operator'
BREAKS = 'the last pair of electrons of such a cell never collides with other electrons'
EDITS = [('src/collisions/collisionsTA77S.cpp', '''          for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)''', '''          for (unsigned int k = 3; k + 2 < vec_size_electrons; k = k + 2)''')]
SH = 'kit_init ENABLE_COULOMB_COLLISIONS SWITCH_COULOMB_COLLISIONS_TA77S; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "collisions/collisionsTA77S.hpp"
int main()
{
  double d = 1e-3; int bad = 0;
  for (int n : {3, 4, 5, 6, 7, 9})
  {
    Geometry* g = vw::geom(0, 0, 4, 4, 4, 4, d, d); TimeSim* t = vw::tsim(1e-9); vh::Rng r(n); double calm = 0, all = 0;
    SpecieP *e = vw::specie(g, t, "electrons", -1, 1, 0, 1e15, 1e15, 1, 1), *i = vw::specie(g, t, "ions", 1e-9, 1836, 0, 1e15, 1e15, 1, 2); CollisionsTA77S c(g, t, {e, i});
    for (int k = 0; k < n; ++k) vw::particle(e, 1.4 * d, 1.4 * d, 1e9, 0, 0, 0); vw::particle(i, 1.4 * d, 1.4 * d, 1e9, 1e3, 0, 0);
    for (int s = 0; s < 100; ++s)
    {
      std::vector<double> v; for (auto p : e->particles) { v.push_back(p->vel_r = r.uni(-1, 1) * 1e6); v.push_back(p->vel_phi = r.uni(-1, 1) * 1e6); v.push_back(p->vel_z = r.uni(-1, 1) * 1e6); }
      c(); std::vector<double> x; double m = 0; for (size_t k = 0; k < e->particles.size(); ++k) { auto p = e->particles[k]; x.push_back(fabs(p->vel_r - v[3 * k]) + fabs(p->vel_phi - v[3 * k + 1]) + fabs(p->vel_z - v[3 * k + 2])); m = std::max(m, x.back()); }
      for (double y : x) { ++all; if (!(y > 1e-3 * m)) ++calm; }
    }
    printf("%d electrons: %g of %g are calm\n", n, calm, all); if (calm > .1 * all) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
