PROPERTY = 'P17'
NEEDS = 'at least two steps, and a particle that has left the outermost row of cells between them'
BREAKS = 'the lists of the outermost row of cells are not emptied: a particle keeps colliding with those of the cell it has left'
EDITS = [('src/collisions.cpp', '''  for (int i = 0; i < geometry->cell_amount[0]; ++i)
    for (int j = 0; j < geometry->cell_amount[1]; ++j)
    {
      map_el2cell(i, j).clear();''', '''  for (int i = 0; i + 1 < geometry->cell_amount[0]; ++i)
    for (int j = 0; j < geometry->cell_amount[1]; ++j)
    {
      map_el2cell(i, j).clear();''')]
SH = 'kit_init ENABLE_COULOMB_COLLISIONS SWITCH_COULOMB_COLLISIONS_TA77S; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "collisions/collisionsTA77S.hpp"
int main()
{
  double d = 1e-3; Geometry* g = vw::geom(0, 0, 8, 8, 8, 8, d, d); TimeSim* t = vw::tsim(1e-12); int bad = 0;
  for (int row = 0; row < 8; ++row)
  {
    SpecieP *e = vw::specie(g, t, "electrons", -1, 1, 0, 1e15, 1e15, 1, 1), *n = vw::specie(g, t, "ions", 1, 1836, 0, 1e15, 1e15, 1, 2); vh::Rng r(row + 1);
    for (int k = 0; k < 8; ++k) { vw::particle(e, (row + .4) * d, 3.4 * d, 1e12, r.uni(-1e6, 1e6), r.uni(-1e6, 1e6), r.uni(-1e6, 1e6)); vw::particle(n, (row + .4) * d, 3.4 * d, 1e12, r.uni(-1e4, 1e4), r.uni(-1e4, 1e4), r.uni(-1e4, 1e4)); }
    CollisionsTA77S c(g, t, {e, n}); c(); Particle* p = e->particles[0]; int to = row ? row - 1 : 1; p->pos_r = (to + .4) * d; p->cell_r = to; double v = p->vel_z, u = p->vel_r; c();
    if (fabs(p->vel_z - v) > 1e-6 * fabs(v) || fabs(p->vel_r - u) > 1e-6 * fabs(u)) { ++bad; printf("lonely particle from row %d was scattered\n", row); }
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
