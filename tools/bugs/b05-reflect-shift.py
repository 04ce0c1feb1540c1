PROPERTY = 'P09'
NEEDS = 'cells that are not square, several domains along the axis, and a particle reaching the right wall'
BREAKS = 'the axial offset of a domain is computed with the radial cell size, so particles of the last domain are mirrored at a wrong plane'
EDITS = [('src/specieP.cpp', '''  double z_shift = geometry->cell_dims[1] * dz;

  for (auto p = particles.begin(); p != particles.end(); ++p)
  {
    // set temporary position as it located in domain 0,0''', '''  double z_shift = geometry->cell_dims[1] * dr;

  for (auto p = particles.begin(); p != particles.end(); ++p)
  {
    // set temporary position as it located in domain 0,0''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
int main()
{
  double dr = 1e-3, dz = 2e-3; Geometry* g = vw::geom(0, 8, 16, 8, 16, 16, dr, dz, {true, false, true, true}); TimeSim* t = vw::tsim(1e-12); SpecieP* s = vw::specie(g, t);
  double wall = 15.5 * dz; Particle* p = vw::particle(s, 5 * dr, wall + .2 * dz, 1, 0, 0, 1e8); p->pos_old_z = wall - .3 * dz; p->pos_old_r = 5 * dr;
  Particle* q = vw::particle(s, 5 * dr, wall - 2 * dz, 1, 0, 0, 1e8); q->pos_old_z = wall - 2.3 * dz; q->pos_old_r = 5 * dr;
  s->reflect(); printf("z %g, vz %g; z %g, vz %g\n", p->pos_z, p->vel_z, q->pos_z, q->vel_z); fflush(stdout);
  _exit(fabs(p->pos_z - (wall - .2 * dz)) < 1e-9 * dz && p->vel_z == -1e8 && fabs(q->pos_z - (wall - 2 * dz)) < 1e-9 * dz && q->vel_z == 1e8 ? 0 : 1);
}
'''
