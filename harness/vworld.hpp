// helpers to build pieces of the simulated world out of the repository's classes
#ifndef VWORLD_HPP
#define VWORLD_HPP
#include "vh.hpp"
#include "defines.hpp"
#include "constant.hpp"
#include "msg.hpp"
#include "geometry.hpp"
#include "timeSim.hpp"
#include "specieP.hpp"

namespace vw
{
  // geometry of one domain of nr x nz cells that starts at cell (r0, z0) of
  // a global grid of gr x gz cells
  inline Geometry* geom(size_t r0, size_t z0, size_t nr, size_t nz, size_t gr, size_t gz,
                        double dr, double dz, std::vector<bool> walls = {false, false, false, false},
                        std::vector<size_t> pml = {0, 0, 0, 0}, std::vector<double> sig = {0, 0})
  {
    Geometry* g = new Geometry({dr * nr, dz * nz}, {dr * gr, dz * gz}, {r0, z0, r0 + nr, z0 + nz}, pml, sig, walls);
    g->domains_amount = {1, 1};
    return g;
  }
  inline TimeSim* tsim(double step, double end = 1) { return new TimeSim{0, end, step, 0, 0}; }
  inline SpecieP* specie(Geometry* g, TimeSim* t, const char* name = "electrons", double charge = -1,
                         double mass = 1, unsigned amount = 0, double dl = 1e15, double dr = 1e15, double temp = 1,
                         unsigned id = 1)
  { return new SpecieP(id, name, charge, mass, amount, dl, dr, temp, g, t); }

  inline Particle* particle(SpecieP* s, double r, double z, double weight = 1, double vr = 0, double vphi = 0, double vz = 0)
  {
    Particle* p = new Particle();
    p->pos_r = r; p->pos_z = z; p->pos_old_r = r; p->pos_old_z = z;
    p->vel_r = vr; p->vel_phi = vphi; p->vel_z = vz; p->weight = weight; p->specie_id = s->id;
    p->cell_r = (size_t)floor(r / s->geometry->cell_size[0]);
    p->cell_z = (size_t)floor(z / s->geometry->cell_size[1]);
    s->particles.push_back(p);
    return p;
  }
  inline void drop(SpecieP* s) { delete s; }
}
#endif
