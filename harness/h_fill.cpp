// P03: initial plasma of a whole system, decomposed to domains
#include "vsmb.hpp"
using namespace vh;
using constant::PI;
static void filled(Case& c)
{
  vw::quiet(); vw::World w; w.rd = c.r.pick({1, 2, 4, 6, 8, 10}); w.zd = c.r.pick({1, 2, 4, 6, 8, 10}); if (w.rd * w.zd > 40) w.zd = 4;
  w.nr = w.rd * 4 + c.r.range(0, 2 * w.rd); w.nz = w.zd * 4 + c.r.range(0, 2 * w.zd); w.nr = std::max(w.nr, 8); w.nz = std::max(w.nz, 8);
  double dr = c.r.logu(1e-5, 1e-2), dz = dr * c.r.logu(.3, 3); w.R = dr * w.nr; w.Z = dz * w.nz; w.dt = std::min(dr, dz) / 6e8; w.end = 10 * w.dt; w.macro = c.r.range(150, 400) * w.rd * w.zd; w.ratio = c.r.range(1, 8);
  for (auto& s : w.species) { s.density = c.r.logu(1e10, 1e20); s.temperature = c.r.logu(.01, 100); } if (c.r.chance(.4)) w.species.push_back({"positrons", 1, 1, c.r.logu(1e10, 1e20), 1});
  if (c.r.chance(.4)) w.beams.push_back({"b", -1, 1, 1e8, 0, c.r.range(1, 4), w.Z * c.r.uni(.01, .5), w.Z * c.r.uni(.05, .5), w.R * c.r.uni(.1, .9), 1e12});
  Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); b->distribute(); double all = 0;
  for (auto& s : cf->particle_species)
  {
    long n = 0; double sum = 0; all += s.macro_amount;
    for (unsigned i = 0; i < b->r_domains; ++i) for (unsigned j = 0; j < b->z_domains; ++j)
    {
      Domain* d = b->domains(i, j); SpecieP* x = vw::find(d, s.name); if (!c.ok(x != nullptr, "domain:specie", fmt("no %s in the domain %u,%u", s.name.c_str(), i, j))) continue;
      auto& q = d->geometry.cell_dims; double W = 0, top = q[2] - d->geometry.walls[2], len = (q[3] - q[1] - d->geometry.walls[3]) * dz; n += x->particles.size();
      for (auto p : x->particles)
      {
        W += p->weight; bool in = p->pos_r >= (q[0] + .5 - 1e-9) * dr && p->pos_r <= (top + .5 + 1e-9) * dr && p->pos_z >= (q[1] + .5 - 1e-9) * dz && p->pos_z <= (q[1] + .5 + 1e-9) * dz + len;
        if (!c.ok(in, "domain:position", fmt("particle of %s at %g,%g cells, domain %u,%u has %zu-%zu, %zu-%zu", s.name.c_str(), p->pos_r / dr, p->pos_z / dz, i, j, q[0], q[2], q[1], q[3]))) break;
      }
      double N = s.left_density * PI * dr * dr * (top * top - (double)q[0] * q[0]) * len; sum += N;
      c.near(W, N, 1e-8 * N, "domain:total", fmt("real particles of %s in the domain %u,%u of %dx%d", s.name.c_str(), i, j, w.rd, w.zd)); c.saw("filled domains");
    }
    double R = w.R - dr, L = w.Z - dz, N = s.left_density * PI * R * R * L; c.near(sum, N, 1e-6 * N, "system:total", "volume of all the domains together");
    c.ok(n <= (long)s.macro_amount && n >= (long)s.macro_amount - w.rd * w.zd, "system:amount", fmt("%ld macroparticles of %s in %dx%d domains, %u are expected", n, s.name.c_str(), w.rd, w.zd, s.macro_amount));
  }
  for (auto& x : cf->particle_beams) all += x.macro_amount; c.ok(all <= w.macro + 1 && all >= w.macro - 10 - (double)cf->particle_species.size(), "system:macro_amount", fmt("%g macroparticles of all the species and beams, %g are configured", all, w.macro));
  c.saw("filled systems"); c.state(fmt("%dx%d s%zu b%zu", w.rd, w.zd, w.species.size(), w.beams.size())); vw::drop(b);
}
int main(int argc, char** argv) { return run(argc, argv, "fill", {{"fill", 1, filled, true}}); }
