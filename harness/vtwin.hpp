// random worlds with known particles and fields, and a census of the particles a world holds
#ifndef VTWIN_HPP
#define VTWIN_HPP
#include "vsmb.hpp"
namespace vw
{
  inline uint64_t key(double w) { uint64_t u; memcpy(&u, &w, 8); return u; }
  struct Seedling { std::string specie; double r, z, vr, vp, vz, w; };
  inline World random_world(vh::Case& c)
  {
    World w; int m = 4; w.rd = c.r.pick({1, 2, 2, 4, 6}); w.zd = c.r.pick({1, 2, 2, 4, 6}); if (w.rd == 1 && w.zd == 1) (c.r.chance(.5) ? w.rd : w.zd) = 2;
    w.nr = w.rd * m + (c.r.chance(.3) ? 0 : c.r.range(0, w.rd == 1 ? 12 : 3 * w.rd)); w.nz = w.zd * m + (c.r.chance(.3) ? 0 : c.r.range(0, w.zd == 1 ? 12 : 3 * w.zd)); w.nr = std::max(w.nr, 8); w.nz = std::max(w.nz, 8);
    double dr = c.r.logu(1e-5, 1e-2), dz = dr * c.r.logu(.3, 3); w.R = dr * w.nr; w.Z = dz * w.nz; w.dt = std::min(dr, dz) / 3e8 * c.r.uni(.2, .65); w.end = w.dt * 100;
#ifdef ENABLE_PML
    if (c.r.chance(.6)) { w.pl = c.r.pick({0., .1, .3}); w.pr = c.r.pick({0., .1, .3}); w.po = c.r.pick({0., .15, .3}); double s = 8.85e-12 / w.dt; w.s1 = s * c.r.uni(0, .02); w.s2 = s * c.r.uni(.05, .5); }
#endif
    if (c.r.chance(.6)) w.beams.push_back({"b", -1, 1, 1e8, 0, 1, .1, .1, w.R / 2, 1e12});
    if (c.r.chance(.3)) w.species.push_back({"positrons", 1, 1, 1e15, 1});
    return w;
  }
  inline std::vector<Seedling> random_particles(vh::Case& c, const World& w)
  {
    std::vector<Seedling> o; int n = c.r.chance(.1) ? c.r.range(1, 3) : c.r.range(5, 120); double dr = w.R / w.nr, dz = w.Z / w.nz, q = c.r.logu(1e-3, 1) * dr * 9.1e-31 * 9e16 / 1.6e-19 / 1.6e-19 * 8.85e-12 / n;
    double hot = c.r.pick({.05, .5, .95, .95});
    for (int k = 0; k < n; ++k)
    {
      Seedling s; double x = c.r.u(); s.specie = x < .5 ? "electrons" : x < .6 ? "ions" : "positrons"; if (s.specie == "positrons" && w.species.size() < 3) s.specie = w.beams.empty() ? "electrons" : "beam_b";
      // near domain borders and corners more often than elsewhere
      double ir = c.r.uni(.5, w.nr - .5), iz = c.r.uni(.5, w.nz - .5);
      if (c.r.chance(.5)) ir = (w.nr * c.r.range(0, w.rd)) / w.rd + c.r.uni(-.6, .6); if (c.r.chance(.5)) iz = (w.nz * c.r.range(0, w.zd)) / w.zd + c.r.uni(-.6, .6);
      ir = std::min(std::max(ir, .5 + 1e-3 * c.r.u()), w.nr - .5 - 1e-3 * (1 + c.r.u())); iz = std::min(std::max(iz, .5 + 1e-3 * c.r.u()), w.nz - .5 - 1e-3 * (1 + c.r.u()));
      s.r = ir * dr; s.z = iz * dz; double v = 3e8 * hot * c.r.u(), a = c.r.uni(-1, 1), f = c.r.uni(0, 2 * M_PI), t = sqrt(1 - a * a); s.vr = v * t * cos(f); s.vp = v * t * sin(f); s.vz = v * a;
      if (s.specie == "ions") { s.vr *= .1; s.vp *= .1; s.vz *= .1; }
      if (s.specie == "beam_b" && c.r.chance(.7)) { s.vz = .95 * 3e8 * c.r.u(); s.vr = s.vp = 0; }
      s.w = q * c.r.uni(.5, 1.5); o.push_back(s);
    }
    return o;
  }
  // initial fields: one global table, loaded with what every domain has to see, ghost nodes included
  struct Table
  {
    int nr, nz; std::vector<double> e, h; double se, sh; bool weak;
    Table(vh::Case& c, const World& w) : nr(w.nr), nz(w.nz), e(3 * w.nr * w.nz), h(3 * w.nr * w.nz)
    {
      double f = c.r.pick({0., 1e-4, 1e-2, .1}); weak = f < 1e-3; se = f * 9.1e-31 * 3e8 / 1.6e-19 / w.dt; sh = se / 377;
      for (auto& x : e) x = se * c.r.uni(-1, 1); for (auto& x : h) x = sh * c.r.uni(-1, 1);
    }
    double at(const std::vector<double>& t, int m, int i, int k) const { return i < 0 || k < 0 || i >= nr || k >= nz ? 0 : t[(m * nr + i) * nz + k]; }
    void load(SMB* s, const World&) const
    {
      for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b)
      {
        Domain* d = s->domains(a, b); auto& q = d->geometry.cell_dims; int o = d->maxwell_solver->field_e[0].o_s;
        for (int m = 0; m < 3; ++m) for (int i = -o; i < (int)(q[2] - q[0]) + o; ++i) for (int k = -o; k < (int)(q[3] - q[1]) + o; ++k)
        {
          d->maxwell_solver->field_e[m].set(i, k, at(e, m, i + q[0], k + q[1])); d->maxwell_solver->field_h[m].set(i, k, at(h, m, i + q[0], k + q[1])); d->maxwell_solver->field_h_at_et[m].set(i, k, at(h, m, i + q[0], k + q[1]));
        }
      }
    }
  };
  inline void plant(SMB* s, const std::vector<Seedling>& ps)
  {
    double dr = s->geometry->cell_size[0], dz = s->geometry->cell_size[1];
    for (auto& p : ps) { Domain* d = owner(s, (int)floor(p.r / dr), (int)floor(p.z / dz)); SpecieP* sp = find(d, p.specie); particle(sp, p.r, p.z, p.w, p.vr, p.vp, p.vz); }
    for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b) for (auto x : s->domains(a, b)->species_p) x->bind_cell_numbers();
  }
  struct Held { int i, j; SpecieP* sp; Particle* p; int n; };
  struct Census { std::map<uint64_t, Held> at; long n = 0; std::string dup; };
  inline Census census(SMB* s)
  {
    Census o;
    for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b) for (auto x : s->domains(a, b)->species_p) for (auto p : x->particles)
    {
      ++o.n; auto r = o.at.insert({key(p->weight), Held{(int)a, (int)b, x, p, 1}});
      if (!r.second) { r.first->second.n++; o.dup = vh::fmt("by domains %d,%d and %u,%u", r.first->second.i, r.first->second.j, a, b); }
    }
    return o;
  }
}
#endif
