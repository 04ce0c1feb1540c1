// whole simulated worlds: configuration documents and the objects built from them
#ifndef VSMB_HPP
#define VSMB_HPP
#include "vworld.hpp"
#include "cfg.hpp"
#include "SMB.hpp"
#include "beamP.hpp"

namespace vw
{
  struct Spec { std::string name; double charge, mass, density, temperature; };
  struct Beam { std::string name; double charge, mass, velocity, start; int amount; double distance, length, radius, density; };
  struct Probe { std::string component, specie, shape; int r0, z0, r1, z1; int schedule; };
  struct World
  {
    int nr = 16, nz = 16, rd = 1, zd = 1; double R = .01, Z = .01, dt = 1e-13, end = 1e-12, macro = 100, ratio = 2;
    double pl = 0, pr = 0, po = 0, s1 = 0, s2 = 0;
    std::vector<Spec> species = {{"electrons", -1, 1, 1e15, 1}, {"ions", 1, 1836, 1e15, .1}}; std::vector<Beam> beams; std::vector<Probe> probes;
    std::string ef = "none", mf = "none", ep = "[0]", mp = "[0]", data_root = "./out", log = "/dev/null";
    std::string json() const
    {
      using vh::fmt; std::string o = "{";
      o += fmt("\"macro_amount\":%.17g,\"beam_plasma_macro_size_ratio\":%.17g,\"log_file\":\"%s\",\"comment\":\"c\",", macro, ratio, log.c_str());
      o += fmt("\"geometry\":{\"size\":{\"radius\":%.17g,\"longitude\":%.17g},\"grid\":{\"radius\":%d,\"longitude\":%d},\"domains_amount\":{\"radius\":%d,\"longitude\":%d},", R, Z, nr, nz, rd, zd);
      o += fmt("\"pml\":{\"left_wall\":%.17g,\"right_wall\":%.17g,\"outer_wall\":%.17g,\"sigma_1\":%.17g,\"sigma_2\":%.17g}},", pl, pr, po, s1, s2);
      o += fmt("\"time\":{\"start\":0,\"end\":%.17g,\"step\":%.17g},", end, dt);
      o += "\"external_fields\":{\"electric\":{\"formfactor\":\"" + ef + "\",\"params\":" + ep + "},\"magnetic\":{\"formfactor\":\"" + mf + "\",\"params\":" + mp + "}},\"particles\":[";
      bool f = true; for (auto& s : species) { o += (f ? "" : ",") + fmt("{\"name\":\"%s\",\"charge\":%.17g,\"mass\":%.17g,\"density\":%.17g,\"temperature\":%.17g}", s.name.c_str(), s.charge, s.mass, s.density, s.temperature); f = false; }
      o += "],\"beams\":["; f = true;
      for (auto& b : beams) { o += (f ? "" : ",") + fmt("{\"name\":\"%s\",\"charge\":%.17g,\"mass\":%.17g,\"velocity\":%.17g,\"start_time\":%.17g,\"bunch\":{\"amount\":%d,\"distance\":%.17g,\"length\":%.17g,\"radius\":%.17g,\"density\":%.17g,\"profile\":{\"radial\":\"rectangle\",\"longitudinal\":\"rectangle\"}}}", b.name.c_str(), b.charge, b.mass, b.velocity, b.start, b.amount, b.distance, b.length, b.radius, b.density); f = false; }
      o += "],\"data\":{\"data_root\":\"" + data_root + "\",\"compression\":{\"use\":false,\"level\":1},\"probes\":["; f = true;
      for (auto& p : probes)
      {
        o += (f ? "" : ",") + fmt("{\"component\":\"%s\",\"schedule\":%d,\"shape\":\"%s\"", p.component.c_str(), p.schedule, p.shape.c_str()); f = false;
        if (!p.specie.empty()) o += ",\"specie\":\"" + p.specie + "\"";
        if (p.shape == "rec") o += fmt(",\"start\":{\"r\":%d,\"z\":%d},\"end\":{\"r\":%d,\"z\":%d}", p.r0, p.z0, p.r1, p.z1);
        if (p.shape == "col" || p.shape == "dot") o += fmt(",\"z\":%d", p.z0);
        if (p.shape == "row" || p.shape == "dot") o += fmt(",\"r\":%d", p.r0);
        o += "}";
      }
      return o + "],\"plot\":{}}}";
    }
  };
  inline void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; }
  inline Cfg* config(const World& w, const std::string& name = "v.json")
  {
    FILE* f = fopen(name.c_str(), "w"); std::string s = w.json(); fwrite(s.data(), 1, s.size(), f); fclose(f);
    Cfg* c = new Cfg(name); quiet(); return c;
  }
  inline SMB* smb(Cfg* c) { return new SMB(c, c->geometry, c->time, 0, 1); }
  // the domain that holds a global cell
  inline Domain* owner(SMB* s, int i, int k)
  {
    for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b)
    { Domain* d = s->domains(a, b); auto& q = d->geometry.cell_dims; if (i >= (int)q[0] && i < (int)q[2] && k >= (int)q[1] && k < (int)q[3]) return d; }
    return nullptr;
  }
  inline SpecieP* find(Domain* d, const std::string& n) { for (auto s : d->species_p) if (s->name == n) return s; return nullptr; }
  // delete a world (domains do not delete what they hold)
  inline void drop(SMB* s)
  {
    for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b)
    { Domain* d = s->domains(a, b); for (auto x : d->species_p) { for (auto p : x->particles) delete p; x->particles.clear(); std::vector<Particle*>().swap(x->particles); } }
  }
}
#endif
