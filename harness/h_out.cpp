// P11: every value that reaches the data file, against the live state of the simulation; every element written once
#include "vsmb.hpp"
#include "vtwin.hpp"
#include "outController.hpp"
using namespace vh;
static const char* FIELDS[] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"};
static const char* MAPS[] = {"density", "density", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
static bool is_map(const std::string& s) { return s[0] >= 'a'; }
static std::string path(const vw::Probe& p)
{
  std::string s = "/" + p.component + "/"; if (is_map(p.component)) s += p.specie + "/";
  s += p.shape + "/"; if (p.shape == "rec") return s + fmt("%d-%d_%d-%d", p.r0, p.r1, p.z0, p.z1); if (p.shape == "col") return s + fmt("%d", p.z0); if (p.shape == "row") return s + fmt("%d", p.r0); return s + fmt("%d_%d", p.r0, p.z0);
}
struct Ref { SMB* one; }; // the same particles in a single domain
struct Frame { std::vector<double> v, tol; };
static Grid<double>* map_of(SpecieP* s, const std::string& n)
{
  if (n == "density") return &s->density_map; if (n == "temperature") return &s->temperature_map; if (n == "energy") return &s->energy_map;
  return &s->momentum_map[n == "momentum/r" ? 0 : n == "momentum/phi" ? 1 : 2];
}
static void frames(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c); if (c.r.chance(.2)) w.rd = w.zd = 1;
  std::vector<vw::Seedling> ps = vw::random_particles(c, w); vw::Table fields(c, w);
  // species with names that begin or end as the others do
  bool alike = c.r.chance(.35); if (alike) { vw::Spec x{c.r.pick({"ion", "ions2", "ions_ions", "electrons2", "s"}), 1, 16, 1e14, 1}; w.species.insert(c.r.chance(.5) ? w.species.begin() : w.species.end(), x); for (auto& p : ps) if (c.r.chance(.3)) p.specie = x.name; }
  std::vector<std::string> names; for (auto& s : w.species) names.push_back(s.name); for (auto& b : w.beams) names.push_back("beam_" + b.name);
  std::set<std::string> seen; int np = c.r.range(1, 24);
  for (int k = 0; k < np; ++k)
  {
    vw::Probe p; p.component = c.r.chance(.5) ? FIELDS[c.r.range(0, 8)] : MAPS[c.r.range(0, 7)]; if (is_map(p.component)) p.specie = names[c.r.range(0, (int)names.size() - 1)];
    p.shape = c.r.pick({"rec", "rec", "col", "row", "dot"}); p.schedule = c.r.chance(.4) ? 1 : c.r.range(1, 7);
    // extents: often exactly a domain, a border of it, or everything
    auto cut = [&](int n, int d, int hi) { int x = c.r.chance(.5) ? n * c.r.range(0, d) / d + c.r.range(-1, 1) : c.r.range(0, n); return std::min(std::max(x, 0), hi); };
    p.r0 = cut(w.nr, w.rd, w.nr - 1); p.z0 = cut(w.nz, w.zd, w.nz - 1); p.r1 = std::max(p.r0 + 1, cut(w.nr, w.rd, w.nr)); p.z1 = std::max(p.z0 + 1, cut(w.nz, w.zd, w.nz));
    if (c.r.chance(.2)) { p.r0 = p.z0 = 0; p.r1 = w.nr; p.z1 = w.nz; }
    if (!seen.insert(path(p)).second) continue;
    w.probes.push_back(p);
  }
  Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); vw::World ow = w; ow.rd = ow.zd = 1; ow.probes.clear(); Cfg* ca = vw::config(ow, "a.json"); SMB* a = vw::smb(ca);
  fields.load(b, w); vw::plant(b, ps);
  std::string name = fmt("data%llu.h5", (unsigned long long)c.r.next()); unlink(name.c_str()); HighFive::File* file = new HighFive::File(name, HighFive::File::Create | HighFive::File::Excl); auto st = file->vshim_store();
  int e0 = -(int)vshim::n_error; OutController out(file, cf->geometry, cf->time, cf->probes, b, cf->cfg2value(), false); e0 += vshim::n_error;
  c.ok(st->datasets.size() == w.probes.size(), "datasets", fmt("%zu datasets for %zu probes", st->datasets.size(), w.probes.size()));
  int steps = c.r.range(1, 22), first = c.r.chance(.2) ? c.r.range(1, 60) : 0; for (int k = 0; k < first; ++k) cf->time->current += cf->time->step;
  if (first) for (auto& x : w.probes) { (void)x; }
  std::map<std::string, std::map<int, Frame>> want; size_t ev = st->events.size(); Domain* u = a->domains(0, 0);
  c.state(fmt("%d/%d rest %d/%d probes%zu late%d", w.rd, w.zd, w.nr % w.rd, w.nz % w.zd, w.probes.size(), first > 0));
  for (int s = first; s < first + steps; ++s)
  {
    b->inject_beam(); b->solve_maxvell(); b->advance_particles(); b->solve_current();
    // the reference: fields are those of the domain that holds the node, maps those of all the particles together
    for (auto x : u->species_p) { for (auto p : x->particles) delete p; x->particles.clear(); }
    for (unsigned i = 0; i < b->r_domains; ++i) for (unsigned j = 0; j < b->z_domains; ++j) for (auto x : b->domains(i, j)->species_p) { SpecieP* t = vw::find(u, x->name); for (auto p : x->particles) vw::particle(t, p->pos_r, p->pos_z, p->weight, p->vel_r, p->vel_phi, p->vel_z); }
    for (auto x : u->species_p) { x->bind_cell_numbers(); x->calc_density(); x->calc_temperature(); x->calc_energy(); x->calc_momentum(); }
    // live fields as they are before the dump
    std::map<std::string, Frame> now;
    for (auto& p : w.probes)
    {
      if (s % p.schedule) continue;
      int r0 = p.r0, r1 = p.r1, z0 = p.z0, z1 = p.z1; if (p.shape == "col") { r0 = 0; r1 = w.nr; z1 = z0 + 1; } if (p.shape == "row") { z0 = 0; z1 = w.nz; r1 = r0 + 1; } if (p.shape == "dot") { r1 = r0 + 1; z1 = z0 + 1; }
      Frame f; double peak = 0; bool m = is_map(p.component); Grid<double>* g = m ? map_of(vw::find(u, p.specie), p.component) : nullptr;
      if (m) for (int i = 0; i < w.nr; ++i) for (int k = 0; k < w.nz; ++k) peak = std::max(peak, fabs((*g)(i, k)));
      if (m && p.component == "temperature") for (int i = 0; i < w.nr; ++i) for (int k = 0; k < w.nz; ++k) peak = std::max(peak, fabs(vw::find(u, p.specie)->energy_map(i, k)));
      for (int i = r0; i < r1; ++i) for (int k = z0; k < z1; ++k)
      {
        Domain* d = vw::owner(b, i, k); auto& q = d->geometry.cell_dims; int li = i - q[0], lk = k - q[1];
        if (!m)
        {
          int comp = p.component.substr(2) == "r" ? 0 : p.component.substr(2) == "phi" ? 1 : 2; Grid3D<double>& x = p.component[0] == 'E' ? d->maxwell_solver->field_e : p.component[0] == 'H' ? d->maxwell_solver->field_h_at_et : d->current->current;
          f.v.push_back(x(comp, li, lk)); f.tol.push_back(0);
        }
        else
        {
          bool edge = (li == 0 && i > 0) || (lk == 0 && k > 0); // means at the border of domains are those of the domain itself
          f.v.push_back((*g)(i, k)); f.tol.push_back(edge && p.component != "density" ? INFINITY : (p.component == "density" ? 1e-8 : 1e-6) * peak + 1e-300);
        }
      }
      now[path(p)] = f;
    }
    int e1 = vshim::n_error; out(); e0 += vshim::n_error - e1;
    // what was written at this step
    std::map<std::string, int> hit;
    for (; ev < st->events.size(); ++ev) { auto& e = st->events[ev]; if (e.op == "write") { hit[e.path]++; auto y = now.find(e.path); if (!c.ok(y != now.end(), "unscheduled", fmt("step %d: %s is written out of schedule", s, e.path.c_str()))) continue; int sch = 0; for (auto& p : w.probes) if (path(p) == e.path) sch = p.schedule; c.ok((int)e.offset[0] == s / sch && e.count[0] == 1, "slice", fmt("step %d, schedule %d: %s is written to frame %zu", s, sch, e.path.c_str(), e.offset[0])); } }
    for (auto& p : w.probes)
    {
      auto n = now.find(path(p)); if (n == now.end()) continue;
      auto d = st->datasets.find(n->first); if (!c.ok(d != st->datasets.end(), "path", fmt("there is no dataset %s", n->first.c_str()))) continue;
      if (!c.ok(hit.count(n->first) > 0, "missed", fmt("step %d: nothing is written to %s (schedule %d)", s, n->first.c_str(), p.schedule))) continue;
      size_t sl = s / p.schedule, len = n->second.v.size(); auto& D = d->second; size_t tot = 1; for (size_t q = 1; q < D.dims.size(); ++q) tot *= D.dims[q];
      std::vector<size_t> dm = {sl + 1}; if (p.shape == "rec") { dm.push_back(p.r1 - p.r0); dm.push_back(p.z1 - p.z0); } else dm.push_back(len);
      if (!c.ok(D.dims == dm && tot == len, "extent", fmt("step %d: %s has rank %zu, %zu frames of %zu values; %zu frames of %zu are expected", s, n->first.c_str(), D.dims.size(), D.dims[0], tot, sl + 1, len))) continue;
      bool once = true, val = true; std::string where; 
      for (size_t q = 0; q < len; ++q)
      {
        if (D.writes[sl * len + q] != 1) { once = false; where = fmt("element %zu of frame %zu is written %u times", q, sl, D.writes[sl * len + q]); }
        double x = D.data[sl * len + q], y = n->second.v[q], t = n->second.tol[q];
        if (!(t == 0 ? x == y || (std::isnan(x) && std::isnan(y)) : t == INFINITY ? std::isfinite(x) : fabs(x - y) <= t)) { val = false; where = fmt("element %zu of frame %zu is %.12g, the simulated value is %.12g (tolerance %.3g)", q, sl, x, y, t); }
        if (t == INFINITY) n->second.tol[q] = 0; n->second.v[q] = x; n->second.tol[q] = 0;
      }
      std::string tag = fmt("step %d, %s, %dx%d domains of %dx%d cells: ", s, n->first.c_str(), w.rd, w.zd, w.nr, w.nz);
      c.ok(once, "once:" + p.shape, tag + where); c.ok(val, "value:" + std::string(is_map(p.component) ? p.component : p.component.substr(0, 1)) + ":" + p.shape, tag + where);
      want[n->first][sl] = n->second; c.saw("values compared", len); if (alike && is_map(p.component)) c.saw("maps of look-alike species"); c.saw("frames of " + p.shape); c.saw((is_map(p.component) ? p.component : p.component.substr(0, 1)) + " frames");
    }
    cf->time->current += cf->time->step;
  }
  // the whole file at the end: all the frames are still there, nothing else was written
  for (auto& p : w.probes)
  {
    auto d = st->datasets.find(path(p)); if (d == st->datasets.end()) continue; auto& D = d->second; size_t len = 1; for (size_t q = 1; q < D.dims.size(); ++q) len *= D.dims[q];
    auto& f = want[path(p)]; bool good = true; for (size_t k = 0; k < D.dims[0]; ++k) { auto y = f.find(k); for (size_t q = 0; q < len; ++q) { if (y == f.end()) good &= D.writes[k * len + q] == 0; else good &= D.writes[k * len + q] == 1 && (D.data[k * len + q] == y->second.v[q] || std::isnan(y->second.v[q])); } }
    c.ok(good, "final", fmt("%s: frames were changed after they had been written", path(p).c_str())); if (!first && !f.empty()) c.ok(f.size() == D.dims[0], "gaps", fmt("%s: %zu frames are complete of %zu", path(p).c_str(), f.size(), D.dims[0]));
  }
  c.ok(e0 == 0, "errors", "errors were reported while the data were written");
  delete file; unlink(name.c_str()); vshim::h5_registry().erase(name); vw::drop(a); vw::drop(b);
  if (w.rd * w.zd > 1) c.saw("decomposed worlds"); if (first) c.saw("late starts");
  c.sample(fmt("%zu probes over %dx%d domains of %dx%d cells, %d steps", w.probes.size(), w.rd, w.zd, w.nr, w.nz, steps));
}
int main(int argc, char** argv) { return run(argc, argv, "out", {{"frames", 1, frames, true}}); }
