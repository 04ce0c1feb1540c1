// P14: generated configuration documents: read back, permuted, broken
#include "vsmb.hpp"
using namespace vh; using picojson::value;
static std::string ws(Case& c) { return c.r.chance(.7) ? "" : c.r.pick({" ", "\n", "\t", "  \r\n "}); }
static std::string num(Case& c, double d)
{
  char b[64]; if (d == floor(d) && fabs(d) < 1e9) switch (c.r.range(0, 2)) { case 0: snprintf(b, 64, "%.0f", d); return b; case 1: snprintf(b, 64, "%.1f", d); return b; }
  snprintf(b, 64, c.r.chance(.5) ? "%.17g" : "%.17e", d); return b;
}
// the same document in another layout: key order, white space, number notation
static std::string emit(Case& c, const value& v)
{
  std::string o;
  if (v.is<picojson::object>())
  {
    std::vector<std::string> ks; for (auto& x : v.get<picojson::object>()) ks.push_back(x.first); for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[c.r.range(0, i - 1)]);
    o = "{"; bool f = true; for (auto& k : ks) { o += (f ? "" : ",") + ws(c) + "\"" + k + "\"" + ws(c) + ":" + ws(c) + emit(c, v.get<picojson::object>().at(k)) + ws(c); f = false; } return o + ws(c) + "}";
  }
  if (v.is<picojson::array>()) { o = "["; bool f = true; for (auto& x : v.get<picojson::array>()) { o += (f ? "" : ",") + ws(c) + emit(c, x); f = false; } return o + ws(c) + "]"; }
  if (v.is<double>()) return num(c, v.get<double>()); if (v.is<bool>()) return v.get<bool>() ? "true" : "false"; if (v.is<std::string>()) return "\"" + v.get<std::string>() + "\""; return "null";
}
static value parse(const std::string& s) { value v; std::stringstream ss(s); ss >> v; return v; }
static void put(const std::string& n, const std::string& s) { FILE* f = fopen(n.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static vw::World world(Case& c)
{
  vw::World w; w.rd = c.r.pick({1, 2, 4, 6}); w.zd = c.r.pick({1, 2, 4, 8}); w.nr = w.rd * 4 + c.r.range(0, 40); w.nz = w.zd * 4 + c.r.range(0, 40); w.R = c.r.logu(1e-4, 10); w.Z = c.r.logu(1e-4, 10); w.dt = c.r.logu(1e-16, 1e-9); w.end = c.r.logu(1e-14, 1e-6);
  w.macro = c.r.logu(1e2, 1e6); w.ratio = c.r.range(1, 9); w.species.clear(); w.data_root = c.r.pick({"./out", "/tmp/some where", "a", "./"});
  const char* sn[] = {"electrons", "ions", "positrons", "He", "x y", "Neutrals", "protons"}; bool alike = c.r.chance(.15);
  // names whose identifiers are the same before they are told apart
  if (alike) { static const char* one[] = {"boy", "cjv", "dvf", "boz", "cjw"}; static const char* two[] = {"cns", "eul", "jmq", "cnt", "eum"}; bool f = c.r.chance(.4); for (int k = 0; k < 5; ++k) sn[k + 2] = f ? one[k] : two[k]; c.saw("names of one hash"); }
  int ns = alike ? c.r.range(5, 7) : c.r.range(2, 7);
  for (int k = 0; k < ns; ++k) w.species.push_back({sn[k], (double)c.r.range(-3, 3), k == 0 ? 1. : (double)c.r.range(1, 100000), c.r.logu(1e10, 1e25), c.r.logu(1e-3, 1e5)});
  int nb = c.r.range(0, 3); const char* bn[] = {"electrons", "b", "ions"}; if (alike) { bn[0] = "bcr"; bn[1] = "kum"; bn[2] = "bcq"; } for (int k = 0; k < nb; ++k) w.beams.push_back({bn[k], (double)c.r.range(-2, 2), (double)c.r.range(1, 5000), c.r.uni(1e6, 2.99e8), c.r.chance(.3) ? 0 : c.r.logu(1e-13, 1e-7), c.r.range(1, 500), c.r.logu(1e-4, 1), c.r.logu(1e-4, 1), w.R * c.r.uni(.01, 1), c.r.logu(1e10, 1e22)});
  for (size_t i = w.species.size(); i > 1; --i) std::swap(w.species[i - 1], w.species[c.r.range(0, i - 1)]);
  int np = c.r.range(0, 8); const char* cn[] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
  for (int k = 0; k < np; ++k)
  {
    vw::Probe p; p.component = cn[c.r.range(0, 14)]; if (p.component.size() > 5) p.specie = w.species[c.r.range(0, ns - 1)].name; p.shape = c.r.pick({"rec", "col", "row", "dot"}); p.schedule = c.r.pick({1, 2, 10, 77, 100000});
    p.r0 = c.r.range(0, w.nr - 1); p.z0 = c.r.range(0, w.nz - 1); p.r1 = c.r.range(p.r0 + 1, w.nr); p.z1 = c.r.range(p.z0 + 1, w.nz); w.probes.push_back(p);
  }
  w.pl = c.r.chance(.3) ? 0 : c.r.uni(0, .4); w.pr = c.r.chance(.3) ? 0 : c.r.uni(0, .4); w.po = c.r.chance(.3) ? 0 : c.r.uni(0, .4); w.s1 = c.r.logu(1e-8, 1); w.s2 = c.r.logu(1e-8, 10);
  if (c.r.chance(.5)) { w.ef = "const_z"; w.ep = fmt("[%.17g]", c.r.uni(-1e6, 1e6)); w.mf = "const_phi"; w.mp = fmt("[%.17g, 2]", c.r.uni(-1e6, 1e6)); }
  return w;
}
static void honoured(Case& c)
{
  vw::World w = world(c); std::string name = c.r.chance(.5) ? "c.json" : "other name.conf"; put(name, emit(c, parse(w.json()))); vshim::throw_on_fatal = true; vw::quiet(); Cfg* f = nullptr; std::string why;
  try { f = new Cfg(name); } catch (std::exception& e) { why = e.what(); }
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; if (!c.ok(f, "rejected", "valid configuration was rejected: " + why + " " + w.json())) return;
#define EQ(a, b) c.ok((a) == (b), "value:" #a, fmt("%s is %.17g, configured %.17g", #a, (double)(a), (double)(b)))
  Geometry* g = f->geometry; EQ(g->size[0], w.R); EQ(g->size[1], w.Z); EQ(g->cell_amount[0], w.nr); EQ(g->cell_amount[1], w.nz); EQ(g->domains_amount[0], w.rd); EQ(g->domains_amount[1], w.zd); EQ(g->cell_dims[0], 0); EQ(g->cell_dims[1], 0); EQ(g->cell_dims[2], w.nr); EQ(g->cell_dims[3], w.nz);
  for (int k = 0; k < 4; ++k) EQ(g->walls[k], true); c.near(g->cell_size[0], w.R / w.nr, 1e-12 * w.R / w.nr, "value:cell", "cell size"); c.near(g->cell_size[1], w.Z / w.nz, 1e-12 * w.Z / w.nz, "value:cell", "cell size");
#ifdef ENABLE_PML
  EQ(g->pml_size[0], 0); EQ(g->pml_size[1], floor(w.pl * w.nz)); EQ(g->pml_size[2], floor(w.po * w.nr)); EQ(g->pml_size[3], floor(w.pr * w.nz)); EQ(g->pml_sigma[0], w.s1); EQ(g->pml_sigma[1], w.s2);
#endif
  EQ(f->time->start, 0); EQ(f->time->end, w.end); EQ(f->time->step, w.dt); EQ(f->time->current, 0); EQ(f->macro_amount, w.macro); EQ(f->beam_macro_ratio, w.ratio);
  c.ok(w.data_root == f->output_data->data_root, "value:data_root", fmt("data root is %s, configured %s", f->output_data->data_root, w.data_root.c_str())); EQ(f->output_data->compress, false); EQ(f->output_data->compress_level, 1);
  // macroparticles are shared by volume: one species takes the whole grid, a beam the cells of its bunches times the ratio
  double sum = (double)w.nr * w.nz * w.species.size(); std::vector<double> bv; for (auto& b : w.beams) { bv.push_back(b.radius / (w.R / w.nr) * b.length * b.amount / (w.Z / w.nz) * w.ratio); sum += bv.back(); }
  std::set<unsigned> ids;
  if (c.ok(f->particle_species.size() == w.species.size(), "value:species", "amount of species")) for (size_t k = 0; k < w.species.size(); ++k)
  {
    auto& s = f->particle_species[k]; auto* x = &w.species[0]; for (auto& y : w.species) if (y.name == s.name) x = &y; if (!c.ok(x->name == s.name, "value:name", "unknown specie " + s.name)) continue;
    EQ(s.mass, x->mass); EQ(s.charge, x->charge); EQ(s.left_density, x->density); EQ(s.right_density, x->density); EQ(s.temperature, x->temperature); c.near(s.macro_amount, w.macro * w.nr * w.nz / sum, 1.001, "value:macro", "macroparticles of " + s.name); c.ok(ids.insert(s.id).second, "id", "two species have the same ID");
  }
  if (c.ok(f->particle_beams.size() == w.beams.size(), "value:beams", "amount of beams")) for (size_t k = 0; k < w.beams.size(); ++k)
  {
    auto& b = f->particle_beams[k]; auto& x = w.beams[k]; c.ok(b.name == "beam_" + x.name, "value:name", "beam name " + b.name); EQ(b.mass, x.mass); EQ(b.charge, x.charge); EQ(b.velocity, x.velocity); EQ(b.density, x.density); EQ(b.start_time, x.start); EQ(b.bunches_amount, x.amount); EQ(b.bunches_distance, x.distance); EQ(b.bunch_length, x.length); EQ(b.bunch_radius, x.radius);
    c.near(b.macro_amount, w.macro * bv[k] / sum, 1.001 + 1e-9 * w.macro, "value:macro", "macroparticles of " + b.name); c.ok(ids.insert(b.id).second, "id", "beam shares its ID");
  }
  if (c.ok(f->probes.size() == w.probes.size(), "value:probes", fmt("%zu probes of %zu", f->probes.size(), w.probes.size()))) for (size_t k = 0; k < w.probes.size(); ++k)
  {
    auto& p = f->probes[k]; auto& x = w.probes[k]; std::string path = x.component + "/" + (x.specie.empty() ? "" : x.specie + "/") + x.shape + "/"; int sh = x.shape == "rec" ? 0 : x.shape == "col" ? 1 : x.shape == "row" ? 2 : 3;
    path += sh == 0 ? fmt("%d-%d_%d-%d", x.r0, x.r1, x.z0, x.z1) : sh == 1 ? fmt("%d", x.z0) : sh == 2 ? fmt("%d", x.r0) : fmt("%d_%d", x.r0, x.z0);
    c.ok(p.component == x.component && (x.specie.empty() || p.specie == x.specie), "value:probe", "probe " + p.component + " of " + p.specie); c.ok(p.path == path, "value:path", "probe path is " + p.path + " instead of " + path); EQ(p.shape, sh); EQ(p.schedule, x.schedule);
    if (sh == 0) { EQ(p.dims[0], x.r0); EQ(p.dims[1], x.z0); EQ(p.dims[2], x.r1); EQ(p.dims[3], x.z1); } if (sh == 1 || sh == 3) EQ(p.dims[3], x.z0); if (sh == 2 || sh == 3) EQ(p.dims[2], x.r0);
  }
#ifdef ENABLE_EXTERNAL_FIELDS
  { auto a = parse(w.ep).get<picojson::array>(), b = parse(w.mp).get<picojson::array>(); if (c.ok(f->external_fields.size() == 2 && f->external_fields[0].formfactor == w.ef && f->external_fields[1].formfactor == w.mf && f->external_fields[0].params.size() == a.size() && f->external_fields[1].params.size() == b.size(), "value:external", "external fields")) { for (size_t k = 0; k < a.size(); ++k) EQ(f->external_fields[0].params[k], a[k].get<double>()); for (size_t k = 0; k < b.size(); ++k) EQ(f->external_fields[1].params[k], b[k].get<double>()); } c.saw("external fields read"); }
#endif
  // what the domains get
  SMB* s = nullptr; if (w.nr * w.nz < 1500) s = vw::smb(f); size_t cells = 0;
  if (s) { for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j)
  {
    Domain* d = s->domains(i, j); cells += d->geometry.cell_amount[0] * d->geometry.cell_amount[1]; c.ok(d->species_p.size() == w.species.size() + w.beams.size(), "domain:species", "amount of species in the domain");
    c.ok(d->geometry.walls[0] == (i == 0) && d->geometry.walls[1] == (j == 0) && d->geometry.walls[2] == (i + 1 == s->r_domains) && d->geometry.walls[3] == (j + 1 == s->z_domains), "domain:walls", fmt("walls of domain %u,%u", i, j));
    for (auto sp : d->species_p)
    {
      for (auto& x : w.species) if (x.name == sp->name) { c.ok(fabs(sp->mass / (x.mass * 9.1e-31) - 1) < 1e-12 && fabs(sp->charge - x.charge * 1.6e-19) < 1e-30 && fabs(sp->density[0] / x.density - 1) < 1e-12 && fabs(sp->density[1] / x.density - 1) < 1e-12 && sp->temperature == x.temperature, "domain:specie", "mass, charge, density or temperature of " + x.name); c.saw("species in domains"); }
      for (auto& x : w.beams) if ("beam_" + x.name == sp->name) { BeamP* b = (BeamP*)sp; c.ok(fabs(b->mass / (x.mass * 9.1e-31) - 1) < 1e-12 && fabs(b->charge - x.charge * 1.6e-19) < 1e-30 && b->velocity == x.velocity, "domain:beam", "mass, charge or velocity of beam " + x.name); c.saw("beams in domains"); }
    }
    c.ok(d->species_p[0]->time == f->time, "domain:time", "domain has time of its own");
  } EQ(cells, (size_t)w.nr * w.nz); }
  c.saw("values compared", 30 + 5 * w.species.size() + 9 * w.beams.size() + 5 * w.probes.size()); c.state(fmt("%d/%d s%zu b%zu p%zu", w.rd, w.zd, w.species.size(), w.beams.size(), w.probes.size())); c.sample(fmt("%dx%d cells, %zu species, %zu beams, %zu probes", w.nr, w.nz, w.species.size(), w.beams.size(), w.probes.size()));
}
static void paths(const value& v, std::vector<std::string> at, std::vector<std::vector<std::string>>& o)
{
  if (v.is<picojson::object>()) for (auto& x : v.get<picojson::object>()) { auto p = at; p.push_back(x.first); o.push_back(p); paths(x.second, p, o); }
  if (v.is<picojson::array>()) { int k = 0; for (auto& x : v.get<picojson::array>()) { auto p = at; p.push_back(fmt("#%d", k++)); paths(x, p, o); } }
}
static value& walk(value& v, const std::vector<std::string>& p, size_t n)
{ value* x = &v; for (size_t k = 0; k < n; ++k) x = p[k][0] == '#' ? &x->get<picojson::array>()[atoi(p[k].c_str() + 1)] : &x->get<picojson::object>()[p[k]]; return *x; }
static void rejected(Case& c)
{
  vw::World w = world(c); std::string what; bool json = false; value v; int k = c.r.range(0, 15); int at = c.r.range(0, 1);
  auto probe = [&](const char* sh) { vw::Probe p; p.component = "E/r"; p.shape = sh; p.schedule = 1; p.r0 = 0; p.z0 = 0; p.r1 = w.nr; p.z1 = w.nz; w.probes.insert(w.probes.begin() + c.r.range(0, w.probes.size()), p); for (auto& q : w.probes) if (q.shape == p.shape && q.r1 == w.nr && q.z1 == w.nz && q.r0 == 0 && q.z0 == 0) return &q; return &w.probes[0]; };
  auto dom = [&](int n) { (at ? w.rd : w.zd) = n; };
  switch (k)
  {
  case 0: { std::vector<vw::Spec> o; for (auto& s : w.species) if (s.name != "electrons") { if (s.mass == 1) s.mass = 2; o.push_back(s); } w.species = o; what = "no electrons"; break; }
  case 1: w.species.push_back(w.species[c.r.range(0, w.species.size() - 1)]); w.species.back().density *= 2; what = "duplicate specie"; break;
  case 2: w.beams.push_back({"b", -1, 1, 1e8, 0, 1, .1, .1, w.R / 2, 1e12}); w.beams.push_back(w.beams.back()); what = "duplicate beam"; break;
  case 3: dom(c.r.pick({3, 5, 7, 9})); w.nr = w.nz = 200; what = "odd domains"; break;
  case 4: dom(0); what = "no domains"; break;
  case 5: { int n = 2 * c.r.range(1, 10); (at ? w.nr : w.nz) = std::min(n * 4 - 1, std::max(1, n * c.r.range(1, 3))); dom(n); w.probes.clear(); what = "too small domains"; break; }
  case 6: probe("rec")->shape = c.r.pick({"", "Rec", "rect", "column", "cube", "do"}); what = "unknown shape"; break;
  case 7: { auto* p = probe("rec"); (at ? p->r1 : p->z1) += c.r.pick({1, 2, 100}); what = "probe beyond the grid"; break; }
  case 8: { auto* p = probe("rec"); if (at) p->r0 = p->r1 = w.nr / 2; else p->z0 = p->z1 = w.nz / 2; what = "empty probe"; break; }
  case 9: { auto* p = probe("rec"); if (at) { p->r0 = 3; p->r1 = 2; } else { p->z0 = 3; p->z1 = 1; } what = "inverted probe"; break; }
  case 10: { auto* p = probe("col"); p->z0 = w.nz + c.r.pick({0, 1, 50}); what = "column beyond the grid"; break; }
  case 11: { auto* p = probe("row"); p->r0 = w.nr + c.r.pick({0, 1, 50}); what = "row beyond the grid"; break; }
  case 12: { auto* p = probe("dot"); (at ? p->r0 : p->z0) = (at ? w.nr : w.nz) + c.r.pick({0, 1, 50}); what = "dot beyond the grid"; break; }
  case 13: probe("rec")->schedule = c.r.pick({0, -1, -100}); what = "bad schedule"; break;
  case 14: { w.beams = {{"b", -1, 1, 1e8, 0, 1, .1, .1, w.R / 2, 1e12}}; w.species.push_back({"beam_b", -1, 3, 1e15, 1}); what = "specie with the name of a beam"; break; }
  case 15: { // a required entry is missing or has a foreign type
    v = parse(w.json()); std::vector<std::vector<std::string>> all, o; paths(v, {}, all);
    for (auto& p : all)
    {
      if (p[0] == "comment" || (p.size() > 1 && p[1] == "plot")) continue; if (p[0] == "data" && p.size() > 3 && p[3] == "specie") continue; if (p[0] == "data" && p.size() > 4) { }
#ifndef ENABLE_PML
      if (p[0] == "geometry" && p.size() > 1 && p[1] == "pml") continue;
#endif
#ifndef ENABLE_EXTERNAL_FIELDS
      if (p[0] == "external_fields") continue;
#endif
      o.push_back(p);
    }
    auto p = o[c.r.range(0, o.size() - 1)]; std::string full; for (auto& x : p) full += "/" + x; bool type = c.r.chance(.4);
    // coordinates that the shape of the probe does not need are never emitted, so each one left is required
    value& owner = walk(v, p, p.size() - 1); if (type) { value& x = owner.get<picojson::object>()[p.back()]; x = x.is<std::string>() ? value(1.) : value(std::string("text")); } else owner.get<picojson::object>().erase(p.back());
    what = (type ? "wrong type of " : "missing ") + full; json = true; break; }
  }
  put("b.json", emit(c, json ? v : parse(w.json()))); vshim::throw_on_fatal = true; vw::quiet(); unsigned long fatals = vshim::n_fatal; bool thrown = false; std::string why; Cfg* f = nullptr;
  try { f = new Cfg("b.json"); } catch (std::exception& e) { thrown = true; why = e.what(); }
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; (void)fatals; (void)f;
  c.ok(thrown, "accepted:" + (k == 15 ? std::string("entry") : what), "configuration was accepted, although it has " + what + ": " + w.json().substr(0, 300)); c.saw("rejections"); c.saw("rejection: " + (k == 15 ? std::string("missing or mistyped entry") : what)); c.state(what); c.sample(what + " -> " + why.substr(0, 80));
}
int main(int argc, char** argv) { return run(argc, argv, "cfg", {{"honoured", 2, honoured}, {"rejected", 3, rejected}}); }
