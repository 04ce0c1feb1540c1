// P25: what the program tells about the limits of the method and about the schemes it was built with
#include "vsmb.hpp"
using namespace vh;
static const double C = 3e8, WP = 56.3803, LD = 7433.944;
static void limits(Case& c)
{
  vw::World w; w.rd = c.r.pick({1, 1, 2}); w.zd = c.r.pick({1, 2, 4}); w.nr = w.rd * 4 + c.r.range(0, 60); w.nz = w.zd * 4 + c.r.range(0, 60); w.species.clear(); w.log = c.r.pick({"/dev/null", "run.log"});
  const char* en[] = {"electrons", "Electrons", "electron", "Electron", "light ones"}; const char* in[] = {"ions", "Ions", "ion", "Ion"}; const char* on[] = {"He", "protons", "ions2", "electrons2", "x y"};
  int e = c.r.range(0, 4); double te = c.r.chance(.1) ? 0 : c.r.logu(1e-3, 1e4), ti = c.r.logu(1e-3, 1e4), ne = c.r.logu(1e12, 1e22), ni = c.r.chance(.3) ? ne : ne * c.r.logu(.01, 100);
  w.species.push_back({en[e], -1., e == 4 ? 1. : c.r.pick({1., 1., 207.}), ne, te}); w.species.push_back({in[c.r.range(0, 3)], 1, (double)c.r.range(2, 50000), ni, ti});
  for (int k = c.r.range(0, 3); k > 0; --k) w.species.push_back({on[k], (double)c.r.range(-2, 2), (double)c.r.range(2, 50000), c.r.logu(1e10, 1e24), c.r.logu(1e-3, 1e4)});
  for (size_t i = w.species.size(); i > 1; --i) std::swap(w.species[i - 1], w.species[c.r.range(0, i - 1)]);
  double L = te > 0 ? LD / sqrt(ne / te + ni / ti) : 1e-4, wp = WP * sqrt(ne);
  // parameters around the thresholds
  double cr = 100 * L * c.r.logu(.05, 5), cz = 100 * L * c.r.logu(.05, 5); if (c.r.chance(.3)) { cr *= .02; cz *= .02; } w.R = cr * w.nr; w.Z = cz * w.nz;
  double tc = std::min(cr, cz) / C, tw = .02 / wp, tm = std::min(tc, tw); w.dt = tm * c.r.logu(.2, 5); w.end = 10 * w.dt;
  w.macro = c.r.chance(.3) ? c.r.uni(w.species.size(), 30) : 10. * w.nr * w.nz * c.r.logu(.1, 10);
  if (c.r.chance(.3)) w.beams.push_back({"b", -1, 1, 1e8, 0, 1, 0, w.Z * c.r.uni(.01, .5), w.R * c.r.uni(.1, .5), 1e12});
  FILE* fo = fopen("l.json", "w"); fputs(w.json().c_str(), fo); fclose(fo);
  std::vector<std::string> log; vshim::capture = &log; vshim::throw_on_fatal = true; vw::quiet(); loguru::g_files.clear(); loguru::g_file_verbosity = loguru::Verbosity_OFF; Cfg* f = nullptr; std::string why;
  try { f = new Cfg("l.json"); } catch (std::exception& x) { why = x.what(); }
  vshim::capture = nullptr; vw::quiet(); if (!c.ok(f, "rejected", "valid configuration was rejected: " + why + " " + w.json())) return;
  double N = 0; for (auto& s : f->particle_species) N += s.macro_amount;
  auto find = [&](const char* what) { std::vector<std::string> o; for (auto& l : log) if (l.find(what) != std::string::npos) o.push_back(l); return o; };
  auto tell = [&](const char* key, const char* what, double excess, double limit, const char* tag)
  {
    if (fabs(excess - 1) < 1e-5) return; auto o = find(what);
    c.ok(o.size() == (excess > 1), std::string(key) + (excess > 1 ? ":silent" : ":false alarm"), fmt("``%s'' is said %zu times, the value is %.6g of the limit: ", what, o.size(), excess) + w.json());
    if (o.size() != 1 || excess <= 1) return;
    c.ok(o[0].find(tag) == 0, std::string(key) + ":level", o[0]); c.saw(std::string("told: ") + key);
    size_t p = o[0].find(", than ``"); if (c.ok(p != std::string::npos, std::string(key) + ":limit", o[0])) c.near(atof(o[0].c_str() + p + 9), limit, 2e-5 * limit, std::string(key) + ":limit", "announced limit");
  };
  tell("time", "Too large time step", w.dt / tm, tm, "[ERR]");
  if (te > 0)
  {
    tell("cell", "Too large grid size", std::max(cr, cz) / (100 * L), 100 * L, "[ERR]");
    tell("small", "Too small system size", 100 * L / std::min(w.R, w.Z), 100 * L, "[ERR]");
    tell("large", "Too large system size", std::max(w.R, w.Z) / (100 * L * std::max(N, .5)), 100 * L * N, "[ERR]");
  }
  else c.ok(find("grid size").empty() && find("system size").empty(), "cold", "limits of warm plasma are reported for the cold one");
  tell("macro", "Too small amount of macroparticles", 10. * w.nr * w.nz / std::max(N, .5), 10. * w.nr * w.nz, "[WARN]");
  // every message goes to the configured log
  bool reg = false; for (auto& p : loguru::g_files) reg |= p.first == w.log && p.second >= 0; c.ok(reg, "log file", "log file is not the configured one");
  // schemes of the build
  auto one = [&](const char* key, std::vector<std::pair<const char*, bool>> v) { for (auto& p : v) { auto o = find(p.first); c.ok(o.size() == p.second, std::string("scheme:") + key, fmt("``%s'' is said %zu times", p.first, o.size())); } c.saw("schemes"); };
#if defined(SWITCH_PUSHER_VAY)
  one("pusher", {{"Vay particles pusher", true}, {"Boris", false}, {"Higuera", false}});
#elif defined(SWITCH_PUSHER_HC)
  one("pusher", {{"Vay particles pusher", false}, {"Boris", false}, {"Higuera-Cary particles pusher", true}});
#else
  one("pusher", {{"Vay particles pusher", false}, {"Boris particles pusher", true}, {"Higuera", false}});
#endif
#if defined(SWITCH_CCS_ZIGZAG)
  one("current", {{"ZigZag charge conservation", true}, {"Villasenor-Buneman charge conservation", false}});
#else
  one("current", {{"ZigZag charge conservation", false}, {"Villasenor-Buneman charge conservation", true}});
#endif
#ifdef ENABLE_COULOMB_COLLISIONS
#define CC true
#else
#define CC false
#endif
#ifdef SWITCH_COULOMB_COLLISIONS_TA77S
#define TA true
#else
#define TA false
#endif
#ifdef SWITCH_COULOMB_COLLISIONS_SK98
#define SK true
#else
#define SK false
#endif
#ifdef SWITCH_COULOMB_COLLISIONS_P12
#define PZ true
#else
#define PZ false
#endif
  one("collisions", {{"Particle collisions are enabled", CC}, {"Takizuka and Abe", CC && TA}, {"Sentoku and Kemp", CC && SK}, {"Perez et al.", CC && PZ}});
  c.state(fmt("%d%d%d%d%d e%d s%zu", w.dt > tm, std::max(cr, cz) > 100 * L, 100 * L > std::min(w.R, w.Z), std::max(w.R, w.Z) > 100 * L * N, 10. * w.nr * w.nz > N, e, w.species.size())); c.sample(fmt("%dx%d cells, dt %.2g of the limit, cell %.2g Debye lengths", w.nr, w.nz, w.dt / tm, std::max(cr, cz) / L));
}
int main(int argc, char** argv) { return run(argc, argv, "limits", {{"limits", 1, limits}}); }
