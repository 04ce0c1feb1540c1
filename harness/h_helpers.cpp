// P22: relativistic, plasma and parsing helpers against independent references
#include <ctime>
static long vh_time_offset = 0;
extern "C" time_t time(time_t* t) noexcept { time_t v = 1700000000 + vh_time_offset; if (t) *t = v; return v; }
#include "vh.hpp"
#include "defines.hpp"
#include "constant.hpp"
#include "algo/common.hpp"
#include "algo/grid.hpp"
#include "phys/rel.hpp"
#include "phys/plasma.hpp"
#include <fstream>
using namespace vh;
typedef long double L;
static const L C = 3.0e8L;

static bool fatal(std::function<void()> f)
{ try { f(); } catch (vshim::FatalError&) { return true; } return false; }

static double speed(Case& c)
{
  switch (c.r.range(0, 6))
  {
  case 0: return 0;
  case 1: return c.r.logu(1e-6, 1e5);
  case 2: return 5e7 * (1 + c.r.sgn() * c.r.logu(1e-12, .1));
  case 3: return 3e8 * (1 - c.r.logu(1e-9, .5));
  default: return c.r.uni(0, 2.9999e8);
  }
}
static std::string vcls(double v) { return v == 0 ? "0" : v < 1e5 ? "slow" : v < 5e7 ? "classic" : v < 2.7e8 ? "rel" : "ultra"; }
static void rel(Case& c)
{
  double v = speed(c); L b2 = (L)v * v / (C * C); L g = 1 / sqrtl(1 - b2);
  double m = c.r.logu(1e-31, 1e-24);
  c.state(vcls(v) + fmt("%d", (int)log10(m)));
  c.sample(fmt("v=%g m=%g", v, m));
  // error of gamma due to rounding of beta^2 near 1: ~ g^2 * eps
  double tg = 1e-14 * (double)(g * g) + 1e-12;
  c.near(phys::rel::lorenz_factor(v * v), (double)g, tg * (double)g, "lorenz_factor", "Lorentz factor");
  c.ok(phys::rel::lorenz_factor(v * v) >= 1 - 1e-15, "lorenz_factor:range", "Lorentz factor below one");
  L u2 = b2 * g * g * C * C;
  c.near(phys::rel::lorenz_factor_inv((double)u2), (double)(1 / g), 1e-12, "lorenz_factor_inv", "inverse Lorentz factor");
  L e = b2 * g * g / (g + 1) * m * C * C;
  bool near_limit = fabs(v / 5e7 - 1) < 1e-9;
  double te = v > 5e7 * (1 - 1e-9) ? (near_limit ? 0.03 : 1e-10 + 1e-14 * (double)(g * g * g) + 3e-15 / (double)b2) : 0.75 * (double)b2 * 1.1 + 1e-12;
  c.near(phys::rel::energy(m, v * v), (double)e, te * (double)e, "energy", "kinetic energy");
  L p = m * (L)v * g;
  double p_over = (double)(p / m); bool nl = fabs(p_over / 5e7 - 1) < 1e-9;
  double tm = p_over > 5e7 ? (nl ? 0.03 : 1e-10 + 1e-14 * (double)(g * g * g) + 3e-15 / (double)b2) : 0.5 * (double)b2 * 1.2 + 1e-12;
  c.near(phys::rel::energy_m(m, (double)(p * p)), (double)e, tm * (double)e, "energy_m", "kinetic energy from momentum");
  double th = acos(c.r.uni(-1, 1)), ph = c.r.uni(0, 6.283);
  vector3d<double> w(v * sin(th) * cos(ph), v * sin(th) * sin(ph), v * cos(th));
  vector3d<double> pp = phys::rel::momentum(m, w);
  for (int i = 0; i < 3; ++i)
    c.near(pp[i], (double)(m * (L)w[i] * g), (tg * 4) * (double)p, "momentum", fmt("momentum component %d", i));
  c.near(phys::rel::momentum_0(m, w), (double)(g * m * C), tg * 4 * (double)(g * m * C), "momentum_0", "zeroth momentum");
  // monotonic in speed, also across the switch to the relativistic formula
  double v2 = v * (1 + c.r.logu(1e-6, .1));
  if (v2 < 2.999e8 && v > 0)
  {
    c.ok(phys::rel::energy(m, v2 * v2) > phys::rel::energy(m, v * v), "energy:monotonic", fmt("energy does not grow from v=%.10g to %.10g", v, v2));
    c.ok(phys::rel::lorenz_factor(v2 * v2) >= phys::rel::lorenz_factor(v * v), "gamma:monotonic", "gamma does not grow");
    c.saw("monotonic pairs");
  }
  double vs = 3e8 * (1 + c.r.logu(1e-9, 10));
  c.ok(fatal([&] { phys::rel::lorenz_factor(vs * vs); }), "superluminal", fmt("speed %.12g is not rejected", vs));
  if (vs > 3.001e8) c.ok(fatal([&] { phys::rel::momentum(m, vector3d<double>(vs, 0, 0)); }), "superluminal:momentum", "superluminal momentum is not rejected");
  c.ok(fatal([&] { phys::rel::momentum(0, w); }), "zero mass", "zero mass is not rejected");
  c.saw("superluminal");
}
static void plasma(Case& c)
{
  using namespace phys::plasma;
  double ne = c.r.logu(1e8, 1e28), ni = ne * c.r.logu(.1, 10), te = c.r.logu(1e-3, 1e6), ti = te * c.r.logu(1e-3, 1e3);
  c.state(fmt("%d,%d", (int)log10(ne), (int)log10(te)));
  L eps = 8.8541878e-12L, q = 1.602176634e-19L;
  L ld = sqrtl(eps / q / (ne / (L)te + ni / (L)ti));
  c.near(debye_length(ne, ni, te, ti), (double)ld, 1e-4 * (double)ld, "debye_length", "Debye length");
  c.ok(fatal([&] { debye_length(-ne, ni, te, ti); }) && fatal([&] { debye_length(ne, 0, te, ti); }), "debye:reject", "non-positive density is not rejected");
  L wp = sqrtl((L)ne * 1.6e-19L * 1.6e-19L / (9.1e-31L * 8.85e-12L));
  c.near(plasma_frequency(ne), (double)wp, 2e-3 * (double)wp, "plasma_frequency", "plasma frequency");
  double ma = c.r.logu(1e-31, 1e-24), mb = c.r.logu(1e-31, 1e-24), l = c.r.logu(1e-12, 1e-1), v = c.r.logu(1, 3e8);
  L cl = logl((L)l * ma * mb / ((L)ma + mb) * v / (6.6261e-34L / (2 * acosl(-1))));
  c.saw(cl < 2 ? "log floored" : "log plain");
  c.near(coulomb_logarithm(ma, mb, l, v), (double)(cl < 2 ? 2 : cl), 1e-6 * fabs((double)cl) + 1e-9, "coulomb_logarithm", "Coulomb logarithm");
  double qa = 1.6e-19 * c.r.sgn() * c.r.range(1, 5), qb = 1.6e-19 * c.r.sgn() * c.r.range(1, 5), p = c.r.logu(1e-27, 1e-20), lg = c.r.uni(2, 25);
  L nu = powl((L)qa * qb, 2) * ne * lg / (8 * acosl(-1) * powl(8.85e-12L, 2) * p * p * v);
  c.near(collision_freqency(qa, qb, ne, lg, p, v), (double)nu, 1e-9 * (double)nu, "collision_frequency", "collision frequency");
}
static void strings(Case& c)
{
  using namespace algo::common;
  // splitting
  char d = c.r.pick({'/', ',', '_', '-'});
  std::string s; std::vector<std::string> want; std::string cur;
  int n = c.r.range(0, 14);
  for (int i = 0; i < n; ++i) { char ch = c.r.chance(.4) ? d : (char)('a' + c.r.range(0, 25)); s += ch; }
  for (char ch : s) if (ch == d) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch;
  if (!cur.empty()) want.push_back(cur);
  std::vector<std::string> got; splitstr(s, d, got);
  c.ok(got == want, "splitstr", "splitting '" + s + "'");
  c.state(fmt("%zu/%d", want.size(), n));
  // hash: a function of string and salt
  unsigned short salt = c.r.range(0, 60000);
  c.ok(hash_from_string(s, salt) == hash_from_string(std::string(s.c_str()), salt), "hash", "hash is not a function of the string");
  // command line
  std::vector<std::string> av = {"picopic"}; const char* opts[] = {"-f", "-h", "--config", "-v", "x", "file.json"};
  int m = c.r.range(0, 6); for (int i = 0; i < m; ++i) av.push_back(opts[c.r.range(0, 5)]);
  std::vector<char*> ap; for (auto& a : av) ap.push_back((char*)a.c_str());
  for (const char* o : opts)
  {
    int at = -1; for (size_t i = 0; i < av.size(); ++i) if (av[i] == o) { at = i; break; }
    c.ok(cmd_option_exists(ap.data(), ap.data() + ap.size(), o) == (at >= 0), "cmd_option_exists", "presence of an option");
    char* v = get_cmd_option(ap.data(), ap.data() + ap.size(), o);
    bool has = at >= 0 && at + 1 < (int)av.size();
    c.ok(has ? (v && std::string(v) == av[at + 1]) : v == nullptr, "get_cmd_option", "value of an option");
  }
  // rounding up to a multiple
  unsigned number = c.r.chance(.5) ? c.r.range(0, 5000) : c.r.range(0, 50000000); unsigned div = c.r.chance(.2) ? c.r.range(0, 2) : c.r.range(1, 30000);
  double noise = div * (1 + c.r.sgn() * c.r.u() * 1e-12);
  unsigned want_n = div <= 1 ? number : (number + div - 1) / div * div;
  c.ok(nearest_divide(number, noise) == want_n, "nearest_divide", fmt("smallest multiple of %u not less than %u: got %u", div, number, nearest_divide(number, noise)));
  // roots
  double x = c.r.chance(.1) ? 0 : c.r.logu(1e-200, 1e200);
  c.near(sq_rt(x), sqrt(x), 1e-14 * sqrt(x), "sq_rt", "square root");
}
static void files(Case& c)
{
  using namespace algo::common;
  std::string base = fmt("d%llu", (unsigned long long)c.idx), p = base; int depth = c.r.range(1, 5);
  for (int i = 1; i < depth; ++i) p += "/x" + std::to_string(c.r.range(0, 3));
  c.ok(!directory_exists(p), "directory_exists", "reports a missing directory");
  c.ok(make_directory(p), "make_directory", "creation of " + p);
  struct stat st; c.ok(stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "make_directory:missing", "directory does not exist after creation");
  c.ok(directory_exists(p), "directory_exists", "misses an existing directory");
  c.ok(make_directory(p), "make_directory:again", "an existing directory is an error");
  std::string f = p + "/numbers"; int n = c.r.range(0, 40); std::vector<double> v;
  { std::ofstream o(f); o.precision(17); for (int i = 0; i < n; ++i) { v.push_back(c.r.sgn() * c.r.logu(1e-20, 1e20)); o << v.back() << (c.r.chance(.3) ? "\n" : " "); } }
  c.ok(read_file_to_double(f.c_str()) == v, "read_file_to_double", fmt("%d numbers", n));
  c.ok(!make_directory(f), "make_directory:file", "a file is taken for a directory");
  c.ok(!directory_exists(f), "directory_exists:file", "a file is taken for a directory");
  c.ok(fatal([&] { read_file_to_double((p + "/none").c_str()); }), "read_file:missing", "missing file is not an error");
  c.state(fmt("%d,%d", depth, n));
}
static void duration(Case& c)
{
  long t = c.r.chance(.3) ? c.r.range(0, 4000) : (long)c.r.logu(1, 3e7);
  vh_time_offset = t; std::string s = algo::common::get_simulation_duration(); vh_time_offset = 0;
  long tot = 0, num = 0; bool any = false;
  for (char ch : s)
    if (isdigit(ch)) { num = num * 10 + (ch - '0'); any = true; }
    else if (ch == ' ') continue;
    else { tot += num * (ch == 'd' ? 86400 : ch == 'h' ? 3600 : ch == 'm' ? 60 : 1); num = 0; }
  c.ok(any && tot == t, "duration", fmt("%ld s shown as %s", t, s.c_str()));
  c.state(fmt("%zu", s.size()));
}
static void interp(Case& c)
{
  unsigned nx = c.r.range(2, 9), ny = c.r.range(2, 9);
  Grid<double> a(nx, ny, 2), b(nx, ny, 2);
  for (unsigned i = 0; i < nx; ++i) for (unsigned j = 0; j < ny; ++j) { a.set(i, j, c.r.uni(-1, 1)); b.set(i, j, 77); }
  algo::common::bilinear_interpolation<Grid<double>>(a, b);
  for (unsigned i = 0; i < nx; ++i) for (unsigned j = 0; j < ny; ++j)
  {
    if (!i && !j) continue;
    double w = i && j ? (a(i-1,j-1) + a(i,j-1) + a(i-1,j) + a(i,j)) / 4 : i ? (a(i-1,0) + a(i,0)) / 2 : (a(0,j-1) + a(0,j)) / 2;
    c.near(b(i, j), w, 1e-12, "bilinear", fmt("interpolated node %u,%u", i, j));
  }
  c.state(fmt("%u,%u", nx, ny));
}
int main(int argc, char** argv)
{
  vshim::throw_on_fatal = true;
  return run(argc, argv, "helpers", {{"rel", 6, rel}, {"plasma", 3, plasma}, {"strings", 3, strings}, {"files", 1, files}, {"duration", 1, duration}, {"interp", 1, interp}});
}
