// P27: the whole time step, monitored against what holds for a plasma as a whole: Gauss's law, energy, rest, plasma oscillations, gyration
#include "vsmb.hpp"
#include "vtwin.hpp"
using namespace vh;
static const double EPS = constant::EPSILON0, MU = constant::MAGN_CONST, QE = constant::EL_CHARGE, ME = constant::EL_MASS, PI_ = constant::PI, C2 = 9e16;
struct Net
{
  SMB* s; int nr, nz; double dr, dz, dt;
  Net(SMB* b, Cfg* c, const vw::World& w) : s(b), nr(w.nr), nz(w.nz), dr(c->geometry->cell_size[0]), dz(c->geometry->cell_size[1]), dt(w.dt) {}
  double f(int what, int q, int i, int k) const
  {
    Domain* d = vw::owner(s, i, k); auto& cd = d->geometry.cell_dims; auto& g = what == 0 ? d->maxwell_solver->field_e : what == 1 ? d->maxwell_solver->field_h : d->current->current;
    return g(q, (unsigned)(i - (int)cd[0]), (unsigned)(k - (int)cd[1]));
  }
  void step() { s->inject_beam(); s->solve_maxvell(); s->advance_particles(); s->solve_current(); }
  template <class F> void each(F g) const { for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b) for (auto x : s->domains(a, b)->species_p) for (auto p : x->particles) g(x, p); }
  // charge at the nodes: rings as wide as a cell
  std::vector<double> charge(double* total = nullptr, std::map<uint64_t, std::vector<std::pair<int, double>>>* each_of = nullptr) const
  {
    std::vector<double> Q((nr + 2) * (nz + 2)); double t = 0;
    each([&](SpecieP* x, Particle* p)
    {
      double r = p->pos_r, q = x->charge * p->weight; int i = (int)floor(r / dr), k = (int)floor(p->pos_z / dz); if (i < 0 || k < 0 || i > nr || k > nz) return;
      double lo = (pow((i + .5) * dr, 2) - pow(r - dr / 2, 2)) / (2 * r * dr), fz = p->pos_z / dz - k; t += fabs(q);
      int m = i * (nz + 2) + k; std::vector<std::pair<int, double>> sh = {{m, q * lo * (1 - fz)}, {m + 1, q * lo * fz}, {m + nz + 2, q * (1 - lo) * (1 - fz)}, {m + nz + 3, q * (1 - lo) * fz}}; for (auto& a : sh) Q[a.first] += a.second; if (each_of) (*each_of)[vw::key(p->weight)] = sh;
    });
    if (total) *total = t; return Q;
  }
  double flux(int i, int k) const // of the electric field out of the cell around a node
  {
    auto Fr = [&](int a) { return a < 0 ? 0 : f(0, 0, a, k) * 2 * PI_ * (a + .5) * dr * dz; };
    double A = i > 0 ? 2 * PI_ * i * dr * dr : PI_ * dr * dr / 4; return Fr(i) - Fr(i - 1) + A * (f(0, 2, i, k) - f(0, 2, i, k - 1));
  }
  double kinetic() const { double e = 0; each([&](SpecieP* x, Particle* p) { double v2 = p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z, g = 1 / sqrt(1 - v2 / C2); e += x->mass * p->weight * v2 * g * g / (g + 1); }); return e; }
  double field() const
  {
    double e = 0; for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k)
    { double vi = 2 * PI_ * std::max(i, 0) * dr * dr * dz, vh = 2 * PI_ * (i + .5) * dr * dr * dz; if (!i) vi = PI_ * dr * dr * dz / 4; for (int q = 0; q < 3; ++q) e += EPS / 2 * pow(f(0, q, i, k), 2) * (q == 0 ? vh : vi) + MU / 2 * pow(f(1, q, i, k), 2) * (q == 0 ? vi : vh); }
    return e;
  }
};
// the divergence of the electric field follows the charge, whatever happens
static void gauss(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c); w.pl = w.pr = w.po = 0; if (!w.beams.empty() && c.r.chance(.7)) w.beams[0] = {"b", c.r.pick({-1., 1., 2.}), 1, c.r.uni(.2, .98) * 3e8, w.dt * c.r.range(0, 4), 2, w.dt * 6e8, w.dt * 9e8, w.R * c.r.uni(.2, 1), 1e15};
  std::vector<vw::Seedling> ps = vw::random_particles(c, w); w.macro = c.r.chance(.5) ? 2000 : 100; Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); Net n(b, cf, w); bool loaded = c.r.chance(.3); if (loaded) b->distribute(); vw::plant(b, ps);
  int steps = c.r.range(5, 40); std::vector<double> base; double total = 0; long beam = 0, gone = 0;
  std::vector<double> Q = n.charge(&total);
  for (int t = 0; t < steps; ++t)
  {
    b->inject_beam(); std::map<uint64_t, std::vector<std::pair<int, double>>> had, has; std::vector<double> Qi = n.charge(&total, &had); for (size_t m = 0; m < Q.size() && !base.empty(); ++m) base[m] -= Qi[m] - Q[m]; if (Qi != Q) ++beam;
    b->solve_maxvell();
    // the field has got the current of the previous step, so it corresponds to the charge before the coming one
    std::vector<double> now(Q.size()); double fs = 0;
    for (int i = 0; i < n.nr - 1; ++i) for (int k = 1; k < n.nz - 1; ++k) { double x = EPS * n.flux(i, k); now[i * (n.nz + 2) + k] = x - Qi[i * (n.nz + 2) + k]; fs = std::max(fs, fabs(EPS * n.f(0, 0, i, k) * 2 * PI_ * (i + .5) * n.dr * n.dz)); fs = std::max(fs, fabs(EPS * n.f(0, 2, i, k) * 2 * PI_ * std::max(i, 1) * n.dr * n.dr)); }
    if (base.empty()) base = now;
    for (int i = 0; i < n.nr - 1; ++i) for (int k = 1; k < n.nz - 1; ++k)
    {
      if (!i && k == 1) continue; // E_z of the corner of the axis and the left wall stays as it was
      size_t m = i * (n.nz + 2) + k; Domain* d = vw::owner(b, i, k); auto& cd = d->geometry.cell_dims; bool edge = i == (int)cd[0] || k == (int)cd[1] || i + 1 == (int)cd[2] || k + 1 == (int)cd[3];
      if (!c.near(now[m], base[m], 1e-7 * (total + fs), edge ? "gauss:edge" : "gauss", fmt("step %d, node %d,%d (%dx%d nodes, %dx%d domains): excess of the flux of electric field over the charge (now, at the beginning)", t, i, k, n.nr, n.nz, w.rd, w.zd))) { if (getenv("VH_DBG")) { fprintf(stderr, "DBG cell %d,%d t%d of %dx%d dom %dx%d dq %g\n", i, k, t, n.nr, n.nz, w.rd, w.zd, now[m]-base[m]); n.each([&](SpecieP* x, Particle* p) { if (fabs(p->pos_r/n.dr-i)<1.6 && fabs(p->pos_z/n.dz-k)<1.6) fprintf(stderr, "  %s r %.3f z %.3f old %.3f %.3f q %g beamt %g\n", x->name.c_str(), p->pos_r/n.dr, p->pos_z/n.dz, p->pos_old_r/n.dr, p->pos_old_z/n.dz, x->charge*p->weight, 0.); }); } vw::drop(b); return; }
      c.saw(edge ? "nodes at domain edges" : "nodes");
    }
    b->advance_particles(); b->solve_current(); Q = n.charge(nullptr, &has); cf->time->current += w.dt;
    // a particle, that has left, leaves its field behind
    for (auto& x : had) if (!has.count(x.first)) { ++gone; for (auto& a : x.second) base[a.first] += a.second; }
  }
  c.saw("particles gone", gone); c.saw("injecting steps", beam); c.saw("gauss worlds"); c.state(fmt("g %dx%d beam%d loaded%d", w.rd, w.zd, beam > 0, loaded)); c.sample(fmt("%dx%d cells, %dx%d domains, %d steps", w.nr, w.nz, w.rd, w.zd, steps)); vw::drop(b);
}
static vw::World plasma(Case& c, double& wp, int lo = 12, int hi = 28, double from = .15, double to = .4)
{
  vw::World w; w.nr = c.r.range(lo, hi); w.nz = c.r.range(lo, hi); w.rd = c.r.pick({1, 1, 2}); w.zd = c.r.pick({1, 2, 2, 4}); while (w.nz / w.zd < 4) w.zd /= 2; while (w.nr / w.rd < 4) w.rd /= 2;
  double n = c.r.logu(1e13, 1e18); wp = sqrt(n * QE * QE / (EPS * ME)); double dr = 3e8 / wp * c.r.uni(from, to), dz = dr * c.r.uni(.6, 1.6); w.R = dr * w.nr; w.Z = dz * w.nz; w.dt = std::min(std::min(dr, dz) / 3e8 * c.r.uni(.2, .6), c.r.uni(.03, .1) / wp); w.end = 1;
  w.species = {{"electrons", -1, 1, n, 0}, {"ions", 1, 1836, n, 0}}; return w;
}
// electrons and ions at the same points, without temperature and beams
static void rest(Case& c)
{
  vw::quiet(); double wp; vw::World w = plasma(c, wp); Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); Net n(b, cf, w); double dr = n.dr, dz = n.dz; int N = c.r.range(20, 200);
  std::vector<vw::Seedling> ps; for (int j = 0; j < N; ++j) { vw::Seedling s; s.r = c.r.uni(.51, w.nr - .51) * dr; s.z = c.r.uni(.51, w.nz - .51) * dz; s.vr = s.vp = s.vz = 0; s.w = c.r.logu(1e3, 1e9); s.specie = "electrons"; ps.push_back(s); s.specie = "ions"; ps.push_back(s); }
  vw::plant(b, ps); std::map<Particle*, std::pair<double, double>> at; n.each([&](SpecieP*, Particle* p) { at[p] = {p->pos_r, p->pos_z}; }); int steps = c.r.range(20, 80);
  for (int t = 0; t < steps; ++t) n.step();
  n.each([&](SpecieP* x, Particle* p) { c.ok(fabs(p->pos_r - at[p].first) < 1e-9 * dr && fabs(p->pos_z - at[p].second) < 1e-9 * dz && fabs(p->vel_r) + fabs(p->vel_phi) + fabs(p->vel_z) < 1, "rest", fmt("cold neutral plasma at rest: particle of %s moved by %g,%g of a cell in %d steps", x->name.c_str(), (p->pos_r - at[p].first) / dr, (p->pos_z - at[p].second) / dz, steps)); c.saw("particles at rest"); });
  c.state(fmt("rest %dx%d", w.rd, w.zd)); vw::drop(b);
}
// regular lattice of cold plasma
static void lattice(SMB* b, const vw::World& w, Net& n, int per, double den, double v0, int mode, int dir)
{
  std::vector<vw::Seedling> ps; int nr = w.nr - 1, nz = w.nz - 1;
  for (int i = 0; i < nr * per; ++i) for (int k = 0; k < nz * per; ++k)
  {
    vw::Seedling s; s.r = n.dr * (.5 + (i + .5) / per); s.z = n.dz * (.5 + (k + .5) / per); s.w = den * 2 * PI_ * s.r * (n.dr / per) * (n.dz / per); s.vr = s.vp = s.vz = 0; s.specie = "ions"; ps.push_back(s); s.specie = "electrons";
double L = n.dz * nz, R = n.dr * nr; if (dir == 2) s.vz = v0 * sin(PI_ * mode * (s.z - n.dz * .5) / L); else s.vr = v0 * sin(PI_ * mode * (s.r - n.dr * .5) / R); ps.push_back(s);
  }
  vw::plant(b, ps);
}
static void oscillation(Case& c)
{
  vw::quiet(); double wp; vw::World w = plasma(c, wp, 18, 28, .5, 1.); int dir = c.r.pick({0, 2}); if (dir == 2) { w.Z = w.Z / w.nz * 14; w.nz = 14; w.zd = std::min(w.zd, 2); } else { w.R = w.R / w.nr * 16; w.nr = 16; } Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); Net n(b, cf, w); int mode = c.r.range(1, 3); double v0 = c.r.logu(1e-4, 3e-3) * 3e8; lattice(b, w, n, c.r.range(2, 3), w.species[0].density, v0, mode, dir);
  // mean velocity of electrons, weighted with the pattern they were pushed with
  double nrm = 0; std::map<Particle*, double> g; n.each([&](SpecieP* x, Particle* p) { if (x->name != "electrons") return; double a = (dir == 2 ? p->vel_z : p->vel_r) / v0; if (dir == 2 ? p->pos_r > w.R * .5 : p->pos_z < w.Z * .3 || p->pos_z > w.Z * .7) return; g[p] = a * p->weight; nrm += a * a * p->weight; });
  auto proj = [&] { double s = 0; for (auto& x : g) s += x.second * (dir == 2 ? x.first->vel_z : x.first->vel_r); return s / nrm / v0; };
  double e0 = n.kinetic() + n.field(), worst = 0; std::vector<double> zero; double last = 1; int steps = (int)(2.2 * 2 * PI_ / wp / w.dt), t; double lo = 1, hi = -1;
  for (t = 1; t <= steps; ++t) { if (getenv("VH_T")) { double vm = 0; Particle* q = 0; n.each([&](SpecieP*, Particle* p) { double v = fabs(p->vel_r) + fabs(p->vel_z) + fabs(p->vel_phi); if (v > vm) vm = v, q = p; }); fprintf(stderr, "T%d/%d kin %g field %g e0 %g vmax %g at %.3f %.3f (%g %g %g) dr %g dz %g cdt/dr %g wpdt %g nr %d nz %d dir%d mode%d\n", t, steps, n.kinetic(), n.field(), e0, vm, q->pos_r / n.dr, q->pos_z / n.dz, q->vel_r, q->vel_phi, q->vel_z, n.dr, n.dz, 3e8 * n.dt / n.dr, wp * n.dt, w.nr, w.nz, dir, mode); } n.step(); double v = proj(); lo = std::min(lo, v); hi = std::max(hi, v); if ((v < 0) != (last < 0)) zero.push_back((t - 1 + last / (last - v)) * w.dt); last = v; double e = n.kinetic() + n.field(); worst = std::max(worst, fabs(e / e0 - 1)); }
  // every half of the period the velocity changes its sign
  double per = zero.size() >= 3 ? (zero[2] - zero[0]) : 0;
  if (FILE* df = getenv("VH_DBG") ? fopen("/tmp/p27.dbg", "a") : nullptr) { fprintf(df, "osc dir%d mode%d wpdt %.3f v0 %.2g: period ratio %.4f (%zu) lo %.3f energy %.4f  %dx%d\n", dir, mode, wp * w.dt, v0 / 3e8, per * wp / 2 / PI_, zero.size(), lo, worst, w.nr, w.nz); fclose(df); }
  c.ok(zero.size() >= 3 && fabs(per * wp / (2 * PI_) - (dir == 2 ? 1.04 : 1)) < .1, "oscillation:period", fmt("electrons pushed %s oscillate with the period of %g plasma periods (%zu turns)", dir == 2 ? "along" : "outwards", per * wp / 2 / PI_, zero.size()));
  c.ok(lo < -.8 && lo > -1.35, "oscillation:amplitude", fmt("velocity of oscillating electrons goes from 1 only to %g", lo));
  c.ok(worst < .35, "oscillation:energy", fmt("energy of the oscillation changes by %g of it", worst));
  c.saw("oscillations"); c.saw("oscillation steps", steps); c.state(fmt("osc %d mode%d %dx%d", dir, mode, w.rd, w.zd)); c.sample(fmt("period %.4f of the plasma one, energy within %.3g", per * wp / 2 / PI_, worst)); vw::drop(b);
}
// warm plasma in the closed box
static void energy(Case& c)
{
  vw::quiet(); double wp; vw::World w = plasma(c, wp, 8, 16); w.macro = w.nr * w.nz * 2 * c.r.range(10, 20); double cell = std::min(w.R / w.nr, w.Z / w.nz), T = pow(cell * wp * c.r.uni(.3, .6), 2) * ME / QE; w.species[0].temperature = T; w.species[1].temperature = T;
  Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); Net n(b, cf, w); b->distribute(); double k0 = n.kinetic(), worst = 0, f = 0; int steps = (int)(2 * 2 * PI_ / wp / w.dt);
  for (int t = 0; t < steps; ++t) { n.step(); f = n.field(); worst = std::max(worst, fabs((n.kinetic() + f) / k0 - 1)); }
  if (FILE* df = getenv("VH_DBG") ? fopen("/tmp/p27.dbg", "a") : nullptr) { fprintf(df, "warm wpdt %.3f T %.3g eV: energy %.4f field part %.3g  %dx%d steps %d\n", wp * w.dt, T, worst, f / k0, w.nr, w.nz, steps); fclose(df); }
  c.ok(worst < .03, "energy", fmt("energy of a warm plasma in a closed box changes by %g of it in %d steps", worst, steps));
  c.saw("warm plasmas"); c.saw("energy steps", steps); c.state(fmt("warm %dx%d", w.rd, w.zd)); vw::drop(b);
}
int main(int argc, char** argv)
{
  return run(argc, argv, "loop", {
#ifdef SWITCH_CCS_VB
    {"gauss", 4, gauss, true},
#endif
    {"rest", 1, rest, true}, {"oscillation", 1, oscillation, true}, {"energy", 1, energy, true}});
}
