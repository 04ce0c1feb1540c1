// P17: conservation per cell of Coulomb collisions
#include "vworld.hpp"
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
#include "collisions/collisionsTA77S.hpp"
typedef CollisionsTA77S Op; static const bool rel = false, reject = false;
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
#include "collisions/collisionsSK98.hpp"
typedef CollisionsSK98 Op; static const bool rel = true, reject = false;
#else
#include "collisions/collisionsP12.hpp"
typedef CollisionsP12 Op; static const bool rel = true, reject = true;
#endif
using namespace vh; typedef long double L;
static time_t fake_now = 1; // the code seeds its shuffling from the clock
extern "C" time_t time(time_t* t) noexcept { if (t) *t = fake_now; return fake_now; }
static const double C = 3e8;
struct Sum { L p[3] = {0, 0, 0}, e = 0, pa = 0, mc = 0, w = 0; int n = 0; };
static void add(Sum& s, Particle* p, double m)
{
  L v2 = (L)p->vel_r * p->vel_r + (L)p->vel_phi * p->vel_phi + (L)p->vel_z * p->vel_z, g = 1, k = v2 / 2;
  if (rel) { L b2 = v2 / ((L)C * C); g = 1 / sqrtl(1 - b2); k = g * g / (g + 1) * v2; }
  L q = (L)m * p->weight; s.p[0] += q * g * p->vel_r; s.p[1] += q * g * p->vel_phi; s.p[2] += q * g * p->vel_z; s.e += q * k; s.pa += q * g * sqrtl(v2); s.mc += q * C; s.w += p->weight; ++s.n;
}
static void plasma(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000);
  int nr = c.r.range(4, 9), nz = c.r.range(4, 9), r0 = c.r.chance(.5) ? 0 : c.r.range(4, 40), z0 = c.r.chance(.5) ? 0 : c.r.range(4, 40); double dr = c.r.logu(1e-4, 1e-2), dz = dr * c.r.uni(.5, 2);
  Geometry* g = vw::geom(r0, z0, nr, nz, r0 + nr + 4, z0 + nz + 4, dr, dz); TimeSim* t = vw::tsim(c.r.logu(1e-14, 1e-11));
  double mi = c.r.pick({1., 2., 1836., 7344.}), qi = c.r.pick({1., 1., 2.}); SpecieP* el = vw::specie(g, t, "electrons", -1, 1, 0, 1e15, 1e15, 1, 1); SpecieP* io = vw::specie(g, t, "ions", qi, mi, 0, 1e15, 1e15, 1, 2);
  std::vector<SpecieP*> sps = {el, io}; if (c.r.chance(.5)) std::swap(sps[0], sps[1]);
  // beams and other species are in the same cells
  double mx = 0; SpecieP* xs = nullptr; if (c.r.chance(.5)) { mx = c.r.pick({1., 1., mi, 50., 1836.}); xs = vw::specie(g, t, c.r.chance(.5) ? "beam_b" : "others", c.r.pick({-1., 1.}), mx, 0, 1e15, 1e15, 1, 40000); sps.insert(sps.begin() + c.r.range(0, 2), xs); c.saw("cases with other species"); } Op op(g, t, sps);
  double vth = rel ? C * c.r.logu(1e-3, .3) : C * c.r.logu(1e-4, .03); bool equal = (rel && !reject) || c.r.chance(reject ? .7 : .5); double dens = c.r.chance(.2) ? c.r.logu(1e6, 1e12) : c.r.logu(1e14, 1e20); int kind = c.r.range(0, 5); double fill = c.r.pick({.3, .7, 1.}); int most = c.r.pick({2, 5, 12, 30});
  struct Cell { Sum el, io; std::vector<Particle*> pe, pi, px; std::vector<Particle> old; bool regular; }; std::vector<Cell> cells(nr * nz);
  auto vel = [&](double m, double& a, double& b, double& z) {
    double s = vth / sqrt(m == 1 ? 1 : c.r.uni(1, m)); auto n = [&] { return s * sqrt(-2 * log(1 - c.r.u())) * cos(2 * M_PI * c.r.u()); }; a = n(); b = n(); z = n();
    if (kind == 4 && c.r.chance(.6)) { int h = c.r.range(0, 3); if (h == 0) a = b = z = 0; if (h == 1) a = b = 0; if (h == 2) { a = b = 0; z = s; } if (h == 3) { a = b = 0; z = -s; } }
    double v = sqrt(a * a + b * b + z * z), top = rel ? .95 * C : .1 * C; if (v > top) { a *= top / v; b *= top / v; z *= top / v; } };
  for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k)
  {
    Cell& q = cells[i * nz + k]; if (!c.r.chance(fill)) continue; int ne = c.r.range(0, most), ni = c.r.range(0, most); if (kind == 0) ni = ne; if (kind == 1) { ne = c.r.range(0, 1); ni = c.r.range(0, 1); } if (c.r.chance(.1)) ni = 0;
    double vol = 2 * M_PI * (i + r0 + .5) * dr * dr * dz, w0 = dens * vol / std::max(1, ne);
    for (int s = 0; s < 2; ++s) for (int n = 0; n < (s ? ni : ne); ++n)
    {
      double a, b, z; vel(s ? mi : 1, a, b, z); double w = w0 * (equal ? 1 : c.r.uni(.2, 1.8));
      Particle* p = vw::particle(s ? io : el, (i + r0 + c.r.uni(.05, .95)) * dr, (k + z0 + c.r.uni(.05, .95)) * dz, w, a, b, z); (s ? q.pi : q.pe).push_back(p);
    }
    if (xs) for (int n = c.r.range(0, std::min(most, 6)); n > 0; --n) { double a, b, z; vel(mx, a, b, z); double w = w0 * (equal ? 1 : c.r.uni(.2, 1.8)); q.px.push_back(vw::particle(xs, (i + r0 + c.r.uni(.05, .95)) * dr, (k + z0 + c.r.uni(.05, .95)) * dz, w, a, b, z)); }
    for (auto p : q.pe) { add(q.el, p, el->mass); q.old.push_back(*p); } for (auto p : q.pi) { add(q.io, p, io->mass); q.old.push_back(*p); } for (auto p : q.px) { add(q.io, p, xs->mass); q.old.push_back(*p); }
    q.regular = kind != 4 && ne >= 2 && ni >= 2 && vth > 3e5 && vth < 3e7 && dens > 1e17 && t->step > 1e-13;
  }
  size_t ae = el->particles.size(), ai = io->particles.size(), ax = xs ? xs->particles.size() : 0; int rounds = c.r.range(1, 3);
  for (int n = 0; n < rounds; ++n) op();
  c.ok(el->particles.size() == ae && io->particles.size() == ai && (!xs || xs->particles.size() == ax), "amount", "collisions changed the amount of particles");
  int changed = 0, alone = 0, both = 0;
  for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k)
  {
    Cell& q = cells[i * nz + k]; Sum e, o; size_t m = 0; bool moved = false; double top = 0; bool fin = true;
    for (auto* v : {&q.pe, &q.pi, &q.px}) for (auto p : *v)
    {
      Particle& w = q.old[m++]; add(v == &q.pe ? e : o, p, v == &q.pe ? el->mass : v == &q.pi ? io->mass : xs->mass);
      c.ok(p->pos_r == w.pos_r && p->pos_z == w.pos_z && p->weight == w.weight && p->specie_id == w.specie_id && p->cell_r == w.cell_r && p->cell_z == w.cell_z, "state", fmt("position, weight or specie changed by collision: %.17g,%.17g weight %.17g", p->pos_r, p->pos_z, p->weight));
      double v2 = p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z; if (!(v2 < C * C)) fin = false; top = std::max(top, v2);
      if (fabs(p->vel_r - w.vel_r) + fabs(p->vel_phi - w.vel_phi) + fabs(p->vel_z - w.vel_z) > 1e-12 * vth) moved = true;
    }
    std::string where = fmt("cell %d,%d with %zu electrons, %zu ions (mass %g), %zu others (mass %g), kind %d, equal weights %d, thermal velocity %g, density %g, step %g", i, k, q.pe.size(), q.pi.size(), mi, q.px.size(), mx, kind, equal, vth, dens, t->step);
    if (!c.ok(fin, "finite", "velocity is not below the light velocity in " + where)) continue;
    L pa = q.el.pa + q.io.pa, en = q.el.e + q.io.e, mc = q.el.mc + q.io.mc; int n = q.el.n + q.io.n; if (!n) continue;
    if (reject && !equal) { c.saw("cells of unequal weights"); continue; } // it keeps them on average: see below
    for (int x = 0; x < 3; ++x) { L d = e.p[x] + o.p[x] - q.el.p[x] - q.io.p[x]; c.ok(fabsl(d) <= 1e-9 * pa + 1e-15 * mc, "momentum", fmt("momentum component %d changed by %Lg of %Lg in ", x, d, pa) + where); }
    L d = e.e + o.e - q.el.e - q.io.e; c.ok(fabsl(d) <= 1e-8 * en + (rel ? 1e-14 * mc * C : 0), "energy", fmt("kinetic energy changed by %Lg of %Lg in ", d, en) + where); c.saw("cells weighed");
    if (q.pe.empty() || q.pi.empty()) { if (n == 1) { ++alone; c.ok(!moved, "alone", "velocity of the only particle of the cell changed in " + where); } }
    else { ++both; if (moved) ++changed; if (q.regular) { c.ok(moved, "scatter", "particles did not scatter in " + where); c.saw("regular cells"); } }
  }
  c.saw("collided cells", changed); c.saw("cells with the only particle", alone); c.state(fmt("k%d m%g q%g eq%d most%d off%d fill%g other%g", kind, mi, qi, equal, most, r0 > 0, fill, mx));
  c.sample(fmt("%dx%d cells, %zu electrons, %zu ions of mass %g: %d cells of %d scattered", nr, nz, ae, ai, mi, changed, both)); vw::drop(el); vw::drop(io); if (xs) vw::drop(xs);
}
// particles of unequal weights: what one loses is gained by others on average, if the scheme says so
static void unequal(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000); double mi = c.r.pick({1., 2., 1836.}), dr = c.r.logu(1e-4, 1e-2), dz = dr, step = c.r.logu(1e-14, 1e-11); Geometry* g = vw::geom(4, 0, 2, 2, 8, 6, dr, dz); TimeSim* t = vw::tsim(step);
  SpecieP* el = vw::specie(g, t, "electrons", -1, 1, 0, 1e15, 1e15, 1, 1); SpecieP* io = vw::specie(g, t, "ions", 1, mi, 0, 1e15, 1e15, 1, 2); std::vector<SpecieP*> sps = {el, io}; if (c.r.chance(.5)) std::swap(sps[0], sps[1]); Op op(g, t, sps);
  double vol = 2 * M_PI * 4.5 * dr * dr * dz, dens = c.r.chance(.3) ? c.r.logu(1e6, 1e12) : c.r.logu(1e14, 1e20), u = c.r.logu(3e6, 2e7), wr = c.r.logu(.02, 50), f = c.r.pick({0., 1., .5}); if (c.r.chance(.2)) wr = 1; int ne = c.r.range(1, 4), ni = c.r.range(1, 4);
  std::vector<Particle*> p; std::vector<Particle> old; double ud[3]; { double z = c.r.uni(-1, 1), a = c.r.uni(0, 6.283), q = sqrt(1 - z * z); ud[0] = q * cos(a); ud[1] = q * sin(a); ud[2] = z; }
  for (int n = 0; n < ne + ni; ++n)
  {
    bool ion = n >= ne; double q = u * (ion ? -f : 1 - f), e = u * (ion ? .01 : .001), w = dens * vol / ne * (ion ? wr : 1);
    p.push_back(vw::particle(ion ? io : el, (4 + c.r.uni(.05, .95)) * dr, c.r.uni(.05, .95) * dz, w, q * ud[0] + e * c.r.uni(.5, 1), q * ud[1] + e * c.r.uni(.5, 1), q * ud[2] + e * c.r.uni(.5, 1))); old.push_back(*p.back());
  }
  // mean scattering of a step is about .001
  double m = mi / (1 + mi) * 9.1e-31, s1 = dens * std::min(1., wr * ni / ne) * 15 * pow(1.6e-19, 4) / (4 * M_PI * pow(8.85e-12 * m, 2) * u * u * u); t->step = 1e-3 / s1;
  const int K = 3000; double sum[3] = {}, sq[3] = {}, part[2] = {}, leap = 0;
  for (int k = 0; k < K; ++k)
  {
    for (size_t n = 0; n < p.size(); ++n) { p[n]->vel_r = old[n].vel_r; p[n]->vel_phi = old[n].vel_phi; p[n]->vel_z = old[n].vel_z; }
    ++fake_now; op(); double d[3] = {};
    for (size_t n = 0; n < p.size(); ++n) { bool ion = (int)n >= ne; double x[3] = {p[n]->vel_r - old[n].vel_r, p[n]->vel_phi - old[n].vel_phi, p[n]->vel_z - old[n].vel_z}, mw = p[n]->weight * (ion ? mi : 1), a = 0; for (int i = 0; i < 3; ++i) { d[i] += mw * x[i]; part[ion] += mw * x[i] * ud[i]; a += x[i] * x[i]; } leap = std::max(leap, sqrt(a) / u); }
    for (int i = 0; i < 3; ++i) { sum[i] += d[i]; sq[i] += d[i] * d[i]; }
  }
  std::string where = fmt("%d electrons, %d ions of mass %g, %.3g times heavier macroparticles, weight of electrons %.3g, relative velocity %.3g", ne, ni, mi, wr, dens * vol / ne, u);
  c.ok(leap < .9, "unequal:leap", fmt("velocity changed by %.3g of the relative one at once: ", leap) + where);
  double lost = 0, sg = 0; for (int i = 0; i < 3; ++i) { lost += sum[i] * ud[i]; sg += sqrt(sq[i]) * fabs(ud[i]); }
  c.ok(fabs(lost) < 8 * sg + 1e-9 * (fabs(part[0]) + fabs(part[1])) + .02 * fabs(part[0]), "unequal:momentum", fmt("electrons got %.4g of momentum, ions %.4g (spread %.2g): ", part[0], part[1], sg) + where);
  c.saw("unequal pairs balanced"); if (8 * sg < .5 * fabs(part[0])) c.saw("unequal pairs balanced well"); c.state(fmt("u%d/%d m%g w%d", ne, ni, mi, (int)(3 * log10(wr)))); vw::drop(el); vw::drop(io);
}
int main(int argc, char** argv) { return run(argc, argv, "collide", {{"plasma", 4, plasma, true},
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
    {"unequal", 1, unequal, true},
#endif
  }); }
