// P03: initial plasma load of one domain
#include "vworld.hpp"
#include <algorithm>
using namespace vh;
using constant::PI; using constant::EL_CHARGE; using constant::EL_MASS;

static void ks(Case& c, std::vector<double> v, std::function<double(double)> F, const std::string& key, double lim)
{
  std::sort(v.begin(), v.end()); double n = v.size(), d = 0;
  for (size_t i = 0; i < v.size(); ++i) { double f = F(v[i]); d = std::max({d, fabs(f - i / n), fabs((i + 1) / n - f)}); }
  c.ok(d < lim, key, fmt("distance to the configured distribution %.4g of %zu particles (limit %.4g)", d, v.size(), lim));
}

static void load(Case& c)
{
  int nr = c.r.range(4, 24), nz = c.r.range(4, 24), r0 = c.r.chance(.4) ? 0 : c.r.range(1, 100), z0 = c.r.chance(.4) ? 0 : c.r.range(1, 200);
  double dr = c.r.logu(1e-6, 1e-1), dz = dr * c.r.logu(.3, 3);
  std::vector<bool> w = {r0 == 0, z0 == 0, c.r.chance(.5), c.r.chance(.5)};
  Geometry* g = vw::geom(r0, z0, nr, nz, r0 + nr + (w[2] ? 0 : 5), z0 + nz + (w[3] ? 0 : 5), dr, dz, w);
  dr = g->cell_size[0]; dz = g->cell_size[1];
  TimeSim* t = vw::tsim(1e-12);
  double dl = c.r.logu(1e10, 1e22), dn = c.r.chance(.4) ? dl : dl * c.r.logu(.1, 10);
  double T = c.r.logu(1e-3, 3e3), mass = c.r.pick({1., 1., 100., 1836., 7344.});
  unsigned amount = c.r.chance(.3) ? c.r.range(200, 800) : c.r.range(800, 6000);
#if defined(SWITCH_PLASMA_SPATIAL_REGULAR) || defined(SWITCH_PLASMA_SPATIAL_CENTERED)
  amount = nr * nz * c.r.range(1, 5) - c.r.range(0, nr * nz / 2);
  if (amount < 120) amount = 120;
#endif
  unsigned id = c.r.range(1, 900);
  SpecieP* s = vw::specie(g, t, "electrons", -1, mass, amount, dl, dn, T, id);
  s->fullyfill_spatial_distribution(); s->bind_cell_numbers(); s->velocity_distribution();
  auto& P = s->particles;
  c.sample(fmt("%dx%d cells from %d,%d, walls %d%d, density %g..%g, T=%g eV, %zu macroparticles", nr, nz, r0, z0, (int)w[2], (int)w[3], dl, dn, T, P.size()));
  c.state(fmt("%d%d%d%d g%d T%d m%g", (int)w[0], (int)w[1], (int)w[2], (int)w[3], dl == dn ? 0 : dl < dn ? 1 : -1, (int)floor(log10(T)), mass));
  c.saw("particles", P.size());
  if (!c.ok(!P.empty(), "empty", "no particle was created")) { delete s; return; }
#if defined(SWITCH_PLASMA_SPATIAL_FLAT) || defined(SWITCH_PLASMA_SPATIAL_RANDOM)
  c.ok(P.size() == amount, "count", fmt("%zu macroparticles instead of %u", P.size(), amount));
#else
  c.ok(P.size() <= s->macro_amount, "count", fmt("%zu macroparticles, more than %u", P.size(), s->macro_amount));
  c.ok(s->macro_amount >= amount && s->macro_amount < amount + nr * nz, "count:rounding", fmt("amount %u rounded to %u on %d cells", amount, s->macro_amount, nr * nz));
#endif
  double rs = (nr - w[2]) * dr, zs = (nz - w[3]) * dz;
  double rlo = r0 * dr + dr / 2, rhi = rlo + rs, zlo = z0 * dz + dz / 2, zhi = zlo + zs, er = 1e-9 * rhi, ez = 1e-9 * zhi;
  double sum = 0, ratio = 0;
  bool ok = true;
  std::set<std::pair<double,double>> places;
  for (auto p : P)
  {
    if (!(p->pos_r >= rlo - er && p->pos_r <= rhi + er && p->pos_z >= zlo - ez && p->pos_z <= zhi + ez) && ok)
      ok = c.ok(false, "position", fmt("r=%g z=%g outside [%g,%g)x[%g,%g)", p->pos_r, p->pos_z, rlo, rhi, zlo, zhi));
    if (!(p->weight > 0 && std::isfinite(p->weight)) && ok) ok = c.ok(false, "weight", fmt("weight %g", p->weight));
    if (p->specie_id != id && ok) ok = c.ok(false, "specie", "species tag of the particle");
    if (p->pos_phi != 0 && ok) ok = c.ok(false, "pos_phi", "particle off the r-z plane");
    if ((p->cell_r != (size_t)floor(p->pos_r / dr) || p->cell_z != (size_t)floor(p->pos_z / dz)) && ok) ok = c.ok(false, "cell", "cell number does not match the position");
    sum += p->weight; places.insert({p->pos_r, p->pos_z});
    double q = p->weight / p->pos_r; if (!ratio) ratio = q;
    if (fabs(q / ratio - 1) > 1e-6 && p->pos_r > dr / 2 * (1 + 1e-6) && P[0]->pos_r > dr / 2 * (1 + 1e-6) && ok) ok = c.ok(false, "weight:radius", fmt("weight %g at r=%g, %g at r=%g: not proportional to the ring volume", p->weight, p->pos_r, P[0]->weight, P[0]->pos_r));
    double v2 = p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z;
    if (!(v2 < 9e16) && ok) ok = c.ok(false, "speed", fmt("speed %g at T=%g eV", sqrt(v2), T));
  }
  c.ok(ok, "particles", "see above");
  double top = r0 + nr - w[2];
  double N = (dl + dn) / 2 * PI * dr * dr * (top * top - (double)r0 * r0) * zs;
  c.near(sum, N, 1e-8 * N, "total", "total number of real particles");
  // spatial distribution
#if defined(SWITCH_PLASMA_SPATIAL_FLAT) || defined(SWITCH_PLASMA_SPATIAL_RANDOM)
  std::vector<double> fr, fz; for (auto p : P) { fr.push_back((p->pos_r - rlo) / rs); fz.push_back((p->pos_z - zlo) / zs); }
  double lim = 4 / sqrt((double)P.size());
  ks(c, fr, [](double x) { return x; }, "radial distribution", lim);
  ks(c, fz, [=](double x) { return (dl * x + (dn - dl) * x * x / 2) / ((dl + dn) / 2); }, dl == dn ? "axial distribution" : "density gradient", lim);
  { double m = 0, k = 0; for (size_t i = 0; i < fr.size(); ++i) { k += (fr[i] - .5) * (fz[i] - .5) * 12; }
    if (dl == dn) c.ok(fabs(k / fr.size()) < 7 / sqrt((double)fr.size()), "r-z correlation", fmt("radial and axial places correlate: %g", k / fr.size())); }
  c.ok(places.size() > P.size() * .98, "places", "macroparticles share places");
#elif defined(SWITCH_PLASMA_SPATIAL_CENTERED)
  std::map<std::pair<size_t,size_t>, int> per; for (auto p : P) per[{p->cell_r, p->cell_z}]++;
  c.ok((int)per.size() == (nr - w[2]) * (nz - w[3]), "centered:cells", fmt("%zu cells are filled", per.size()));
  for (auto& e : per) if (!c.ok(e.second == (int)(P.size() / per.size()), "centered:even", fmt("%d particles in a cell", e.second))) break;
  for (auto p : P) if (!c.ok(fabs(p->pos_r / dr - p->cell_r - .5) < 1e-6 && fabs(p->pos_z / dz - p->cell_z - .5) < 1e-6, "centered:place", "not in the centre of the cell")) break;
#else
  // regular: a rectangular lattice
  std::vector<double> rr, zz; for (auto& q : places) { rr.push_back(q.first); zz.push_back(q.second); }
  auto uniq = [](std::vector<double>& v, double e) { std::sort(v.begin(), v.end()); std::vector<double> o; for (double x : v) if (o.empty() || x - o.back() > e) o.push_back(x); v = o; };
  uniq(rr, dr * 1e-6); uniq(zz, dz * 1e-6);
  c.ok(rr.size() * zz.size() == P.size(), "regular:lattice", fmt("%zu x %zu places for %zu particles", rr.size(), zz.size(), P.size()));
  for (size_t i = 2; i < rr.size(); ++i) if (!c.ok(fabs((rr[i] - rr[i-1]) - (rr[1] - rr[0])) < 1e-6 * dr, "regular:r", "uneven radial spacing")) break;
  for (size_t i = 2; i < zz.size(); ++i) if (!c.ok(fabs((zz[i] - zz[i-1]) - (zz[1] - zz[0])) < 1e-6 * dz, "regular:z", "uneven axial spacing")) break;
  double full = s->macro_amount * (rs / (nr * dr)) * (zs / (nz * dz));
  double rm = sqrt(s->macro_amount * (nr * dr) / (nz * dz)), zm = sqrt(s->macro_amount * (nz * dz) / (nr * dr));
  double lo = std::max(0., rm * rs / (nr * dr) - 1.001) * std::max(0., zm * zs / (nz * dz) - 1.001);
  c.ok(P.size() >= lo - 1 && P.size() <= full + 1, "regular:count", fmt("%zu particles, lattice expects between %.1f and %.1f", P.size(), lo, full));
#endif
  // velocities
  double vt = sqrt(2 * T * EL_CHARGE / (mass * EL_MASS)), n = P.size();
  double m[3] = {0, 0, 0}, m2[3] = {0, 0, 0}, k01 = 0, k02 = 0, k12 = 0, m4 = 0;
  for (auto p : P)
  {
    double v[3] = {p->vel_r, p->vel_phi, p->vel_z};
    for (int i = 0; i < 3; ++i) { m[i] += v[i]; m2[i] += v[i] * v[i]; m4 += v[i] * v[i] * v[i] * v[i]; }
    k01 += v[0] * v[1]; k02 += v[0] * v[2]; k12 += v[1] * v[2];
  }
  double tot = m2[0] + m2[1] + m2[2]; m4 /= 3 * n;
#if defined(SWITCH_PLASMA_VELOCITY_EIGEN)
  for (auto p : P) if (!c.ok(fabs(p->vel_r / vt - 1) < 1e-6 && fabs(p->vel_phi / vt - 1) < 1e-6 && fabs(p->vel_z / vt - 1) < 1e-6, "eigen", fmt("velocity (%g,%g,%g), expected %g", p->vel_r, p->vel_phi, p->vel_z, vt))) break;
#else
  double v2 = tot / (3 * n), sd = sqrt(v2 / n), sd2 = sqrt(std::max(m4 - v2 * v2, 0.) / n);
  for (int i = 0; i < 3; ++i)
  {
    c.ok(fabs(m[i] / n) < 7 * sd, "drift", fmt("mean velocity component %d is %g at thermal %g", i, m[i] / n, sqrt(v2)));
    c.ok(fabs(m2[i] / n - v2) < 8 * sd2, "isotropy", fmt("component %d carries %g of the energy", i, m2[i] / tot));
  }
  double mm = sqrt(m4 / n) ;
  c.ok(fabs(k01 / n) < 8 * mm && fabs(k02 / n) < 8 * mm && fabs(k12 / n) < 8 * mm, "correlation", "velocity components correlate");
#if defined(SWITCH_PLASMA_VELOCITY_RECTANGULAR)
  std::vector<double> all; for (auto p : P) { all.push_back(p->vel_r / vt); all.push_back(p->vel_phi / vt); all.push_back(p->vel_z / vt); }
  for (double x : all) if (!(fabs(x) <= 1 + 1e-9)) { c.fail("rectangular:range", fmt("component %g of the thermal velocity", x)); break; }
  ks(c, all, [](double x) { return (x + 1) / 2; }, "rectangular", 4 / sqrt((double)all.size()));
#else
  double ke = .5 * mass * EL_MASS * tot / n / EL_CHARGE / T;
  // Maxwell-Juettner energies: 0.75 T below 0.1 eV, up to 1.5 T far above
  double lo = .75, hi = 1.5; if (T < .0999) hi = .75; if (T > 20) lo = 1.4;
  double e = 6 * 1.3 / sqrt(n);
  c.ok(ke > lo * (1 - e) - .02 && ke < hi * (1 + e) + .02, "temperature", fmt("mean kinetic energy is %g T at T=%g eV", ke, T));
#endif
#endif
  delete s;
}
int main(int argc, char** argv) { return run(argc, argv, "loading", {{"load", 1, load, true}}); }
