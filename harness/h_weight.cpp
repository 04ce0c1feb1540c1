// P04: density and moment maps against an independent per-node reference
#include "vworld.hpp"
using namespace vh;
using constant::PI; using constant::EL_CHARGE; using constant::EL_MASS;
typedef std::map<std::pair<int,int>, long double> M;
struct Frac { int i, k; double f[2][2]; };
static Frac frac(double r, double z, double dr, double dz)
{
  Frac q; q.i = (int)floor(r / dr); q.k = (int)floor(z / dz);
  long double lo, R = r, D = dr;
  if (r <= dr / 2) lo = (D * D / 2 - R * D + R * R) / (2 * R * R + D * D / 2);
  else { long double b = (q.i + .5L) * D, a = R - D / 2; lo = (b * b - a * a) / (2 * R * D); }
  long double fz = (long double)z / dz - q.k;
  q.f[0][0] = lo * (1 - fz); q.f[0][1] = lo * fz; q.f[1][0] = (1 - lo) * (1 - fz); q.f[1][1] = (1 - lo) * fz;
  return q;
}
static void put(M& m, const Frac& q, long double w, double dr, double dz)
{
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b)
    m[{q.i + a, q.k + b}] += w * q.f[a][b] / (acosl(-1) * dz * dr * dr * (2.0L * (q.i + a) + 1));
}
static void maps(Case& c)
{
  int nr = c.r.range(4, 10), nz = c.r.range(4, 10), r0 = c.r.chance(.5) ? 0 : c.r.range(1, 200), z0 = c.r.chance(.5) ? 0 : c.r.range(1, 500);
  double dr = c.r.logu(1e-6, 1e-1), dz = dr * c.r.logu(.2, 5);
  Geometry* g = vw::geom(r0, z0, nr, nz, r0 + nr, z0 + nz, dr, dz); dr = g->cell_size[0]; dz = g->cell_size[1];
  TimeSim* t = vw::tsim(1e-12);
  double mass = c.r.pick({1., 1., 1836.});
  SpecieP* s = vw::specie(g, t, "ions", 1, mass); mass *= EL_MASS;
  int n = c.r.chance(.3) ? 1 : c.r.range(0, 60); bool fast = c.r.chance(.3);
  for (int j = 0; j < n; ++j)
  {
    double r = r0 * dr + nr * dr * c.r.u(), z = (z0 + nz * c.r.u()) * dz; std::string kind = "generic";
    switch (c.r.range(0, 7))
    {
    case 0: if (r0 == 0) { r = dr * c.r.u(); kind = "first cell"; } break;
    case 1: if (r0 == 0) { r = dr / 2 * c.r.u(); kind = "axis"; } break;
    case 2: { int i = r0 + c.r.range(r0 ? 0 : 1, nr - 1); r = i * dr; kind = i == 1 ? "edge of the first cell" : "radial face"; if ((int)floor(r / dr) != i) r = nextafter(r, 1e9); break; }
    case 3: { int k = z0 + c.r.range(0, nz - 1); z = k * dz; kind = "axial face"; if ((int)floor(z / dz) != k) z = nextafter(z, 1e9); break; }
    case 4: r = (r0 + nr) * dr * (1 - 1e-12); kind = "outer edge"; break;
    case 5: z = (z0 + nz) * dz * (1 - 1e-12); kind = "right edge"; break;
    }
    double v = fast ? c.r.logu(1e5, 2.9e8) : c.r.logu(1e2, 4e7), th = acos(c.r.uni(-1, 1)), ph = c.r.uni(0, 6.283);
    if (c.r.chance(.1)) v = 0;
    vw::particle(s, r, z, c.r.logu(1, 1e9), v * sin(th) * cos(ph), v * sin(th) * sin(ph), v * cos(th));
    c.saw(kind); c.state(kind + (n == 1 ? "1" : n < 10 ? "few" : "many") + (fast ? "fast" : ""));
  }
  c.sample(fmt("%d particles on %dx%d cells from %d,%d", n, nr, nz, r0, z0));
  // the order of the calls must not matter
  int order[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(order[i], order[c.r.range(0, i)]);
  bool dens_first = false, dens_done = false;
  auto call = [&](int w) { if (w == 0) { s->calc_density(); dens_done = true; } if (w == 1) s->calc_temperature(); if (w == 2) s->calc_energy(); if (w == 3) s->calc_momentum(); };
  for (int w : order) call(w);
  // reference
  M D, A, V[3], U, UA; long double W = 0; // U, UA: what a node would get with unit fractions (bounds the rounding of the fractions)
  for (auto p : s->particles)
  {
    Frac q = frac(p->pos_r, p->pos_z, dr, dz);
    long double v2 = (long double)p->vel_r * p->vel_r + (long double)p->vel_phi * p->vel_phi + (long double)p->vel_z * p->vel_z;
    long double gm = v2 > 25e14L ? 1 / sqrtl(1 - v2 / 9e16L) : 1;
    put(D, q, p->weight, dr, dz); put(A, q, p->weight * mass * sqrtl(v2) * gm, dr, dz);
    put(V[0], q, p->weight * mass * p->vel_r * gm, dr, dz); put(V[1], q, p->weight * mass * p->vel_phi * gm, dr, dz); put(V[2], q, p->weight * mass * p->vel_z * gm, dr, dz);
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { long double vol = acosl(-1) * dz * dr * dr * (2.0L * (q.i + a) + 1); U[{q.i + a, q.k + b}] += p->weight / vol; UA[{q.i + a, q.k + b}] += p->weight * mass * sqrtl(v2) * gm / vol; }
    W += p->weight;
  }
  auto check = [&](const char* tag)
  {
    long double total = 0; double peak = 0; for (auto& e : D) peak = std::max(peak, (double)e.second);
    for (int i = -2; i < nr + 2; ++i) for (int k = -2; k < nz + 2; ++k)
    {
      double d = s->density_map((unsigned)i, (unsigned)k); auto it = D.find({i + r0, k + z0});
      long double want = it == D.end() ? 0 : it->second;
      total += (long double)d * acosl(-1) * dz * dr * dr * (2.0L * (i + r0) + 1) * (i + r0 >= 0);
      if (!c.near(d, (double)want, 1e-9 * peak, std::string("density") + tag, fmt("density at node %d,%d (local)", i, k))) return;
      bool lonely = true; for (int a = -1; a < 2; ++a) for (int b = -1; b < 2; ++b) if (D.count({i + r0 + a, k + z0 + b})) lonely = false;
      if (lonely) { if (!c.ok(d == 0, std::string("density:locality") + tag, fmt("node %d,%d away from particles has density %g", i, k, d))) return; }
      if (i < 0 || k < 0 || i >= nr || k >= nz) continue;
      // means: only where the density is well above rounding of the cancelling terms
      double kt = s->temperature_map(i, k), en = s->energy_map(i, k);
      if (lonely) { c.ok(kt == 0 && en == 0 && s->momentum_map(0, i, k) == 0 && s->momentum_map(1, i, k) == 0 && s->momentum_map(2, i, k) == 0, std::string("empty node") + tag, fmt("node %d,%d without particles is not zero", i, k)); continue; }
      if (it == D.end() || want <= 0) continue;
      long double eps = 1e-14L * (8 + r0 + z0 + nr + nz), u = U[{i + r0, k + z0}] / want, pa = A[{i + r0, k + z0}] / want, pv[3], p2 = 0;
      if (eps * u > 1e-6) continue; // a grazing particle: the fraction itself is rounding
      double ptol = (double)(1e-9L * pa + eps * (UA[{i + r0, k + z0}] / want + u * pa));
      if (pa < 0 || (pa > 0 && ptol > 1e-4 * pa)) continue;
      for (int q = 0; q < 3; ++q) { pv[q] = V[q][{i + r0, k + z0}] / want; p2 += pv[q] * pv[q]; }
      for (int q = 0; q < 3; ++q) c.near(s->momentum_map(q, i, k), (double)pv[q], ptol, std::string("momentum") + tag, fmt("mean momentum component %d at %d,%d", q, i, k));
      auto e_of = [&](long double x2) { long double er = mass * 9e16L; return x2 > 25e14L * mass * mass ? x2 * 9e16L / (sqrtl(x2 * 9e16L + er * er) + er) : x2 / 2 / mass; };
      double ea = (double)(e_of(pa * pa) / EL_CHARGE), etol = 1e-7 * ea + (double)((e_of((pa + 4 * ptol) * (pa + 4 * ptol)) - e_of(pa * pa)) / EL_CHARGE), tol = etol;
      if (fabs((double)(pa / mass / 5e7L) - 1) < 1e-3) tol = .03 * ea;
      c.near(en, ea, tol, std::string("energy") + tag, fmt("mean energy at %d,%d", i, k));
      long double x2 = pa * pa - p2; if (x2 < 0) x2 = 0; tol = etol; if (fabs((double)(sqrtl(x2) / mass / 5e7L) - 1) < 1e-2) tol = .03 * ea;
      // thermal part: difference of nearly equal numbers for a cold stream
      c.near(kt, (double)(e_of(x2) / EL_CHARGE), tol, std::string("temperature") + tag, fmt("temperature at %d,%d", i, k));
      c.saw("nodes with particles");
    }
    c.near((double)(total / (W > 0 ? W : 1)), W > 0 ? 1 : 0, 1e-9, std::string("total") + tag, "sum of density times volume over the total weight");
  };
  check("");
  // recomputation
  for (int q = c.r.range(1, 3); q > 0; --q) call(c.r.range(0, 3));
  check(":again");
  // linear in the weight
  double k = c.r.logu(1e-3, 1e3); for (auto p : s->particles) p->weight *= k; for (auto& e : D) e.second *= k; for (auto& e : A) e.second *= k; for (auto& e : U) e.second *= k; for (auto& e : UA) e.second *= k; for (int q = 0; q < 3; ++q) for (auto& e : V[q]) e.second *= k; W *= k;
  for (int w : order) call(w);
  check(":scaled");
  delete s;
}
int main(int argc, char** argv) { return run(argc, argv, "weight", {{"maps", 1, maps}}); }
