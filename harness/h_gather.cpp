// P08: interpolation of grid fields to particles, against the volume-weighting reference
#include "vworld.hpp"
#include "domain.hpp"
using namespace vh;
typedef long double L;
// shares of the cell volumes of the two radial nodes that the ring [r-dr/2, r+dr/2] covers
static void rw(L r, L dr, bool half, int& i, L w[2])
{
  L x = r / dr; i = (int)floorl(half ? x - .5L : x);
  L e = half ? i + 1 : i + .5L, a = x - .5L, b = x + .5L;
  w[0] = (e * e - a * a) / (2 * i + 1); w[1] = (b * b - e * e) / (2 * (i + 1) + 1);
}
static void zw(L z, L dz, bool half, int& k, L w[2])
{ L y = z / dz - (half ? .5L : 0); k = (int)floorl(y); w[1] = y - k; w[0] = 1 - w[1]; }
// staggering: {half in r, half in z}
static const bool SE[3][2] = {{true, false}, {false, false}, {false, true}}, SH[3][2] = {{false, true}, {true, true}, {true, false}};
struct World { Geometry* g; Domain* d; int r0, z0, nr, nz; double dr, dz; };
static World world(Case& c, int r0, int z0, int nr, int nz, double dr, double dz)
{
  World w; w.g = vw::geom(r0, z0, nr, nz, r0 + nr, z0 + nz, dr, dz, {r0 == 0, z0 == 0, true, true}); w.dr = w.g->cell_size[0]; w.dz = w.g->cell_size[1];
  TimeSim* t = vw::tsim(1e-13); w.d = new Domain(*w.g, {vw::specie(w.g, t)}, t); w.r0 = r0; w.z0 = z0; w.nr = nr; w.nz = nz; return w;
}
static void shape(Case& c, int& r0, int& z0, int& nr, int& nz, double& dr, double& dz)
{ nr = c.r.range(3, 9); nz = c.r.range(3, 9); r0 = c.r.chance(.5) ? 0 : c.r.range(1, 200); z0 = c.r.chance(.5) ? 0 : c.r.range(1, 500); dr = c.r.logu(1e-6, 1e-1); dz = dr * c.r.logu(.2, 5); }
// a position a particle of this domain may have
static std::string place(Case& c, World& w, double& r, double& z)
{
  double lo = w.r0 ? 0 : .5; r = (w.r0 + c.r.uni(lo, w.nr)) * w.dr; z = (w.z0 + c.r.uni(w.z0 ? 0 : .5, w.nz)) * w.dz;
  switch (c.r.range(0, 9))
  {
  case 0: r = (w.r0 + c.r.range(w.r0 ? 0 : 1, w.nr - 1)) * w.dr; return "radial face";
  case 1: z = (w.z0 + c.r.range(w.z0 ? 0 : 1, w.nz - 1)) * w.dz; return "axial face";
  case 2: r = (w.r0 + c.r.range(0, w.nr - 1) + .5) * w.dr; return "radial middle";
  case 3: z = (w.z0 + c.r.range(0, w.nz - 1) + .5) * w.dz; return "axial middle";
  case 4: r = (w.r0 + lo) * w.dr * (1 + 1e-12); return "inner edge";
  case 5: r = (w.r0 + w.nr) * w.dr * (1 - 1e-12); return "outer edge";
  case 6: z = (w.z0 + w.nz) * w.dz * (1 - 1e-12); return "right edge";
  case 7: z = (w.z0 + (w.z0 ? 0 : .5)) * w.dz; return "left edge";
  }
  return "generic";
}
static void put(Grid3D<double>& f, int comp, int i, int k, double v) { f[comp].set((unsigned)i, (unsigned)k, v); }
template <class F> static void fill(World& w, F fn)
{
  for (int q = 0; q < 3; ++q) for (int i = -2; i < w.nr + 2; ++i) for (int k = -2; k < w.nz + 2; ++k)
  { put(w.d->maxwell_solver->field_e, q, i, k, fn(0, q, i + w.r0, k + w.z0)); put(w.d->maxwell_solver->field_h, q, i, k, fn(1, q, i + w.r0, k + w.z0)); }
}
// everything compared with the reference
static void random_fields(Case& c)
{
  int r0, z0, nr, nz; double dr, dz; shape(c, r0, z0, nr, nz, dr, dz); World w = world(c, r0, z0, nr, nz, dr, dz); dr = w.dr; dz = w.dz;
  std::map<std::array<int, 4>, double> V; double amp = c.r.logu(1e-6, 1e12);
  fill(w, [&](int f, int q, int i, int k) { return V[{f, q, i, k}] = amp * c.r.uni(-1, 1); });
  for (int n = 0; n < 40; ++n)
  {
    double r, z; std::string kind = place(c, w, r, z);
    vector3d<double> got[2] = {w.d->maxwell_solver->get_field_e(r, z), w.d->maxwell_solver->get_field_h(r, z)};
    for (int f = 0; f < 2; ++f) for (int q = 0; q < 3; ++q)
    {
      const bool* st = f ? SH[q] : SE[q]; int i, k; L a[2], b[2], want = 0; rw(r, dr, st[0], i, a); zw(z, dz, st[1], k, b);
      for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { if (fabsl(a[x] * b[y]) > 0) want += V[{f, q, i + x, k + y}] * a[x] * b[y]; }
      c.near(got[f][q], (double)want, 1e-11 * amp * (10 + r0 + z0), fmt("value:%c%d", f ? 'H' : 'E', q), fmt("field component %d at (%.17g, %.17g) cells", q, r / dr, z / dz));
      c.ok(a[0] >= -1e-9 && a[1] >= -1e-9, "oracle", "reference weight is negative");
    }
    c.saw(kind); c.state(kind + (r0 ? "" : "A") + (z0 ? "" : "L"));
  }
  // reading a field never changes it
  for (auto& e : V) { auto& a = e.first; Grid3D<double>& F = a[0] ? w.d->maxwell_solver->field_h : w.d->maxwell_solver->field_e; if (!c.ok(F(a[1], (unsigned)(a[2] - r0), (unsigned)(a[3] - z0)) == e.second, "changed", "interpolation changed the grid")) break; }
  c.sample(fmt("40 positions on %dx%d cells from %d,%d", nr, nz, r0, z0));
}
// one grid value at a time: who feels it, and with which sign
static void impulse(Case& c)
{
  int r0, z0, nr, nz; double dr, dz; shape(c, r0, z0, nr, nz, dr, dz); World w = world(c, r0, z0, nr, nz, dr, dz); dr = w.dr; dz = w.dz;
  fill(w, [](int, int, int, int) { return 0.; });
  for (int n = 0; n < 60; ++n)
  {
    double r, z; std::string kind = place(c, w, r, z); int f = c.r.range(0, 1), q = c.r.range(0, 2);
    const bool* st = f ? SH[q] : SE[q];
    int i = std::min(nr + 1, std::max(-1, (int)floor(r / dr) - r0 + c.r.range(-2, 2))), k = std::min(nz + 1, std::max(-1, (int)floor(z / dz) - z0 + c.r.range(-2, 2)));
    Grid3D<double>& F = f ? w.d->maxwell_solver->field_h : w.d->maxwell_solver->field_e; put(F, q, i, k, 1);
    vector3d<double> e = w.d->maxwell_solver->get_field_e(r, z), h = w.d->maxwell_solver->get_field_h(r, z);
    double xr = fabs(r / dr - (r0 + i + (st[0] ? .5 : 0))), xz = fabs(z / dz - (z0 + k + (st[1] ? .5 : 0)));
    for (int g = 0; g < 2; ++g) for (int s = 0; s < 3; ++s)
    {
      double v = (g ? h : e)[s]; bool own = g == f && s == q;
      if (!own) c.ok(v == 0, "cross", fmt("component %d of field %d answers to component %d of field %d", s, g, q, f));
      else if (xr > 1 + 1e-9 || xz > 1 + 1e-9) { c.ok(v == 0 || fabs(v) < 1e-12 * (10 + r0 + z0), "remote", fmt("node %g,%g cells away is felt with weight %g", xr, xz, v)); c.saw("silent nodes"); }
      else { c.ok(v >= -1e-12 * (10 + r0 + z0) && v <= 1.5, "weight", fmt("node %g,%g cells away is felt with weight %g", xr, xz, v)); if (xr < .98 && xz < .98 && (i + r0) >= 0) c.ok(v > 0, "deaf", fmt("node %g,%g cells away is not felt", xr, xz)); c.saw("felt nodes"); }
    }
    put(F, q, i, k, 0); c.state(kind + (f ? "H" : "E") + std::to_string(q));
  }
}
// analytic fields: uniform and linear in z, radially far from the axis
static void analytic(Case& c)
{
  int r0, z0, nr, nz; double dr, dz; shape(c, r0, z0, nr, nz, dr, dz); if (c.r.chance(.7)) r0 = c.r.range(100, 3000);
  World w = world(c, r0, z0, nr, nz, dr, dz); dr = w.dr; dz = w.dz;
  double A[2][3], B[2][3]; for (auto& a : A) for (auto& x : a) x = c.r.uni(-1, 1); bool lin = c.r.chance(.5); for (auto& a : B) for (auto& x : a) x = lin ? c.r.uni(-.01, .01) : 0;
  fill(w, [&](int f, int q, int i, int k) { return A[f][q] + B[f][q] * (k + ((f ? SH : SE)[q][1] ? .5 : 0)); });
  for (int n = 0; n < 30; ++n)
  {
    double r, z; std::string kind = place(c, w, r, z); vector3d<double> got[2] = {w.d->maxwell_solver->get_field_e(r, z), w.d->maxwell_solver->get_field_h(r, z)};
    double i = r / dr;
    for (int f = 0; f < 2; ++f) for (int q = 0; q < 3; ++q)
    {
      double want = A[f][q] + B[f][q] * (z / dz); double tol = 1. / std::max(1., i) * fabs(want) + 1e-9 * (1 + z0 * .01);
      if (i < 1) continue;
      c.near(got[f][q], want, tol, fmt("analytic:%c%d", f ? 'H' : 'E', q), fmt("component %d of an axially linear field at %g,%g cells", q, r / dr, z / dz));
    }
    c.saw(lin ? "linear field" : "uniform field"); c.state(kind + (lin ? "lin" : "uni") + (i > 50 ? "far" : ""));
  }
}
// continuity, and equality of domains that hold the same global field
static void across(Case& c)
{
  int r0, z0, nr, nz; double dr, dz; shape(c, r0, z0, nr, nz, dr, dz); nr += 3; nz += 3; World w = world(c, r0, z0, nr, nz, dr, dz); dr = w.dr; dz = w.dz;
  uint64_t salt = c.r.next(); auto fn = [salt](int f, int q, int i, int k) { Rng r(salt + f * 1000003 + q * 10007 + i * 104729ull + k * 15485863ull); r.next(); return r.uni(-1, 1); };
  fill(w, fn);
  // a second domain cut out of the first one
  int a = c.r.range(1, nr - 3), b = c.r.range(1, nz - 3); World v = world(c, r0 + a, z0 + b, nr - a, nz - b, dr, dz); v.dr = dr; v.dz = dz; fill(v, fn);
  for (int n = 0; n < 20; ++n)
  {
    double r, z; std::string kind = place(c, v, r, z);
    vector3d<double> x[2] = {w.d->maxwell_solver->get_field_e(r, z), w.d->maxwell_solver->get_field_h(r, z)}, y[2] = {v.d->maxwell_solver->get_field_e(r, z), v.d->maxwell_solver->get_field_h(r, z)};
    for (int f = 0; f < 2; ++f) for (int q = 0; q < 3; ++q) c.near(y[f][q], x[f][q], 1e-10 * (10 + r0 + z0), "domains", fmt("component %d at %g,%g cells differs between domains", q, r / dr, z / dz));
    place(c, w, r, z); double e = 1e-7; double r2 = r + e * dr * c.r.sgn(), z2 = z + e * dz * c.r.sgn();
    if (r2 < w.r0 * dr + (w.r0 ? 0 : dr / 2) || r2 >= (w.r0 + nr) * dr || z2 < w.z0 * dz || z2 >= (w.z0 + nz) * dz) continue;
    vector3d<double> p[2] = {w.d->maxwell_solver->get_field_e(r, z), w.d->maxwell_solver->get_field_h(r, z)}, s[2] = {w.d->maxwell_solver->get_field_e(r2, z2), w.d->maxwell_solver->get_field_h(r2, z2)};
    for (int f = 0; f < 2; ++f) for (int q = 0; q < 3; ++q) c.near(s[f][q], p[f][q], 20 * e + 1e-10 * (10 + r0 + z0), "jump", fmt("component %d jumps at %.12g,%.12g cells", q, r / dr, z / dz));
    c.saw("continuity"); c.state(kind);
  }
}
int main(int argc, char** argv) { return run(argc, argv, "gather", {{"random_fields", 3, random_fields}, {"impulse", 2, impulse}, {"analytic", 1, analytic}, {"across", 2, across}}); }
