// P07: Yee solver, against an independent long-double update, plus energy bounds, absorbing layers, NaN reports
#include "vworld.hpp"
#include "domain.hpp"
using namespace vh;
typedef long double L;
struct W { Geometry* g; TimeSim* t; Domain* d; MaxwellSolverYee* m; int r0, z0, nr, nz; double dr, dz, dt; bool w[4]; };
static const L EPS = constant::EPSILON0, MU = constant::MAGN_CONST;
static W mk(Case& c, int r0, int z0, int nr, int nz, int gr, int gz, double dr, double dz, double dt, std::vector<size_t> pml = {0, 0, 0, 0}, std::vector<double> sig = {0, 0})
{
  W w; w.w[0] = r0 == 0; w.w[1] = z0 == 0; w.w[2] = r0 + nr == gr; w.w[3] = z0 + nz == gz;
  w.g = vw::geom(r0, z0, nr, nz, gr, gz, dr, dz, {w.w[0], w.w[1], w.w[2], w.w[3]}, pml, sig); w.t = vw::tsim(dt); w.d = new Domain(*w.g, {vw::specie(w.g, w.t)}, w.t); w.m = w.d->maxwell_solver;
  w.r0 = r0; w.z0 = z0; w.nr = nr; w.nz = nz; w.dr = w.g->cell_size[0]; w.dz = w.g->cell_size[1]; w.dt = dt; w.d->reset_current(); return w;
}
static void shape(Case& c, int& r0, int& z0, int& nr, int& nz, int& gr, int& gz, double& dr, double& dz)
{
  nr = c.r.range(3, 9); nz = c.r.range(3, 9); r0 = c.r.chance(.5) ? 0 : c.r.range(1, 200); z0 = c.r.chance(.5) ? 0 : c.r.range(1, 300);
  gr = r0 + nr + (c.r.chance(.5) ? 0 : c.r.range(1, 50)); gz = z0 + nz + (c.r.chance(.5) ? 0 : c.r.range(1, 50)); dr = c.r.logu(1e-6, 1e-1); dz = dr * c.r.logu(.2, 5);
}
struct F { std::vector<double> v; int nr, nz; F(int a, int b) : v(3 * (a + 4) * (b + 4)), nr(a), nz(b) {} double& operator()(int q, int i, int k) { return v[(q * (nr + 4) + i + 2) * (nz + 4) + k + 2]; } };
static F snap(Grid3D<double>& g, int nr, int nz) { F f(nr, nz); for (int q = 0; q < 3; ++q) for (int i = -2; i < nr + 2; ++i) for (int k = -2; k < nz + 2; ++k) f(q, i, k) = g(q, (unsigned)i, (unsigned)k); return f; }
static void put(Grid3D<double>& g, int q, int i, int k, double v) { g[q].set((unsigned)i, (unsigned)k, v); }
static void updates(Case& c)
{
  int r0, z0, nr, nz, gr, gz; double dr, dz; shape(c, r0, z0, nr, nz, gr, gz, dr, dz); double dt = std::min(dr, dz) / 3e8 * c.r.uni(.05, .5);
  std::vector<size_t> pml = {0, 0, 0, 0}; std::vector<double> sig = {0, 0};
  if (c.r.chance(.5)) { pml = {0, (size_t)c.r.range(0, gz / 2), (size_t)c.r.range(0, gr / 2), (size_t)c.r.range(0, gz / 2)}; sig = {c.r.chance(.5) ? 0 : (double)(EPS / dt) * c.r.logu(1e-3, .1), (double)(EPS / dt) * c.r.logu(1e-2, 1)}; }
  W w = mk(c, r0, z0, nr, nz, gr, gz, dr, dz, dt, pml, sig); dr = w.dr; dz = w.dz;
  auto tangential_wall = [&](int q, int i, int k) // electric nodes on conducting walls (kept zero)
  { return (w.w[2] && i >= nr - 1) || (w.w[3] && k >= nz - 1) || (w.w[1] && k <= 0 && q < 2) || (w.w[0] && i <= 0 && q == 1); };
  double ea = c.r.logu(1, 1e9), ha = ea / 377 * c.r.logu(.01, 100), ja = ea * (double)(EPS / dt) * c.r.logu(1e-3, 10);
  auto fill = [&](bool ghosts_only)
  {
    for (int q = 0; q < 3; ++q) for (int i = -2; i < nr + 2; ++i) for (int k = -2; k < nz + 2; ++k)
    {
      bool ghost = i < 0 || k < 0 || i >= nr || k >= nz; if (ghosts_only && !ghost) continue;
      bool beyond = (w.w[2] && i >= nr) || (w.w[3] && k >= nz) || (w.w[0] && i < 0) || (w.w[1] && k < 0); // behind a wall nothing is ever exchanged
      put(w.m->field_e, q, i, k, beyond || tangential_wall(q, i, k) ? 0 : ea * c.r.uni(-1, 1));
      put(w.m->field_h_at_et, q, i, k, beyond ? 0 : ha * c.r.uni(-1, 1));
      if (!ghosts_only) { put(w.m->field_h, q, i, k, 0); if (!ghost) put(w.d->current->current, q, i, k, c.r.chance(.3) ? 0 : ja * c.r.uni(-1, 1)); }
    }
  };
  fill(false); int steps = c.r.range(1, 4);
  for (int n = 0; n < steps; ++n)
  {
    F E = snap(w.m->field_e, nr, nz), H = snap(w.m->field_h_at_et, nr, nz), J = snap(w.d->current->current, nr, nz), H2 = snap(w.m->field_h, nr, nz);
    w.d->weight_field_e();
    F G = snap(w.m->field_e, nr, nz), Ha = snap(w.m->field_h_at_et, nr, nz), Hb = snap(w.m->field_h, nr, nz), Ja = snap(w.d->current->current, nr, nz);
    c.ok(Ha.v == H.v && Hb.v == H2.v && Ja.v == J.v, "E:side", "the electric half-step changed magnetic field or current");
    for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k)
    {
      L s = 0;
#ifdef ENABLE_PML
      s = w.m->sigma(i, k);
#endif
      c.ok(fabs(w.m->epsilon(i, k) / (double)EPS - 1) < 1e-12, "epsilon", "permittivity");
      L sd = s * dt / 2, ke = (EPS - sd) / (EPS + sd), kh = dt / (EPS + sd), R = i + r0;
      for (int q = 0; q < 3; ++q)
      {
        std::string at = w.w[0] && i == 0 ? "axis" : w.w[1] && k == 0 ? "left" : w.w[2] && i == nr - 1 ? "outer" : w.w[3] && k == nz - 1 ? "right" : "inner";
        if (q == 2 && w.w[0] && w.w[1] && i == 0 && k == 0) continue; // corner of axis and wall
        L want, sc = fabs(E(q, i, k)) + fabsl(kh) * fabs(J(q, i, k)) + fabsl(kh) * ha * (4 / dr + 4 / dz);
        if (tangential_wall(q, i, k)) { c.ok(G(q, i, k) == 0, fmt("E%d:wall:%s", q, at.c_str()), fmt("electric field %g on the wall at %d,%d", G(q, i, k), i, k)); continue; }
        L curl;
        if (q == 0) curl = -((L)H(1, i, k) - H(1, i, k - 1)) / dz;
        else if (q == 1) curl = ((L)H(0, i, k) - H(0, i, k - 1)) / dz - ((L)H(2, i, k) - H(2, i - 1, k)) / dr;
        else if (w.w[0] && i == 0) curl = 4 * (L)H(1, i, k) / dr;
        else curl = ((L)H(1, i, k) - H(1, i - 1, k)) / dr + ((L)H(1, i, k) + H(1, i - 1, k)) / (2 * dr * R);
        want = ke * E(q, i, k) + kh * (curl - J(q, i, k));
        c.near(G(q, i, k), (double)want, (double)(1e-10L * sc), fmt("E%d:%s", q, at.c_str()), fmt("electric component %d at %d,%d", q, i, k)); c.saw("E " + at); c.state(at + (s > 0 ? "damped" : ""));
      }
    }
    fill(true); // ghosts as after an exchange with neighbours
    E = snap(w.m->field_e, nr, nz); H = snap(w.m->field_h_at_et, nr, nz); H2 = snap(w.m->field_h, nr, nz);
    w.d->weight_field_h();
    F Ea = snap(w.m->field_e, nr, nz), A = snap(w.m->field_h_at_et, nr, nz), B = snap(w.m->field_h, nr, nz), Jb = snap(w.d->current->current, nr, nz);
    c.ok(Ea.v == E.v && Jb.v == J.v, "H:side", "the magnetic half-step changed electric field or current");
    for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k) for (int q = 0; q < 3; ++q)
    {
      L curl; if (q == 0) curl = ((L)E(1, i, k + 1) - E(1, i, k)) / dz;
      else if (q == 1) curl = ((L)E(2, i + 1, k) - E(2, i, k)) / dr - ((L)E(0, i, k + 1) - E(0, i, k)) / dz;
      else curl = -(((L)E(1, i + 1, k) + E(1, i, k)) / (2 * dr * (i + r0 + .5L)) + ((L)E(1, i + 1, k) - E(1, i, k)) / dr);
      if (w.w[2] && i == nr - 1) { if (q == 0) curl = 0; }
      L al = dt / MU * curl, sc = fabs(H(q, i, k)) + dt / MU * 6 * ea * 100 * (1 / dr + 1 / dz); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int s = 0; s < 3; ++s) sc += dt / MU * fabs(E(s, i + a, k + b)) * (2 / dr + 1 / dz);
      c.near(A(q, i, k), (double)(H(q, i, k) + al), (double)(1e-11L * sc), fmt("H%d:full", q), fmt("magnetic component %d at %d,%d", q, i, k));
      c.near(B(q, i, k), (double)(H(q, i, k) + al / 2), (double)(1e-11L * sc), fmt("H%d:half", q), fmt("time-centred magnetic component %d at %d,%d", q, i, k));
    }
    c.saw("half-steps", 2); fill(true);
  }
  c.sample(fmt("%dx%d cells from %d,%d of %dx%d, %d steps", nr, nz, r0, z0, gr, gz, steps));
}
static double energy(W& w)
{
  L e = 0;
  for (int i = 0; i < w.nr; ++i) for (int k = 0; k < w.nz; ++k) for (int q = 0; q < 3; ++q)
  { L vol = i + .5L; e += vol * (EPS * w.m->field_e(q, i, k) * w.m->field_e(q, i, k) + MU * w.m->field_h(q, i, k) * w.m->field_h(q, i, k)); }
  return (double)e;
}
// fields without sources in a closed box
static void closed_box(Case& c)
{
  int nr = c.r.range(4, 16), nz = c.r.range(4, 16); double dr = c.r.logu(1e-5, 1e-2), dz = dr * c.r.logu(.5, 2), dt = std::min(dr, dz) / 3e8 * c.r.uni(.1, .45); bool pml = c.r.chance(.4);
  std::vector<size_t> ps = {0, (size_t)(pml ? c.r.range(0, nz / 2) : 0), (size_t)(pml ? c.r.range(0, nr / 2) : 0), (size_t)(pml ? c.r.range(1, nz / 2) : 0)};
  W w = mk(c, 0, 0, nr, nz, nr, nz, dr, dz, dt, ps, {0, pml ? (double)(EPS / dt) * c.r.uni(.05, .5) : 0}); double ea = c.r.logu(1, 1e6);
  for (int q = 0; q < 3; ++q) for (int i = 0; i < nr - 1; ++i) for (int k = 0; k < nz - 1; ++k)
  { if (k > 0 && i > 0) put(w.m->field_e, q, i, k, ea * c.r.uni(-1, 1)); if (c.r.chance(.5)) put(w.m->field_h_at_et, q, i, k, ea / 377 * c.r.uni(-1, 1)); }
  // let the first exchange of the staggered values pass
  w.d->weight_field_e(); w.d->weight_field_h(); double e0 = energy(w), top = e0, last = 0; int N = c.r.range(100, 400); double tail = 0;
  for (int n = 0; n < N; ++n) { w.d->weight_field_e(); w.d->weight_field_h(); last = energy(w); top = std::max(top, last); if (n >= N - 20) tail = std::max(tail, last); if (!c.ok(std::isfinite(last) && last < 100 * e0, pml ? "energy:layer" : "energy", fmt("field energy grew %g times in %d steps", last / e0, n))) return; }
#ifdef ENABLE_PML
  if (!pml)
#endif
  c.ok(tail > .01 * e0, "energy:lost", fmt("field energy fell to %g of the initial one in a closed box without absorbers", tail / e0));
  c.saw(pml ? "boxes with layers" : "closed boxes"); c.state(pml ? "layer" : "plain");
}
// where and how much the absorbing layers damp
static void layers(Case& c)
{
  int r0, z0, nr, nz, gr, gz; double dr, dz; shape(c, r0, z0, nr, nz, gr, gz, dr, dz); double dt = 1e-13; std::vector<size_t> p = {0, (size_t)c.r.range(0, gz / 2), (size_t)c.r.range(0, gr / 2), (size_t)c.r.range(0, gz / 2)}; if (c.r.chance(.3)) p[c.r.range(1, 3)] = 0;
  double s1 = c.r.chance(.5) ? 0 : c.r.logu(1e-6, 1), s2 = s1 + c.r.logu(1e-6, 10); W w = mk(c, r0, z0, nr, nz, gr, gz, dr, dz, dt, p, {s1, s2});
  for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k)
  {
    L want = 0, D = s2 - s1; bool edge = false; int gi = i + r0, gk = k + z0;
#ifdef ENABLE_PML
    auto q = [&](L depth, L len) { return s1 + D * (depth / len) * (depth / len); };
    if (p[2] && gr - gi < (int)p[2]) { want += q(gi + 1 - gr + (int)p[2], p[2]); c.saw("outer layer"); } else if (p[2] && gr - gi == (int)p[2]) edge = true;
    if (p[1] && gk < (int)p[1]) { want += q((int)p[1] - gk, p[1]); c.saw("left layer"); } else if (p[1] && gk == (int)p[1]) edge = true;
    if (p[3] && gz - gk < (int)p[3]) { want += q(gk + 1 - gz + (int)p[3], p[3]); c.saw("right layer"); } else if (p[3] && gz - gk == (int)p[3]) edge = true;
#endif
    if (edge) { c.saw("layer edge"); c.ok(w.m->sigma(i, k) >= (double)want * (1 - 1e-9) && w.m->sigma(i, k) <= 3 * s2 * (1 + 1e-9), "layer:edge", "conductivity at the edge of a layer"); continue; }
    c.near(w.m->sigma(i, k), (double)want, 1e-9 * s2, want > 0 ? "layer" : "no layer", fmt("conductivity at cell %d,%d of %dx%d, layers %zu %zu %zu", gi, gk, gr, gz, p[1], p[2], p[3])); c.saw(want > 0 ? "damped cells" : "free cells");
  }
  c.state(fmt("%d%d%d%d", p[1] > 0, p[2] > 0, p[3] > 0, s1 > 0));
}
// a broken number never passes unnoticed for more than two steps
static void broken(Case& c)
{
  int r0, z0, nr, nz, gr, gz; double dr, dz; shape(c, r0, z0, nr, nz, gr, gz, dr, dz); nr = std::max(nr, 4); nz = std::max(nz, 4); W w = mk(c, r0, z0, nr, nz, r0 + nr, z0 + nz, dr, dz, std::min(dr, dz) / 3e8 * .3);
  int what = c.r.range(0, 2), q = c.r.range(0, 2), i = c.r.range(1, nr - 2), k = c.r.range(1, nz - 2); double bad = NAN; Grid3D<double>& g = what == 0 ? w.m->field_e : what == 1 ? w.m->field_h_at_et : w.d->current->current; put(g, q, i, k, bad);
  vshim::throw_on_fatal = true; bool told = false; for (int n = 0; n < 2 && !told; ++n) try { w.d->weight_field_e(); w.d->weight_field_h(); } catch (vshim::FatalError&) { told = true; }
  c.ok(told, fmt("nan:%d:%d", what, q), fmt("not-a-number in %s component %d at %d,%d was not reported", what == 0 ? "E" : what == 1 ? "H" : "J", q, i, k)); c.saw("broken fields"); c.state(fmt("%d%d", what, q));
}
int main(int argc, char** argv)
{
  bool nan_ok = true;
#ifdef __FAST_MATH__
  nan_ok = false;
#endif
#ifdef VH_NO_NAN
  nan_ok = false;
#endif
  std::vector<Scenario> s = {{"updates", 6, updates}, {"closed_box", 1, closed_box}, {"layers", 3, layers}}; if (nan_ok) s.push_back({"broken", 2, broken}); return run(argc, argv, "maxwell", s);
}
