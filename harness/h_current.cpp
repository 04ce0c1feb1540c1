// P05: current deposition, monitored against the charge continuity equation
#include "vworld.hpp"
#include "current.hpp"
#ifdef SWITCH_CCS_ZIGZAG
#include "current/currentZigZag.hpp"
typedef CurrentZigZag Cur;
#else
#include "current/currentVB.hpp"
typedef CurrentVB Cur;
#endif
using namespace vh;
using constant::PI;

// node charges of a unit-charge ring at (r, z): area weighting in r (ring of
// width dr), linear in z
static void node_charge(std::map<std::pair<int,int>, double>& Q, double q, double r, double z, double dr, double dz)
{
  int i = (int)floor(r / dr), k = (int)floor(z / dz);
  double lo = (pow((i + 0.5) * dr, 2) - pow(r - dr / 2, 2)) / (2 * r * dr);
  double fz = z / dz - k;
  Q[{i, k}] += q * lo * (1 - fz); Q[{i, k + 1}] += q * lo * fz;
  Q[{i + 1, k}] += q * (1 - lo) * (1 - fz); Q[{i + 1, k + 1}] += q * (1 - lo) * fz;
}

struct World { Geometry* g; TimeSim* t; double dr, dz; int r0, z0, nr, nz; };
static World mk(Case& c)
{
  World w;
  w.nr = c.r.range(4, 9); w.nz = c.r.range(4, 9);
  w.r0 = c.r.chance(.4) ? 0 : c.r.range(1, 300); w.z0 = c.r.chance(.4) ? 0 : c.r.range(1, 1000);
  double dr = c.r.logu(1e-5, 1e-1), dz = dr * c.r.logu(.3, 3);
  w.g = vw::geom(w.r0, w.z0, w.nr, w.nz, w.r0 + w.nr, w.z0 + w.nz, dr, dz);
  w.dr = w.g->cell_size[0]; w.dz = w.g->cell_size[1];
  w.t = vw::tsim(std::min(w.dr, w.dz) / 3e8 * c.r.uni(.2, .99));
  return w;
}
// a move whose displacement never exceeds one cell in either direction
static std::string mk_move(Case& c, World& w, Particle* p)
{
  double dr = w.dr, dz = w.dz;
  double rmin = std::max(w.r0 * dr, dr / 2), rmax = (w.r0 + w.nr) * dr, zmin = w.z0 * dz, zmax = (w.z0 + w.nz) * dz;
  double lim = std::min(dr, dz) * .999;
  std::string kind;
  for (int tries = 0; ; ++tries)
  {
    double r = c.r.uni(rmin, rmax), z = c.r.uni(zmin, zmax), sr, sz;
    int t = c.r.range(0, 10);
    if (tries > 200) t = 0;
    switch (t)
    {
    case 0: case 1: case 2: sr = lim * c.r.uni(-1, 1); sz = lim * c.r.uni(-1, 1); kind = "generic"; break;
    case 3: sr = 0; sz = lim * c.r.uni(-1, 1); kind = "axial"; break;
    case 4: sr = lim * c.r.uni(-1, 1); sz = 0; kind = "radial"; break;
    case 5: sr = c.r.sgn() * c.r.logu(1e-17, lim); sz = lim * c.r.uni(-1, 1); kind = "almost_axial"; break;
    case 6: sr = lim * c.r.uni(-1, 1); sz = c.r.sgn() * c.r.logu(1e-17, lim); kind = "almost_radial"; break;
    case 7: { // straight through a grid node
      double d = std::min(dr, dz) * c.r.pick({.125, .25, .375});
      r = (w.r0 + c.r.range(1, w.nr - 1)) * dr; z = (w.z0 + c.r.range(1, w.nz - 1)) * dz;
      sr = 2 * d * c.r.sgn(); sz = 2 * d * c.r.sgn(); r -= sr / 2; z -= sz / 2; kind = "through_node"; break; }
    case 8: { // hugging a cell face
      r = (w.r0 + c.r.range(1, w.nr - 1)) * dr + c.r.sgn() * c.r.logu(1e-12, 1e-2) * dr;
      sr = c.r.sgn() * c.r.logu(1e-10, .5) * dr; sz = lim * c.r.uni(-1, 1); kind = "near_face"; break; }
    case 9: { // starts or ends exactly at cell faces, as particles of regular distributions do
      double fr = (w.r0 + c.r.range(0, w.nr)) * dr, fz = (w.z0 + c.r.range(0, w.nz)) * dz; int m = c.r.range(1, 3), e = c.r.range(0, 2);
      if (e) { if (fr > 0) fr = std::nextafter(fr, e == 1 ? 0. : 1e9); if (fz > 0) fz = std::nextafter(fz, e == 1 ? 0. : 1e9); }
      sr = lim * c.r.uni(-1, 1); sz = lim * c.r.uni(-1, 1); if (!e && c.r.chance(.2)) sr = c.r.sgn() * c.r.logu(1e-12, .1) * lim; if (!e && c.r.chance(.2)) sz = c.r.sgn() * c.r.logu(1e-12, .1) * lim;
      bool onto = c.r.chance(.5); if (m & 1) r = onto ? fr - sr : fr; if (m & 2) z = onto ? fz - sz : fz; kind = std::string(onto ? "onto_" : "from_") + (m == 1 ? "radial_face" : m == 2 ? "end_face" : "node");
      double rn = r + sr, zn = z + sz; if (onto && (m & 1)) rn = fr; if (onto && (m & 2)) zn = fz;
      if (r < dr / 2 || rn < rmin || rn >= rmax || zn < zmin || zn >= zmax || r >= rmax || z < zmin || z >= zmax) continue;
      p->pos_old_r = r; p->pos_old_z = z; p->pos_r = rn; p->pos_z = zn; p->cell_r = (size_t)floor(rn / dr); p->cell_z = (size_t)floor(zn / dz);
      if (p->cell_r >= (size_t)(w.r0 + w.nr) || p->cell_z >= (size_t)(w.z0 + w.nz)) continue;
      return kind; }
    default: sr = sz = 0; kind = "rest"; break;
    }
    double rn = r + sr, zn = z + sz;
    if (r < dr / 2 || rn < rmin || rn >= rmax || zn < zmin || zn >= zmax) continue;
    p->pos_old_r = r; p->pos_old_z = z; p->pos_r = rn; p->pos_z = zn;
    p->cell_r = (size_t)floor(rn / dr); p->cell_z = (size_t)floor(zn / dz);
    return kind;
  }
}

static void deposit(Case& c)
{
  World w = mk(c);
  double dt = w.t->step;
  std::vector<SpecieP*> sp;
  int ns = c.r.range(1, 3), np = 0;
  std::map<std::pair<int,int>, double> Q0, Q1;
  double qabs = 0, phi_sum = 0, phi_abs = 0, phi_mom = 0;
  std::string sig;
  double qdz = 0, qdr_any = 0;
  double rlo = 1e300, rhi = 0, sumz = 0, sumr = 0;
  int mono = 0;
  std::map<std::pair<int,int>, int> touched;
  int single = c.r.chance(.5);
  for (int s = 0; s < ns; ++s)
  {
    SpecieP* x = vw::specie(w.g, w.t, "s", c.r.pick({-1., 1., 2., -3.}), 1);
    sp.push_back(x);
    int n = single ? (s == 0 ? 1 : 0) : c.r.range(0, 6);
    for (int j = 0; j < n; ++j)
    {
      Particle* p = vw::particle(x, w.dr, w.dz, c.r.logu(1, 1e8));
      p->vel_phi = c.r.uni(-2e8, 2e8);
      std::string kind = mk_move(c, w, p);
      double q = x->charge * p->weight;
      node_charge(Q0, q, p->pos_old_r, p->pos_old_z, w.dr, w.dz);
      node_charge(Q1, q, p->pos_r, p->pos_z, w.dr, w.dz);
      qabs += fabs(q); phi_sum += q * p->vel_phi; phi_abs += fabs(q * p->vel_phi);
      phi_mom += q * p->vel_phi * ((p->pos_z + p->pos_old_z) / 2 / w.dz - w.z0);
      int io = (int)floor(p->pos_old_r / w.dr), ko = (int)floor(p->pos_old_z / w.dz);
      int in = p->cell_r, kn = p->cell_z;
      c.saw("move:" + kind); c.saw(fmt("cells:%+d%+d", in - io, kn - ko)); ++np;
      c.state(kind + fmt("%+d%+d,axis%d", in - io, kn - ko, in == 0 || io == 0));
      for (int a = std::min(io, in); a <= std::max(io, in) + 1; ++a)
        for (int b = std::min(ko, kn); b <= std::max(ko, kn) + 1; ++b) touched[{a - w.r0, b - w.z0}] = 1;
      rlo = std::min({rlo, p->pos_r, p->pos_old_r}); rhi = std::max({rhi, p->pos_r, p->pos_old_r});
      sumz += q * (p->pos_z - p->pos_old_z) / dt; sumr += q * (p->pos_r - p->pos_old_r) / dt;
      if (single) c.sample(fmt("%s: cell %d,%d -> %d,%d, dr=%g dz=%g", kind.c_str(), io, ko, in, kn, w.dr, w.dz));
    }
  }
  Cur cur(w.g, w.t, sp);
  // as the simulation does before every deposition
  cur.current = 0; cur.current.overlay_set(0);
  unsigned long err0 = vshim::n_error;
  cur.current_distribution();
  c.ok(vshim::n_error == err0, "refused_move", "a move within one cell was refused by the deposition");
  auto J = [&](int cmp, int i, int k) { return (i < -2 || k < -2 || i >= w.nr + 2 || k >= w.nz + 2) ? 0. : cur.current(cmp, (unsigned)i, (unsigned)k); };
  double tol = 1e-8 * qabs / dt;
#ifndef SWITCH_CCS_ZIGZAG
  auto Fr = [&](int i, int k) { int gi = i + w.r0; return gi < 0 ? 0. : J(0, i, k) * 2 * PI * (gi + .5) * w.dr * w.dz; };
  auto Fz = [&](int i, int k) { int gi = i + w.r0; double A = gi > 0 ? 2 * PI * gi * w.dr * w.dr : PI * w.dr * w.dr / 4; return gi < 0 ? 0. : J(2, i, k) * A; };
  for (int i = -2; i < w.nr + 2; ++i)
    for (int k = -2; k < w.nz + 2; ++k)
    {
      if (i + w.r0 < 0) continue;
      std::pair<int,int> n{i + w.r0, k + w.z0};
      double dq = (Q1.count(n) ? Q1[n] : 0) - (Q0.count(n) ? Q0[n] : 0);
      double div = Fr(i, k) - Fr(i - 1, k) + Fz(i, k) - Fz(i, k - 1);
      c.near(div, -dq / dt, tol, "continuity", fmt("charge continuity at node (%d,%d), %d particle(s)", n.first, n.second, np));
      if (!touched.count({i, k}))
        c.ok(J(0, i, k) == 0 && J(1, i, k) == 0 && J(2, i, k) == 0, "locality", fmt("current at node (%d,%d) that no particle touched", n.first, n.second));
    }
  double st = 0, sz = 0;
  for (int i = -2; i < w.nr + 2; ++i)
    for (int k = -2; k < w.nz + 2; ++k)
    {
      int gi = i + w.r0; if (gi < 0) continue;
      double V = PI * w.dz * w.dr * w.dr * (2. * gi + 1);
      st += J(1, i, k) * V; sz += J(1, i, k) * V * k;
    }
  c.near(st, phi_sum, 1e-8 * phi_abs, "azimuthal_total", "sum of azimuthal current over cells vs charge times velocity");
  c.near(sz, phi_mom, 1e-7 * phi_abs * (w.nz + 2), "azimuthal_moment", "longitudinal position of azimuthal current");
  for (int k = -2; k < w.nz + 2; ++k)
    ;
#else
  if (single && np == 1)
  {
    Particle* p = sp[0]->particles[0];
    int im = (int)floor((p->pos_r + p->pos_old_r) / 2 / w.dr);
    double V = PI * w.dz * w.dr * w.dr * (2. * im + 1);
    double s[3] = {0, 0, 0}, mi[3] = {0,0,0}, mk_[3] = {0,0,0}, ab[3] = {0,0,0};
    for (int i = -2; i < w.nr + 2; ++i)
      for (int k = -2; k < w.nz + 2; ++k)
      {
        for (int m = 0; m < 3; ++m)
        { double v = J(m, i, k) * V; s[m] += v; ab[m] += fabs(v); mi[m] += v * (i + w.r0); mk_[m] += v * (k + w.z0); }
        if (!touched.count({i, k}))
          c.ok(J(0, i, k) == 0 && J(1, i, k) == 0 && J(2, i, k) == 0, "locality", fmt("current at untouched node (%d,%d)", i, k));
      }
    double q = sp[0]->charge * p->weight;
    double want[3] = {sumr, q * p->vel_phi, sumz};
    const char* nm[3] = {"radial", "azimuthal", "longitudinal"};
    double scale = fabs(q) / dt * std::min(w.dr, w.dz);
    for (int m = 0; m < 3; ++m)
    {
      c.near(s[m], want[m], 1e-8 * (m == 1 ? fabs(want[m]) : scale) + 1e-300, fmt("total:%s", nm[m]), fmt("total %s current", nm[m]));
      if (fabs(want[m]) < 1e-3 * scale) continue;
      c.ok(ab[m] <= fabs(s[m]) * (1 + 1e-9), fmt("weights:%s", nm[m]), fmt("%s current has contributions of opposite directions", nm[m]));
      double zlo = std::min(p->pos_z, p->pos_old_z) / w.dz, zhi = std::max(p->pos_z, p->pos_old_z) / w.dz;
      if (m != 0) c.ok(mi[m] / s[m] >= rlo / w.dr - 1e-6 && mi[m] / s[m] <= rhi / w.dr + 1e-6, fmt("centroid_r:%s", nm[m]),
                       fmt("%s current is centred at radial node %g, particle moved within %g..%g", nm[m], mi[m] / s[m], rlo / w.dr, rhi / w.dr));
      if (m != 2) c.ok(mk_[m] / s[m] >= zlo - 1e-6 && mk_[m] / s[m] <= zhi + 1e-6, fmt("centroid_z:%s", nm[m]),
                       fmt("%s current is centred at longitudinal node %g, particle moved within %g..%g", nm[m], mk_[m] / s[m], zlo, zhi));
    }
  }
  else
  { // superposition: all together equals the sum of the particles one by one
    std::vector<double> acc(3 * (w.nr + 4) * (w.nz + 4), 0.), all = acc;
    auto grab = [&](std::vector<double>& d) { size_t o = 0; for (int m = 0; m < 3; ++m) for (int i = -2; i < w.nr + 2; ++i) for (int k = -2; k < w.nz + 2; ++k) d[o++] += J(m, i, k); };
    grab(all);
    double mx = 0; for (double v : all) mx = std::max(mx, fabs(v));
    for (auto s : sp)
      for (auto p : s->particles)
      {
        SpecieP one = *s; one.particles = {p};
        Cur cc(w.g, w.t, {&one}); std::swap(cur, cc);
        cur.current_distribution(); grab(acc); std::swap(cur, cc); one.particles.clear();
        for (int m = 0; m < 3; ++m) for (unsigned i = 0; i < cc.current[m].x_real_size; ++i) delete[] cc.current[m].get_grid()[i];
      }
    for (size_t o = 0; o < all.size(); ++o) c.near(all[o], acc[o], 1e-9 * mx, "superposition", "currents of several particles add up");
  }
#endif
  for (int m = 0; m < 3; ++m) for (unsigned i = 0; i < cur.current[m].x_real_size; ++i) delete[] cur.current[m].get_grid()[i];
  for (auto s : sp) vw::drop(s);
}

int main(int argc, char** argv)
{ return vh::run(argc, argv, "current", {{"deposit", 1, deposit}}); }
