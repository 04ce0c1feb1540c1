// P06: particle pushers, against independent long-double schemes and invariants
#include "vworld.hpp"
#include "domain.hpp"
using namespace vh;
typedef long double L;
struct V3 { L x, y, z; };
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator*(L k, V3 a) { return {k * a.x, k * a.y, k * a.z}; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static const L C2 = 9e16L; // the light velocity of the code base is 3e8
static const L MU0 = constant::MAGN_CONST; // 1.26e-6 in the code base; its value is checked apart
static V3 rot(V3 u, V3 t) { V3 up = u + cross(u, t); return u + (2 / (1 + dot(t, t))) * cross(up, t); }
static V3 scheme(V3 v, V3 E, V3 B, L qm2, std::string which) // qm2 = q dt / 2m, B in tesla
{
  V3 e = qm2 * E, b = qm2 * B; bool rel = which != "BORIS" && !(which == "ADAPTIVE" && dot(v, v) <= 25e14L);
  if (!rel) return rot(v + e, b) + e;
  V3 u = (1 / sqrtl(1 - dot(v, v) / C2)) * v, w;
  if (which == "VAY")
  {
    V3 up = u + 2 * e + cross(v, b); L s = 1 + dot(up, up) / C2 - dot(b, b), us = dot(up, b); us = us * us / C2;
    L g = sqrtl((s + sqrtl(s * s + 4 * (dot(b, b) + us))) / 2); V3 t = (1 / g) * b; L k = 1 / (1 + dot(t, t));
    w = k * (up + dot(up, t) * t + cross(up, t));
  }
  else
  {
    V3 um = u + e; L g;
    if (which == "HC") { L s = 1 + dot(um, um) / C2 - dot(b, b), us = dot(um, b); us = us * us / C2; g = sqrtl((s + sqrtl(s * s + 4 * (dot(b, b) + us))) / 2); }
    else g = sqrtl(1 + dot(um, um) / C2);
    w = rot(um, (1 / g) * b) + e;
  }
  return (1 / sqrtl(1 + dot(w, w) / C2)) * w;
}
#if defined(SWITCH_PUSHER_BORIS)
static const char* WHICH = "BORIS";
#elif defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
static const char* WHICH = "ADAPTIVE";
#elif defined(SWITCH_PUSHER_BORIS_RELATIVISTIC)
static const char* WHICH = "RELATIVISTIC";
#elif defined(SWITCH_PUSHER_HC)
static const char* WHICH = "HC";
#else
static const char* WHICH = "VAY";
#endif
static void push(Case& c)
{
  int nr = c.r.range(4, 7), nz = c.r.range(4, 7), r0 = c.r.chance(.5) ? 0 : c.r.range(1, 50), z0 = c.r.chance(.5) ? 0 : c.r.range(1, 50);
  double dr = c.r.logu(1e-5, 1e-2), dz = dr * c.r.logu(.5, 2); Geometry* g = vw::geom(r0, z0, nr, nz, r0 + nr, z0 + nz, dr, dz, {r0 == 0, z0 == 0, true, true}); dr = g->cell_size[0]; dz = g->cell_size[1];
  double dt = std::min(dr, dz) / 3e8 * c.r.uni(.1, .99); TimeSim* t = vw::tsim(dt);
  std::vector<SpecieP*> sp; int ns = c.r.range(1, 3); std::vector<double> Q, M;
  for (int s = 0; s < ns; ++s) { double q = c.r.pick({-1., 1., 2., -3.}), m = c.r.pick({1., 1., 1836., 7344.}); Q.push_back(q * 1.60217662e-19); M.push_back(m * 9.10938356e-31); sp.push_back(vw::specie(g, t, ("s" + std::to_string(s)).c_str(), q, m, 0, 1e15, 1e15, 1, s + 1)); Q[s] = sp[s]->charge; M[s] = sp[s]->mass; }
  Domain* d = new Domain(*g, sp, t); auto* ms = d->maxwell_solver;
  int mode = c.r.range(0, 3); // 0: both, 1: magnetic only, 2: electric only, 3: none
  // strengths in units of the per-step velocity kick and rotation angle of an electron
  double kick = c.r.logu(1e-6, mode == 2 ? 3 : 1) * 3e8, ang = c.r.logu(1e-6, 2), qm = 1.6e-19 / 9.1e-31;
  double EA = kick / qm / dt, HA = 2 * ang / qm / dt / (double)MU0; bool cold = c.r.chance(.4); if (cold || !strcmp(WHICH, "BORIS")) EA *= .01;
  for (int q = 0; q < 3; ++q) for (int i = -2; i < nr + 2; ++i) for (int k = -2; k < nz + 2; ++k) { ms->field_e[q].set((unsigned)i, (unsigned)k, mode == 1 || mode == 3 ? 0 : EA * c.r.uni(-1, 1)); ms->field_h[q].set((unsigned)i, (unsigned)k, mode == 2 || mode == 3 ? 0 : HA * c.r.uni(-1, 1)); }
  struct Was { double r, z, w; V3 v, e, b; size_t cr, cz; int s; }; std::vector<Was> was; std::vector<Particle*> ps;
  for (int s = 0; s < ns; ++s) for (int n = c.r.range(0, 12); n > 0; --n)
  {
    double r = (r0 + c.r.uni(r0 ? 0 : .5, nr)) * dr, z = (z0 + c.r.uni(.5, nz)) * dz, gm, v; std::string kind;
    switch (c.r.range(0, 5)) { case 0: v = 0; kind = "at rest"; break; case 1: v = c.r.logu(1, 1e6); kind = "slow"; break; case 2: v = 5e7 * c.r.uni(.9, 1.1); kind = "near the classical limit"; break; case 3: v = c.r.uni(5e7, 2.9e8); kind = "fast"; break; case 4: gm = c.r.logu(3, c.r.chance(.3) ? 5e3 : 60); v = 3e8 * sqrt(1 - 1 / gm / gm); kind = "ultrarelativistic"; break; default: v = 4.9e7 * c.r.u(); kind = "classical"; }
    if (cold && v > 4.9e7) { v = 4.9e7 * c.r.u(); kind = "classical"; }
    if (!strcmp(WHICH, "BORIS") && v > 1e8) v = 1e8 * c.r.u();
    double th = acos(c.r.uni(-1, 1)), f = c.r.uni(0, 6.2832);
    Particle* p = vw::particle(sp[s], r, z, c.r.logu(1, 1e9), v * sin(th) * cos(f), v * sin(th) * sin(f), v * cos(th));
    if (fabs(v - 5e7) < 100) continue;
    vector3d<double> e = ms->get_field_e(r, z), h = ms->get_field_h(r, z);
    ps.push_back(p); was.push_back({r, z, p->weight, {p->vel_r, p->vel_phi, p->vel_z}, {e[0], e[1], e[2]}, MU0 * V3{h[0], h[1], h[2]}, p->cell_r, p->cell_z, s}); c.saw(kind); c.state(kind + std::to_string(mode) + (cold ? "c" : ""));
  }
  int steps = c.r.range(1, 4); // positions stay, so the field of every particle stays too
  for (int n = 0; n < steps; ++n)
  {
    d->push_particles();
    for (size_t j = 0; j < ps.size(); ++j)
    {
      Particle* p = ps[j]; Was& w = was[j]; L qm2 = (L)Q[w.s] * dt / (2 * (L)M[w.s]); V3 want = scheme(w.v, w.e, w.b, qm2, WHICH), got{p->vel_r, p->vel_phi, p->vel_z};
      L sc = sqrtl(dot(w.v, w.v)) + sqrtl(dot(want, want)) + 1e-30L, tol = 1e-9L * sc; std::string k = sqrtl(dot(w.v, w.v)) > 5e7L ? ":fast" : ":slow";
      L x = sqrtl(dot(want, want)); L cond = 1; if (strcmp(WHICH, "BORIS") && sqrtl(dot(w.v, w.v)) > 5e7L) { L gg = 1 / (1 - std::min((L).999999, dot(w.v, w.v) / C2)); cond = 1 + gg * 1e-4L; } (void)x;
      c.near(p->vel_r, (double)want.x, (double)(tol * cond), "push:r" + k, fmt("radial velocity, mode %d, %s", mode, WHICH)); c.near(p->vel_phi, (double)want.y, (double)(tol * cond), "push:phi" + k, fmt("azimuthal velocity, mode %d", mode)); c.near(p->vel_z, (double)want.z, (double)(tol * cond), "push:z" + k, fmt("axial velocity, mode %d", mode));
      c.ok(p->pos_r == w.r && p->pos_z == w.z && p->weight == w.w && p->cell_r == w.cr && p->cell_z == w.cz, "touched", "push changed more than the velocity");
      if (strcmp(WHICH, "BORIS") && !(cold || k == ":slow")) c.ok(dot(got, got) < C2, "superluminal", fmt("speed %g of light speed", (double)sqrtl(dot(got, got) / C2)));
      L v0 = sqrtl(dot(w.v, w.v)), v1 = sqrtl(dot(got, got));
      if (mode == 1 || mode == 3) { c.near((double)v1, (double)v0, 1e-9 * (double)(v0 * cond), "magnetic:speed" + k, "speed in a purely magnetic field"); c.saw("purely magnetic"); }
      if (mode == 2)
      { // momentum gain is exactly q E dt
        bool rel = strcmp(WHICH, "BORIS") && !(!strcmp(WHICH, "ADAPTIVE") && v0 <= 5e7L); auto mom = [&](V3 v) { return rel ? (1 / sqrtl(1 - std::min(dot(v, v) / C2, (L)(1 - 1e-15)))) * v : v; };
        V3 a = mom(w.v), b = mom(got); L g1 = rel ? 1 / (1 - std::min(dot(got, got) / C2, (L)(1 - 1e-15))) : 1; V3 gain = 2 * qm2 * w.e; L tl = 1e-9L * (sqrtl(dot(a, a)) + sqrtl(dot(b, b))) * (1 + g1);
        if (g1 < 1e4) { c.near((double)(b.x - a.x), (double)gain.x, (double)tl, "electric:r" + k, "radial momentum gain"); c.near((double)(b.y - a.y), (double)gain.y, (double)tl, "electric:phi" + k, "azimuthal momentum gain"); c.near((double)(b.z - a.z), (double)gain.z, (double)tl, "electric:z" + k, "axial momentum gain"); c.saw("purely electric"); }
      }
      w.v = got;
      if (dot(got, got) >= C2 * .99999L || (!strcmp(WHICH, "BORIS") && v1 > 2e8)) return; // beyond the range of the scheme
      if (fabsl(v1 - 5e7L) < 100) return;
    }
  }
  c.saw("pushes", steps * ps.size()); c.sample(fmt("%zu particles of %d species, %s, %d steps, field mode %d", ps.size(), ns, WHICH, steps, mode));
}
// gyration: many small steps return the particle to its velocity after one turn, in the right sense
static void gyrate(Case& c)
{
  double dr = 1e-3, dz = 1e-3; Geometry* g = vw::geom(2000, 0, 5, 5, 2005, 5, dr, dz); dr = g->cell_size[0]; dz = g->cell_size[1]; TimeSim* t = vw::tsim(1e-12);
  double q = c.r.sgn(), v = c.r.pick({1e6, 4e7, 1.5e8, 2.8e8}); if (!strcmp(WHICH, "BORIS")) v = std::min(v, 4e7); SpecieP* s = vw::specie(g, t, "s", q, 1); Domain* d = new Domain(*g, {s}, t); int ax = c.r.range(0, 2);
  Particle* p = vw::particle(s, 2002.3 * dr, 2.7 * dz); double* vv[3] = {&p->vel_r, &p->vel_phi, &p->vel_z}; int a = (ax + 1) % 3, b = (ax + 2) % 3; *vv[a] = v; *vv[b] = 0; *vv[ax] = v < 2e8 ? v * .3 : 0;
  bool rel = strcmp(WHICH, "BORIS") && !(!strcmp(WHICH, "ADAPTIVE") && v * v * (v < 2e8 ? 1.09 : 1) <= 25e14);
  double v2 = v * v * (v < 2e8 ? 1.09 : 1), gm = rel ? 1 / sqrt(1 - v2 / 9e16) : 1; int N = c.r.range(200, 600), sg = c.r.chance(.5) ? 1 : -1;
  for (int i = -2; i < 7; ++i) for (int k = -2; k < 7; ++k) d->maxwell_solver->field_h[ax].set((unsigned)i, (unsigned)k, 1);
  double hloc = d->maxwell_solver->get_field_h(p->pos_r, p->pos_z)[ax], theta = 2 * acos(-1) / N * .25; // quarter turn in N steps
  double H = sg * theta * gm * s->mass / fabs(s->charge) / t->step / (double)MU0 / hloc;
  for (int i = -2; i < 7; ++i) for (int k = -2; k < 7; ++k) d->maxwell_solver->field_h[ax].set((unsigned)i, (unsigned)k, H);
  for (int n = 0; n < N; ++n) d->push_particles();
  c.near(constant::MAGN_CONST, 1.2566e-6, 5e-9, "constant:mu0", "magnetic constant"); c.near(constant::LIGHT_VEL, 2.998e8, 3e5, "constant:c", "light velocity");
  // dv/dt = q/m v x B: with B along ax, a -> -b for q B > 0
  c.near(*vv[b], -(q * sg) * v, .01 * v, "gyration:sense", fmt("velocity after a quarter turn about axis %d", ax)); c.near(*vv[a], 0, .01 * v, "gyration:angle", "velocity after a quarter turn"); c.near(*vv[ax], v < 2e8 ? v * .3 : 0, 1e-9 * v, "gyration:parallel", "velocity along the field"); c.saw("gyrations"); c.state(fmt("%d%g%d%d", ax, v, sg, (int)q));
}
int main(int argc, char** argv) { return run(argc, argv, "pusher", {{"push", 12, push}, {"gyrate", 1, gyrate}}); }
