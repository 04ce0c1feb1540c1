// P09: motion, return to the r-z plane, wall reflection and cell binding
#include "vworld.hpp"
#include "domain.hpp"
#include "beamP.hpp"
using namespace vh;
typedef long double L;
struct Ref { L r, ph, z, vr, vp, vz; double w; int sp; bool beam, vr_any, vz_any; };
static int fold(L& x, L lo, bool wlo, L hi, bool whi)
{
  int n = 0;
  while ((wlo && x < lo) || (whi && x > hi)) { if (wlo && x < lo) { x = 2 * lo - x; ++n; } if (whi && x > hi) { x = 2 * hi - x; ++n; } }
  return n;
}
static void step(Case& c)
{
  int nr = c.r.range(4, 9), nz = c.r.range(4, 9), r0 = c.r.chance(.5) ? 0 : c.r.range(1, 300), z0 = c.r.chance(.5) ? 0 : c.r.range(1, 1000);
  bool outer = c.r.chance(.5), right = c.r.chance(.5);
  double dr = c.r.logu(1e-6, 1e-1), dz = dr * c.r.logu(.2, 5);
  std::vector<bool> walls = {r0 == 0, z0 == 0, outer, right};
  Geometry* g = vw::geom(r0, z0, nr, nz, r0 + nr + (outer ? 0 : 7), z0 + nz + (right ? 0 : 7), dr, dz, walls);
  dr = g->cell_size[0]; dz = g->cell_size[1];
  double dt = std::min(dr, dz) / 3e8 * c.r.uni(.1, .99) * (c.r.chance(.2) ? c.r.uni(1, 12) : 1);
  TimeSim* t = vw::tsim(dt);
  std::vector<SpecieP*> sp;
  int ns = c.r.range(1, 3);
  for (int s = 0; s < ns; ++s)
    if (s && c.r.chance(.4)) sp.push_back(new BeamP(s + 1, "beam_" + std::to_string(s), -1, 1, 0, 0, dr, 1e15, 1, dz, dz, 1e8, g, t));
    else sp.push_back(vw::specie(g, t, ("sp" + std::to_string(s)).c_str(), -1, 1, 0, 1e15, 1e15, 1, s + 1));
  Domain* d = new Domain(*g, sp, t);
  std::vector<Ref> ref; std::vector<Particle*> ps;
  for (int s = 0; s < ns; ++s) for (int n = c.r.range(0, 12); n > 0; --n)
  {
    bool beam = sp[s]->name.find("beam_") == 0;
    double lo_r = walls[0] ? .5 : 0, hi_r = nr - (outer ? .5 : 0), lo_z = walls[1] ? .5 : 0, hi_z = nz - (right ? .5 : 0);
    double r = (r0 + c.r.uni(lo_r, hi_r)) * dr, z = (z0 + c.r.uni(lo_z, hi_z)) * dz;
    double v = c.r.chance(.3) ? c.r.logu(1, 3e8) : 3e8 * c.r.u(), th = acos(c.r.uni(-1, 1)), f = c.r.uni(0, 6.2832);
    double vr = v * sin(th) * cos(f), vp = v * sin(th) * sin(f), vz = v * cos(th); std::string kind = "generic";
    switch (c.r.range(0, 11))
    {
    case 0: if (r0 == 0) { r = dr / 2; vr = -fabs(vr); kind = "towards the axis"; } break;
    case 1: if (r0 == 0) { r = 0; kind = "on the axis"; } break;
    case 2: if (r0 == 0) { r = dr * c.r.uni(.5, 1); vr = -r / dt * c.r.uni(.5, 1.9); vp = c.r.sgn() * c.r.logu(1, 1e6); kind = "over the axis"; } break;
    case 3: if (r0 == 0) { r = dr * .75; vr = -r / dt; vp = 0; kind = "exactly onto the axis"; } break;
    case 4: if (outer) { r = (r0 + nr - .5 - c.r.uni(0, 1)) * dr; vr = fabs(vr); kind = "towards the outer wall"; } break;
    case 5: if (right) { z = (z0 + nz - .5 - c.r.uni(0, .5)) * dz; vz = fabs(vz); kind = "towards the right wall"; } break;
    case 6: if (z0 == 0) { z = dz * c.r.uni(.5, 1); vz = -fabs(vz); kind = "towards the left wall"; } break;
    case 7: if (z0 == 0) { z = 0; vz = 0; kind = "at zero"; } break;
    case 8: vr = vp = vz = 0; kind = "at rest"; break;
    case 9: vp = c.r.sgn() * 3e8 * c.r.uni(.5, 1); vr = vz = 0; kind = "azimuthal"; break;
    case 10: vr = c.r.sgn() * nr * dr / dt * c.r.uni(1, 4); vz = c.r.sgn() * nz * dz / dt * c.r.uni(1, 4); kind = "through the whole domain"; break;
    case 11: if (right && outer) { r = (r0 + nr - .6) * dr; z = (z0 + nz - .6) * dz; vr = dr / dt * c.r.uni(0, .9); vz = dz / dt * c.r.uni(0, .9); kind = "into the corner"; } break;
    }
    Particle* p = vw::particle(sp[s], r, z, c.r.logu(1, 1e9), vr, vp, vz); p->pos_phi = 0; p->pos_old_phi = 0; p->mark = 0;
    ps.push_back(p); ref.push_back({r, 0, z, vr, vp, vz, p->weight, s, beam, false, false});
    c.saw(kind + (beam ? " (beam)" : "")); c.state(kind + (beam ? "b" : "") + (r0 ? "" : "A") + (z0 ? "" : "L") + (outer ? "O" : "") + (right ? "R" : ""));
  }
  c.sample(fmt("%zu particles of %d species in %dx%d cells from %d,%d", ps.size(), ns, nr, nz, r0, z0));
  L sr = (r0 + nr) * dr, sz = (z0 + nz) * dz, big = 0; for (auto& q : ref) big = std::max({big, fabsl(q.vr) * dt, fabsl(q.vp) * dt, fabsl(q.vz) * dt});
  double tp = 1e-11 * (double)(sr + sz + big);
  auto same = [&](const char* ph, bool pos, bool vel, bool old)
  {
    for (size_t j = 0; j < ps.size(); ++j)
    {
      Particle* p = ps[j]; Ref& q = ref[j]; std::string k = std::string(ph) + (q.beam ? ":beam" : "");
      if (pos) { c.near(p->pos_r, (double)q.r, tp, k + ":r", "radial position"); c.near(p->pos_phi, (double)q.ph, tp, k + ":phi", "azimuthal position"); c.near(p->pos_z, (double)q.z, tp, k + ":z", "axial position"); }
      double tv = 1e-9 * (double)(fabsl(q.vr) + fabsl(q.vp) + fabsl(q.vz));
      if (vel)
      {
        c.near(q.vr_any ? fabs(p->vel_r) : p->vel_r, (double)(q.vr_any ? fabsl(q.vr) : q.vr), tv, k + ":vr", fmt("radial velocity of particle %zu", j));
        c.near(p->vel_phi, (double)q.vp, tv, k + ":vphi", "azimuthal velocity");
        c.near(q.vz_any ? fabs(p->vel_z) : p->vel_z, (double)(q.vz_any ? fabsl(q.vz) : q.vz), tv, k + ":vz", "axial velocity");
      }
      c.ok(p->weight == q.w, k + ":weight", "weight changed");
    }
    size_t k = 0; for (int s = 0; s < ns; ++s) { for (auto p : sp[s]->particles) { c.ok(k < ps.size() && ps[k] == p, std::string(ph) + ":set", "set of particles changed"); ++k; } }
  };
  std::vector<std::array<double, 3>> old;
  int steps = c.r.range(1, 3);
  for (int n = 0; n < steps; ++n)
  {
    for (auto& q : ref) q.vr_any = q.vz_any = false;
    if (n) { ref.clear(); for (auto p : ps) { bool beam = false; int s = p->specie_id - 1; beam = sp[s]->name.find("beam_") == 0; ref.push_back({p->pos_r, p->pos_phi, p->pos_z, p->vel_r, p->vel_phi, p->vel_z, p->weight, s, beam, false, false}); } }
    d->dump_particle_positions_to_old();
    for (auto p : ps) c.ok(p->pos_old_r == p->pos_r && p->pos_old_phi == p->pos_phi && p->pos_old_z == p->pos_z, "old", "old position is not the position before the move");
    same("old", true, true, false);
    std::vector<std::array<double, 3>> before; for (auto p : ps) before.push_back({p->pos_old_r, p->pos_old_phi, p->pos_old_z});
    d->update_particles_coords();
    for (auto& q : ref) { q.r += q.vr * dt; q.ph += q.vp * dt; q.z += q.vz * dt; }
    same("move", true, true, false);
    d->particles_back_position_to_rz();
    std::vector<std::array<L, 2>> xy;
    for (auto& q : ref) { xy.push_back({q.r, q.ph}); q.r = sqrtl(q.r * q.r + q.ph * q.ph); q.ph = 0; }
    same("to plane", true, true, false);
    d->particles_back_velocity_to_rz();
    for (size_t j = 0; j < ref.size(); ++j)
    {
      Ref& q = ref[j]; L x = xy[j][0], y = xy[j][1], R = q.r, a = q.vr, b = q.vp;
      if (R < 1e-9L * dr) { // on the axis the direction is arbitrary: only the speed counts
        c.near(hypot(ps[j]->vel_r, ps[j]->vel_phi), (double)hypotl(a, b), 1e-9 * (double)hypotl(a, b), "axis:speed", "speed of particle on the axis"); q.vr = ps[j]->vel_r; q.vp = ps[j]->vel_phi; c.saw("landed on the axis"); continue; }
      q.vr = (x * a + y * b) / R; q.vp = (x * b - y * a) / R;
      if (R < 1e-4L * dr) { q.vr = ps[j]->vel_r; q.vp = ps[j]->vel_phi; } // ill-conditioned direction
    }
    same("rotate", true, true, false);
    // positions given to reflect are the code's own, to be free of rounding at the walls
    for (size_t j = 0; j < ps.size(); ++j) { ref[j].r = ps[j]->pos_r; ref[j].z = ps[j]->pos_z; }
    d->reflect();
    for (size_t j = 0; j < ref.size(); ++j)
    {
      Ref& q = ref[j]; L lr = r0 * dr + dr / 2, hr = (r0 + nr) * (L)dr - dr / 2, lz = z0 * dz + dz / 2, hz = (z0 + nz) * (L)dz - dz / 2;
      auto close = [&](L x, L w, bool on) { return on && fabsl(x - w) < tp * 4; };
      bool h = !q.beam;
      q.vr_any = close(q.r, lr, walls[0]) || close(q.r, hr, outer && h); q.vz_any = h && (close(q.z, lz, walls[1]) || close(q.z, hz, right));
      int a = fold(q.r, lr, walls[0], hr, outer && h), b = h ? fold(q.z, lz, walls[1], hz, right) : 0;
      if (close(q.r, lr, walls[0]) || close(q.r, hr, outer && h)) q.vr_any = true;
      if (h && (close(q.z, lz, walls[1]) || close(q.z, hz, right))) q.vz_any = true;
      if (a & 1) q.vr = -q.vr; if (b & 1) q.vz = -q.vz;
      if (a || b) c.saw(a > 1 || b > 1 ? "multiple reflections" : a && b ? "corner reflections" : "reflections"); else c.saw("no reflection");
      if (h) { c.ok((!walls[0] || ps[j]->pos_r >= lr - tp) && (!outer || ps[j]->pos_r <= hr + tp) && (!walls[1] || ps[j]->pos_z >= lz - tp) && (!right || ps[j]->pos_z <= hz + tp), "reflect:outside", "particle is behind a reflecting wall"); }
    }
    same("reflect", true, true, false);
    d->bind_cell_numbers();
    same("bind", true, true, false);
    for (size_t j = 0; j < ps.size(); ++j)
    {
      Particle* p = ps[j];
      double a = p->pos_r / dr - (double)(long)p->cell_r, b = p->pos_z / dz - (double)(long)p->cell_z, e = 1e-9;
      c.ok(a >= -e && a <= 1 + e && (int)p->cell_r == (int)floor(p->pos_r / dr + (a < .5 ? e : -e)), "cell:r", fmt("radial cell %ld of position %.17g cells", (long)p->cell_r, p->pos_r / dr));
      c.ok(b >= -e && b <= 1 + e, "cell:z", fmt("axial cell %ld of position %.17g cells", (long)p->cell_z, p->pos_z / dz));
      c.ok(p->pos_old_r == before[j][0] && p->pos_old_phi == before[j][1] && p->pos_old_z == before[j][2], "old:kept", "old position changed during the step");
      if (p->pos_z < 0) c.saw("left the region at the left");
    }
    // next step needs particles near the domain only
    for (size_t j = 0; j < ps.size(); ++j) if (ps[j]->pos_r > sr * 50 || fabs(ps[j]->pos_z) > sz * 50) return;
  }
}
// the cell of a position in the middle of nowhere: all integer cells, negative ones included
static void cells(Case& c)
{
  double dr = c.r.logu(1e-6, 1), dz = c.r.logu(1e-6, 1); Geometry* g = vw::geom(0, 0, 4, 4, 4, 4, dr, dz); dr = g->cell_size[0]; dz = g->cell_size[1];
  SpecieP* s = vw::specie(g, vw::tsim(1e-12)); std::vector<std::array<int, 2>> want;
  for (int n = 0; n < 50; ++n)
  {
    int i = c.r.range(0, 100000), k = c.r.chance(.3) ? c.r.range(-5, -1) : c.r.range(0, 100000); double f = c.r.pick({.5, 1e-6, 1 - 1e-6, .25});
    want.push_back({i, k}); vw::particle(s, (i + f) * dr, (k + f) * dz)->cell_r = 77; c.state(k < 0 ? "negative" : "positive"); c.saw(k < 0 ? "negative cell" : "positive cell");
  }
  s->bind_cell_numbers();
  for (size_t n = 0; n < want.size(); ++n) c.ok((int)s->particles[n]->cell_r == want[n][0] && (int)s->particles[n]->cell_z == want[n][1], "cell", fmt("cell %d,%d bound as %d,%d", want[n][0], want[n][1], (int)s->particles[n]->cell_r, (int)s->particles[n]->cell_z));
  delete s;
}
int main(int argc, char** argv) { return run(argc, argv, "motion", {{"step", 8, step}, {"cells", 1, cells}}); }
