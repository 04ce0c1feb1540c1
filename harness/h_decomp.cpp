// P01: the same world stepped under a decomposition and as one domain; P02: identity ledger of all the particles
#include "vsmb.hpp"
#include "vtwin.hpp"
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace vh;
static void threads(Case& c)
{
#ifdef _OPENMP
  int n = c.r.range(1, 8); omp_set_num_threads(n); c.saw(fmt("runs with %s", n == 1 ? "one thread" : "several threads"));
#endif
}
static void split(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c);
  std::vector<vw::Seedling> ps = vw::random_particles(c, w); vw::Table fields(c, w);
  vw::World one = w; one.rd = one.zd = 1;
  Cfg* ca = vw::config(one, "a.json"); Cfg* cb = vw::config(w, "b.json"); SMB* a = vw::smb(ca); SMB* b = vw::smb(cb); threads(c);
  fields.load(a, w); fields.load(b, w); vw::plant(a, ps); vw::plant(b, ps);
  int steps = c.r.chance(.2) && fields.weak ? c.r.range(20, 60) : c.r.range(1, 15); long jumps = 0, corner = 0; std::map<uint64_t, std::pair<int, int>> at;
  c.state(fmt("%d/%d of %d/%d rest %d/%d pml%d beam%d", w.rd, w.zd, w.nr / w.rd, w.nz / w.zd, w.nr % w.rd, w.nz % w.zd, w.pl + w.pr + w.po > 0, (int)w.beams.size()));
  for (int s = 0; s < steps; ++s)
  {
    for (SMB* m : {a, b}) { m->solve_maxvell(); m->advance_particles(); m->solve_current(); }
    // grids: every interior node of the decomposed world against the same node of the single domain
    Domain* u = a->domains(0, 0);
    struct G { const char* n; Grid3D<double>*(*f)(Domain*); }; static const G gs[] = {
      {"electric", [](Domain* d) { return &d->maxwell_solver->field_e; }}, {"magnetic", [](Domain* d) { return &d->maxwell_solver->field_h; }},
      {"magnetic at electric time", [](Domain* d) { return &d->maxwell_solver->field_h_at_et; }}, {"current", [](Domain* d) { return &d->current->current; }}};
    static const char* rn[] = {"r", "phi", "z"};
    for (auto& q : gs) for (int comp = 0; comp < 3; ++comp)
    {
      Grid3D<double>& x = *q.f(u); double scale = 0; for (int i = 0; i < w.nr; ++i) for (int k = 0; k < w.nz; ++k) for (int m = 0; m < 3; ++m) scale = std::max(scale, fabs(x(m, i, k)));
      double worst = 0; std::string where; double tol = (s < 15 ? 1e-7 : 1e-5) * scale + 1e-300; bool fin = true;
      for (unsigned p = 0; p < b->r_domains; ++p) for (unsigned r = 0; r < b->z_domains; ++r)
      {
        Domain* d = b->domains(p, r); Grid3D<double>& y = *q.f(d); auto& cd = d->geometry.cell_dims;
        for (int i = cd[0]; i < (int)cd[2]; ++i) for (int k = cd[1]; k < (int)cd[3]; ++k)
        {
          double e = fabs(y(comp, i - cd[0], k - cd[1]) - x(comp, i, k)); if (!std::isfinite(e)) fin = false;
          if (e > worst || !std::isfinite(e)) { worst = e; where = fmt("node %d,%d (domain %u,%u of %dx%d, its node %d,%d), step %d: %.9g in single domain, %.9g here, scale %.3g", i, k, p, r, w.rd, w.zd, i - (int)cd[0], k - (int)cd[1], s, x(comp, i, k), y(comp, i - cd[0], k - cd[1]), scale); }
        }
      }
      if (!c.ok(fin && worst <= tol, fmt("grid:%s", q.n), fmt("%s field component %s differs at %s", q.n, rn[comp], where.c_str()))) { vw::drop(a); vw::drop(b); return; }
      c.saw("nodes compared", w.nr * w.nz);
    }
    auto pa = vw::census(a), pb = vw::census(b); double dr = w.R / w.nr, dz = w.Z / w.nz, tp = s < 15 ? 1e-6 : 1e-5;
    c.ok(pa.n == pb.n && pa.at.size() == pb.at.size(), "particles:amount", fmt("%ld particles in single domain, %ld in %dx%d domains at step %d", pa.n, pb.n, w.rd, w.zd, s));
    for (auto& x : pa.at)
    {
      auto y = pb.at.find(x.first); if (y == pb.at.end()) { c.fail("particles:lost", fmt("particle of weight %.17g is only in the single domain at step %d", x.second.p->weight, s)); continue; }
      Particle *p = x.second.p, *q = y->second.p;
      bool okp = fabs(p->pos_r - q->pos_r) < tp * dr && fabs(p->pos_z - q->pos_z) < tp * dz, okv = fabs(p->vel_r - q->vel_r) + fabs(p->vel_phi - q->vel_phi) + fabs(p->vel_z - q->vel_z) < tp * 3e8;
      c.ok(okp && okv, okp ? "particles:velocity" : "particles:position", fmt("step %d: %.12g,%.12g v %.9g,%.9g,%.9g in single domain, %.12g,%.12g v %.9g,%.9g,%.9g in domain %d,%d of %dx%d", s, p->pos_r / dr, p->pos_z / dz, p->vel_r, p->vel_phi, p->vel_z, q->pos_r / dr, q->pos_z / dz, q->vel_r, q->vel_phi, q->vel_z, y->second.i, y->second.j, w.rd, w.zd));
      c.ok(x.second.sp->id == y->second.sp->id, "particles:specie", "particle changed its specie");
      auto o = at.find(x.first); std::pair<int, int> now{y->second.i, y->second.j};
      if (o != at.end() && o->second != now) { ++jumps; if (o->second.first != now.first && o->second.second != now.second) ++corner; }
      at[x.first] = now; c.saw("trajectory points compared");
    }
  }
  c.saw("jumps", jumps); c.saw("corner jumps", corner); c.saw("steps", steps); if (w.pl + w.pr + w.po > 0) c.saw("with absorbing layers"); if (w.nr % w.rd || w.nz % w.zd) c.saw("uneven splits");
  c.sample(fmt("%dx%d cells in %dx%d domains, %d particles, %d steps, %ld jumps", w.nr, w.nz, w.rd, w.zd, (int)ps.size(), steps, jumps)); vw::drop(a); vw::drop(b);
}
// ---- P02 ----
static void ledger_check(Case& c, SMB* b, const vw::World& w, std::map<uint64_t, vw::Seedling>& book, const char* when, int step, bool exact)
{
  double dr = b->geometry->cell_size[0], dz = b->geometry->cell_size[1]; auto now = vw::census(b);
  c.ok(now.dup.empty(), "duplicate", fmt("%s, step %d: particle is held %s", when, step, now.dup.c_str()));
  for (auto& x : now.at)
  {
    Particle* p = x.second.p; auto o = book.find(x.first);
    if (!c.ok(o != book.end(), "unknown", fmt("%s, step %d: particle of weight %.17g at %g,%g appeared or its weight changed", when, step, p->weight, p->pos_r / dr, p->pos_z / dz))) continue;
    c.ok(x.second.sp->name == o->second.specie, "specie", fmt("%s, step %d: particle of %s is now in %s", when, step, o->second.specie.c_str(), x.second.sp->name.c_str()));
    if (exact) c.ok(p->pos_r == o->second.r && p->pos_z == o->second.z && p->vel_r == o->second.vr && p->vel_phi == o->second.vp && p->vel_z == o->second.vz, "altered", fmt("%s: transfer changed the particle at %.17g,%.17g", when, p->pos_r, p->pos_z));
    double ir = p->pos_r / dr, iz = p->pos_z / dz, e = 1e-9; Domain* d = b->domains(x.second.i, x.second.j); auto& q = d->geometry.cell_dims;
    c.ok(ir >= q[0] - e && ir < q[2] + e && iz >= q[1] - e && iz < q[3] + e, "misplaced", fmt("%s, step %d: particle at cell %.9g,%.9g is held by domain %d,%d of %dx%d with cells %zu..%zu, %zu..%zu", when, step, ir, iz, x.second.i, x.second.j, w.rd, w.zd, q[0], q[2], q[1], q[3]));
    c.ok(x.second.n == 1, "duplicate", "particle is held more than once"); c.saw("particles located");
  }
}
static void transfer(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c); Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); threads(c); double dr = cf->geometry->cell_size[0], dz = cf->geometry->cell_size[1];
  std::map<uint64_t, vw::Seedling> book; int n = c.r.range(1, 400); long outs = 0, moves = 0, far = 0; double fo = c.r.pick({0., .02, .3});
  std::vector<std::string> names; for (auto s : b->domains(0, 0)->species_p) names.push_back(s->name);
  for (int k = 0; k < n; ++k)
  {
    int si = c.r.range(0, (int)names.size() - 1); vw::Seedling x; x.specie = names[si]; x.w = 1 + k + c.r.u(); x.vr = c.r.uni(-1, 1) * 1e8; x.vp = c.r.uni(-1, 1) * 1e8; x.vz = c.r.uni(-1, 1) * 1e8;
    // where the particle is held, and where it is
    int i = c.r.range(0, w.rd - 1), j = c.r.range(0, w.zd - 1); auto& q = b->domains(i, j)->geometry.cell_dims; double ir, iz; int mode = c.r.range(0, 5);
#ifdef _OPENMP
    if (!mode) mode = 3; // a particle flies less than a cell per step, and so never over a whole domain
#endif
   
    if (mode == 0) { ir = c.r.uni(0, w.nr); iz = c.r.uni(0, w.nz); }
    else if (mode < 3) { ir = c.r.pick({(double)q[0], (double)q[2]}) + c.r.uni(-1, 1); iz = c.r.pick({(double)q[1], (double)q[3]}) + c.r.uni(-1, 1); }
    else if (mode == 3) { ir = c.r.uni(q[0] - 1., q[2] + 1.); iz = c.r.uni(q[1] - 1., q[3] + 1.); }
    else { ir = c.r.range((int)q[0] - 1, (int)q[2]) + .5; iz = c.r.range((int)q[1] - 1, (int)q[3]) + .5; }
    bool out = ir < 0 || iz < 0 || ir >= w.nr || iz >= w.nz; if (out && !c.r.chance(fo * 3)) { ir = std::min(std::max(ir, .01), w.nr - .01); iz = std::min(std::max(iz, .01), w.nz - .01); out = false; }
    if (!out && c.r.chance(fo)) { (c.r.chance(.5) ? ir : iz) = c.r.chance(.5) ? -c.r.uni(.01, 3) : std::max(w.nr, w.nz) + c.r.uni(.01, 3); out = true; }
    x.r = ir * dr; x.z = iz * dz; SpecieP* sp = b->domains(i, j)->species_p[si]; Particle* p = vw::particle(sp, x.r, x.z, x.w, x.vr, x.vp, x.vz);
    if (fabs(ir - floor(ir + .5)) < 1e-6) x.r = p->pos_r = (floor(ir) + .5) * dr; if (fabs(iz - floor(iz + .5)) < 1e-6) x.z = p->pos_z = (floor(iz) + .5) * dz;
    sp->bind_cell_numbers();
    bool inside = x.r >= 0 && x.z >= 0 && x.r < w.nr * dr && x.z < w.nz * dz;
    if (inside) { book[vw::key(x.w)] = x; Domain* o = vw::owner(b, (int)floor(x.r / dr), (int)floor(x.z / dz)); if (o != b->domains(i, j)) { ++moves; if (labs((long)o->geometry.cell_dims[0] - (long)q[0]) + labs((long)o->geometry.cell_dims[1] - (long)q[1]) > w.nr / w.rd + w.nz / w.zd + 2) ++far; } } else ++outs;
  }
  b->particles_runaway_collector(); ledger_check(c, b, w, book, "transfer", 0, true);
  auto now = vw::census(b); c.ok(now.at.size() == book.size() && now.n == (long)book.size(), "lost", fmt("%zu particles are inside, %ld are held after the transfer over %dx%d domains (%ld have left)", book.size(), now.n, w.rd, w.zd, outs));
  b->particles_runaway_collector(); auto again = vw::census(b); c.ok(again.n == now.n, "lost", "second transfer changed the amount of particles"); ledger_check(c, b, w, book, "second transfer", 0, true);
  c.saw("transfers", moves); c.saw("distant transfers", far); c.saw("out of region", outs); c.state(fmt("t %d/%d rest %d/%d out%d far%d", w.rd, w.zd, w.nr % w.rd, w.nz % w.zd, outs > 0, far > 0)); vw::drop(b);
  c.sample(fmt("%d particles of %zu species over %dx%d domains: %ld transfers, %ld left the region", n, names.size(), w.rd, w.zd, moves, outs));
}
static void history(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c); std::vector<vw::Seedling> ps = vw::random_particles(c, w); vw::Table fields(c, w);
  Cfg* cf = vw::config(w); SMB* b = vw::smb(cf); threads(c); if (c.r.chance(.7)) fields.load(b, w); vw::plant(b, ps); double dr = cf->geometry->cell_size[0], dz = cf->geometry->cell_size[1];
  std::map<uint64_t, vw::Seedling> book; for (auto& p : ps) book[vw::key(p.w)] = p; int steps = c.r.range(3, 60); long left = 0;
  for (int s = 0; s < steps; ++s)
  {
    b->solve_maxvell(); b->advance_particles(); b->solve_current(); ledger_check(c, b, w, book, "history", s, false);
    auto now = vw::census(b);
    for (auto it = book.begin(); it != book.end();)
    {
      auto y = now.at.find(it->first);
      if (y == now.at.end())
      {
        // may only have left the region: within a flight of light of an edge that does not reflect its specie
        double reach = 3e8 * w.dt; bool beam = it->second.specie.find("beam_") == 0; double x = it->second.r, z = it->second.z;
        c.ok(beam && (x + reach >= w.nr * dr || z + reach >= w.nz * dz || z - reach <= 0), "lost", fmt("step %d: particle of %s, last seen at cell %.6g,%.6g of %dx%d, has disappeared (%dx%d domains)", s, it->second.specie.c_str(), x / dr, z / dz, w.nr, w.nz, w.rd, w.zd));
        ++left; it = book.erase(it);
      }
      else { it->second.r = y->second.p->pos_r; it->second.z = y->second.p->pos_z; ++it; }
    }
  }
  c.saw("history steps", steps); c.saw("beam particles that left", left); c.state(fmt("h %d/%d rest %d/%d left%d", w.rd, w.zd, w.nr % w.rd, w.nz % w.zd, left > 0)); vw::drop(b);
}
int main(int argc, char** argv)
{
#ifdef DECOMP_LEDGER
  return run(argc, argv, "ledger", {{"transfer", 3, transfer, true}, {"history", 2, history, true}});
#else
  return run(argc, argv, "decomp", {{"split", 1, split, true}});
#endif
}
