// P24: the same world on several nodes (stand-in for MPI: shim/mpi.h), and on one node as one domain
#include <mpi.h>
#include "vsmb.hpp"
#include "vtwin.hpp"
#include <thread>
using namespace vh;
namespace
{
  // what the main program makes of the geometry for one node
  SMB* node(Cfg* c, int rank, int n)
  {
    Geometry* g = c->geometry; size_t cells = g->cell_amount[1], doms = g->domains_amount[1]; size_t b = cells * rank / n, e = cells * (rank + 1) / n; double dz = g->cell_size[1];
    g->cell_amount[1] = e - b; g->domains_amount[1] = doms * (rank + 1) / n - doms * rank / n; g->cell_dims[1] = b; g->cell_dims[3] = e; g->size[1] = dz * (e - b);
    if (rank < n - 1) g->walls[3] = false; if (rank > 0) g->walls[1] = false;
    return new SMB(c, g, c->time, rank, n);
  }
  // every node runs f at once; false if they could not get through
  template <class F> bool all(Case& c, int n, const char* what, F f)
  {
    vmpi::W* w = vmpi::world(); for (int r = 0; r < n; ++r) { w->w[r] = {0, 0, 0}; }
    std::vector<std::thread> t; for (int r = 0; r < n; ++r) t.emplace_back([&, r] { vmpi::me = r; try { f(r); } catch (MPI::Exception&) {} vmpi::ended(); });
    for (auto& x : t) x.join();
    if (w->broken) { c.fail(w->broken == 2 ? "deadlock" : "protocol", fmt("%s on %d nodes (%s): %s", what, n, w->sync ? "a send ends when it is received" : "sends are buffered", w->why)); return false; }
    return c.ok(!vmpi::pending(w), "unreceived", fmt("%s: %llu bytes were sent and never received", what, (unsigned long long)vmpi::pending(w)));
  }
  struct Nodes
  {
    std::vector<SMB*> s; std::vector<Cfg*> cf;
    Nodes(const vw::World& w, int n) { for (int r = 0; r < n; ++r) { cf.push_back(vw::config(w, fmt("n%d.json", r))); s.push_back(node(cf.back(), r, n)); } }
    void plant(const std::vector<vw::Seedling>& ps)
    {
      double dr = s[0]->geometry->cell_size[0], dz = s[0]->geometry->cell_size[1];
      for (auto& p : ps) for (auto b : s) if (Domain* d = vw::owner(b, (int)floor(p.r / dr), (int)floor(p.z / dz))) vw::particle(vw::find(d, p.specie), p.r, p.z, p.w, p.vr, p.vp, p.vz);
      for (auto m : s) for (unsigned a = 0; a < m->r_domains; ++a) for (unsigned b = 0; b < m->z_domains; ++b) for (auto x : m->domains(a, b)->species_p) x->bind_cell_numbers();
    }
    ~Nodes() { for (auto x : s) vw::drop(x); }
  };
  vw::World many(Case& c, int& n)
  {
    vw::World w = vw::random_world(c); n = c.r.pick({2, 2, 3, 4}); double dz = w.Z / w.nz; int per = c.r.pick({1, 1, 2, 3}); if (n * per % 2) ++per; w.zd = n * per;
    w.nz = w.zd * 4 + (c.r.chance(.4) ? 0 : c.r.range(0, 3 * w.zd)); w.Z = dz * w.nz; return w;
  }
}
static void nodes(Case& c)
{
  vw::quiet(); int n; vw::World w = many(c, n); std::vector<vw::Seedling> ps = vw::random_particles(c, w); vw::Table fields(c, w);
  vw::World one = w; one.rd = one.zd = 1; vmpi::W* mw = vmpi::make(n, c.r.chance(.5)); vmpi::world() = mw;
  Cfg* ca = vw::config(one, "a.json"); SMB* a = vw::smb(ca); vmpi::W* solo = vmpi::make(1, false);
  { Nodes b(w, n); fields.load(a, w); for (auto m : b.s) fields.load(m, w); vw::plant(a, ps); b.plant(ps);
  int steps = c.r.chance(.2) && fields.weak ? c.r.range(20, 40) : c.r.range(1, 12); long crossed = 0; std::map<uint64_t, int> at; bool stop = false;
  c.state(fmt("n%d %d/%d of %d/%d rest %d/%d/%d pml%d beam%d sync%d", n, w.rd, w.zd, w.nr / w.rd, w.nz / w.zd, w.nr % w.rd, w.nz % w.zd, w.nz % n, w.pl + w.pr + w.po > 0, (int)w.beams.size(), (int)mw->sync));
  for (int s = 0; s < steps && !stop; ++s)
  {
    vmpi::world() = solo; vmpi::me = 0; a->solve_maxvell(); a->advance_particles(); a->solve_current(); vmpi::world() = mw;
    if (!all(c, n, "a step", [&](int r) { b.s[r]->solve_maxvell(); b.s[r]->advance_particles(); b.s[r]->solve_current(); })) break;
    Domain* u = a->domains(0, 0);
    struct G { const char* n; Grid3D<double>*(*f)(Domain*); }; static const G gs[] = {
      {"electric", [](Domain* d) { return &d->maxwell_solver->field_e; }}, {"magnetic", [](Domain* d) { return &d->maxwell_solver->field_h; }},
      {"magnetic at electric time", [](Domain* d) { return &d->maxwell_solver->field_h_at_et; }}, {"current", [](Domain* d) { return &d->current->current; }}};
    static const char* rn[] = {"r", "phi", "z"};
    for (auto& q : gs) for (int comp = 0; comp < 3 && !stop; ++comp)
    {
      Grid3D<double>& x = *q.f(u); double scale = 0; for (int i = 0; i < w.nr; ++i) for (int k = 0; k < w.nz; ++k) for (int m = 0; m < 3; ++m) scale = std::max(scale, fabs(x(m, i, k)));
      double worst = 0; std::string where; double tol = (s < 15 ? 1e-7 : 1e-5) * scale + 1e-300; bool fin = true;
      for (int r = 0; r < n; ++r) for (unsigned p = 0; p < b.s[r]->r_domains; ++p) for (unsigned t = 0; t < b.s[r]->z_domains; ++t)
      {
        Domain* d = b.s[r]->domains(p, t); Grid3D<double>& y = *q.f(d); auto& cd = d->geometry.cell_dims;
        // the nodes around the domain, which its particles feel too, are those of its neighbours
        for (int i = cd[0]; i < (int)cd[2] + 1; ++i) for (int k = (int)cd[1] - 1; k < (int)cd[3] + 1; ++k)
        {
          if (i >= w.nr || k < 0 || k >= w.nz) continue; if (gs + 3 == &q && (i == (int)cd[2] || k < (int)cd[1] || k == (int)cd[3])) continue;
          double e = fabs(y(comp, i - (int)cd[0], k - (int)cd[1]) - x(comp, i, k)); if (!std::isfinite(e)) fin = false;
          if (e > worst || !std::isfinite(e)) { worst = e; where = fmt("node %d,%d (MPI node %d of %d, its domain %u,%u of %ux%u, cells %zu..%zu, %zu..%zu), step %d: %.9g on a single node, %.9g here, scale %.3g", i, k, r, n, p, t, b.s[r]->r_domains, b.s[r]->z_domains, cd[0], cd[2], cd[1], cd[3], s, x(comp, i, k), y(comp, i - (int)cd[0], k - (int)cd[1]), scale); }
        }
      }
      if (!c.ok(fin && worst <= tol, fmt("grid:%s", q.n), fmt("%s field component %s differs at %s", q.n, rn[comp], where.c_str()))) stop = true;
      c.saw("nodes compared", w.nr * w.nz);
    }
    if (stop) break;
    auto pa = vw::census(a); std::vector<vw::Census> pb; long total = 0; for (auto m : b.s) { pb.push_back(vw::census(m)); total += pb.back().n; }
    c.ok(pa.n == total, "particles:amount", fmt("%ld particles on a single node, %ld on %d nodes at step %d", pa.n, total, n, s)); double dr = w.R / w.nr, dz = w.Z / w.nz, tp = s < 15 ? 1e-6 : 1e-5;
    for (auto& x : pa.at)
    {
      int r = 0; while (r < n && !pb[r].at.count(x.first)) ++r;
      if (r == n) { c.fail("particles:lost", fmt("particle of weight %.17g is only on the single node at step %d (cell %.6g,%.6g of %dx%d, %d nodes)", x.second.p->weight, s, x.second.p->pos_r / dr, x.second.p->pos_z / dz, w.nr, w.nz, n)); stop = true; continue; }
      auto& h = pb[r].at[x.first]; Particle *p = x.second.p, *q = h.p;
      bool okp = fabs(p->pos_r - q->pos_r) < tp * dr && fabs(p->pos_z - q->pos_z) < tp * dz, okv = fabs(p->vel_r - q->vel_r) + fabs(p->vel_phi - q->vel_phi) + fabs(p->vel_z - q->vel_z) < tp * 3e8;
      c.ok(okp && okv, okp ? "particles:velocity" : "particles:position", fmt("step %d: %.12g,%.12g v %.9g,%.9g,%.9g on a single node, %.12g,%.12g v %.9g,%.9g,%.9g on node %d of %d", s, p->pos_r / dr, p->pos_z / dz, p->vel_r, p->vel_phi, p->vel_z, q->pos_r / dr, q->pos_z / dz, q->vel_r, q->vel_phi, q->vel_z, r, n));
      c.ok(x.second.sp->name == h.sp->name, "particles:specie", "particle changed its specie");
      Domain* d = b.s[r]->domains(h.i, h.j); auto& cd = d->geometry.cell_dims; double ir = q->pos_r / dr, iz = q->pos_z / dz, e = 1e-9;
      c.ok(ir >= cd[0] - e && ir < cd[2] + e && iz >= cd[1] - e && iz < cd[3] + e, "particles:misplaced", fmt("step %d: particle at cell %.9g,%.9g is held on node %d by domain with cells %zu..%zu, %zu..%zu", s, ir, iz, r, cd[0], cd[2], cd[1], cd[3]));
      auto o = at.find(x.first); if (o != at.end() && o->second != r) ++crossed; at[x.first] = r; c.saw("trajectory points compared");
    }
  }
  c.ok(mw->types_made == mw->types_freed, "types", fmt("%llu datatypes were made and %llu were freed after %d steps", (unsigned long long)mw->types_made, (unsigned long long)mw->types_freed, steps));
  c.saw("moves between nodes", crossed); c.saw("steps", steps); c.saw("messages", mw->messages); c.saw("barriers", mw->barriers); c.saw(mw->sync ? "with sends that wait for the receiver" : "with buffered sends"); if (w.nr % w.rd || w.nz % w.zd) c.saw("uneven splits");
  c.sample(fmt("%dx%d cells in %dx%d domains on %d nodes, %d particles, %d steps, %ld moves between nodes, %llu messages", w.nr, w.nz, w.rd, w.zd, n, (int)ps.size(), steps, crossed, (unsigned long long)mw->messages)); }
  vw::drop(a); vmpi::drop(mw); vmpi::drop(solo); vmpi::world() = nullptr;
}
// particles only: they are put where they no longer belong, and collected
static void transfer(Case& c)
{
  vw::quiet(); int n; vw::World w = many(c, n); vmpi::W* mw = vmpi::make(n, c.r.chance(.5)); vmpi::world() = mw; long moves = 0, outs = 0, far = 0;
  { Nodes b(w, n); double dr = w.R / w.nr, dz = w.Z / w.nz; std::map<uint64_t, vw::Seedling> book; int amount = c.r.range(0, 300);
  std::vector<std::string> names; for (auto s : b.s[0]->domains(0, 0)->species_p) names.push_back(s->name);
  for (int k = 0; k < amount; ++k)
  {
    int r = c.r.range(0, n - 1), i = c.r.range(0, b.s[r]->r_domains - 1), j = c.r.range(0, b.s[r]->z_domains - 1), si = c.r.range(0, (int)names.size() - 1); Domain* d = b.s[r]->domains(i, j); auto& q = d->geometry.cell_dims;
    double ir = c.r.uni(q[0] - 1., q[2] + 1.), iz = c.r.chance(.5) ? c.r.uni(q[1] - 1., q[3] + 1.) : c.r.pick({(double)q[1], (double)q[3]}) + c.r.uni(-.9, .9); bool beam = names[si].find("beam_") == 0;
    if (!beam || !c.r.chance(.3)) { ir = std::min(std::max(ir, .01), w.nr - .01); iz = std::min(std::max(iz, .01), w.nz - .01); }
    vw::Seedling x; x.specie = names[si]; x.r = ir * dr; x.z = iz * dz; x.vr = c.r.uni(-1, 1) * 1e8; x.vp = c.r.uni(-1, 1) * 1e8; x.vz = c.r.uni(-1, 1) * 1e8; x.w = 1 + k + c.r.u();
    Particle* p = vw::particle(d->species_p[si], x.r, x.z, x.w, x.vr, x.vp, x.vz); p->mark = k; p->sin = c.r.uni(-1, 1); p->cos = c.r.uni(-1, 1); p->pos_old_r = c.r.u(); p->pos_old_z = c.r.u(); p->pos_phi = c.r.u(); p->pos_old_phi = c.r.u(); d->species_p[si]->bind_cell_numbers();
    bool in = x.r >= 0 && x.z >= 0 && x.r < w.nr * dr && x.z < w.nz * dz; if (in) { book[vw::key(x.w)] = x; if (iz < b.s[r]->geometry->cell_dims[1] || iz >= b.s[r]->geometry->cell_dims[3]) { ++moves; if (ir < q[0] || ir >= q[2]) ++far; } } else ++outs;
  }
  std::map<uint64_t, Particle> was; for (auto m : b.s) for (auto& x : vw::census(m).at) was[x.first] = *x.second.p;
  for (int turn = 0; turn < 2; ++turn)
  {
    if (!all(c, n, "transfer of particles", [&](int r) { b.s[r]->particles_runaway_collector(); })) break;
    std::map<uint64_t, int> seen; long total = 0;
    for (int r = 0; r < n; ++r)
    {
      auto now = vw::census(b.s[r]); total += now.n; c.ok(now.dup.empty(), "particles:duplicate", "particle is held " + now.dup);
      for (auto& x : now.at)
      {
        auto o = book.find(x.first); Particle* p = x.second.p; c.ok(!seen[x.first]++, "particles:duplicate", "particle is held by several nodes"); auto& cd = b.s[r]->domains(x.second.i, x.second.j)->geometry.cell_dims;
        if (!c.ok(o != book.end(), "particles:unknown", fmt("particle of weight %.17g at %g,%g is held by node %d of %d, and has to be out of the region or was never there", p->weight, p->pos_r / dr, p->pos_z / dz, r, n))) continue;
        double ir = p->pos_r / dr, iz = p->pos_z / dz, e = 1e-9;
        c.ok(ir >= cd[0] - e && ir < cd[2] + e && iz >= cd[1] - e && iz < cd[3] + e, "particles:misplaced", fmt("particle at cell %.9g,%.9g is held on node %d by domain with cells %zu..%zu, %zu..%zu", ir, iz, r, cd[0], cd[2], cd[1], cd[3]));
        Particle& q = was[x.first]; c.ok(x.second.sp->name == o->second.specie && p->specie_id == q.specie_id, "particles:specie", "transfer changed the specie of the particle");
        c.ok(p->pos_r == q.pos_r && p->pos_phi == q.pos_phi && p->pos_z == q.pos_z && p->pos_old_r == q.pos_old_r && p->pos_old_phi == q.pos_old_phi && p->pos_old_z == q.pos_old_z && p->vel_r == q.vel_r && p->vel_phi == q.vel_phi && p->vel_z == q.vel_z && p->sin == q.sin && p->cos == q.cos && p->cell_r == q.cell_r && p->cell_z == q.cell_z && p->mark == q.mark, "particles:altered", fmt("transfer changed the particle at %.9g,%.9g", ir, iz));
        c.saw("particles located");
      }
    }
    c.ok(total == (long)book.size(), "particles:amount", fmt("%zu particles are inside, %ld are held after the transfer over %d nodes", book.size(), total, n));
  }
  c.saw("transfers between nodes", moves); c.saw("transfers between nodes, over a domain's side too", far); c.saw("out of region", outs); c.state(fmt("t n%d %d/%d rest %d/%d far%d out%d sync%d", n, w.rd, w.zd, w.nr % w.rd, w.nz % w.zd, far > 0, outs > 0, (int)mw->sync)); }
  vmpi::drop(mw); vmpi::world() = nullptr;
}
int main(int argc, char** argv) { return run(argc, argv, "mpi", {{"nodes", 2, nodes}, {"transfer", 1, transfer}}); }
