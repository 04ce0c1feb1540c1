// P18: external fields: what particles feel, what the solver does not
#include "vsmb.hpp"
#include "vtwin.hpp"
using namespace vh;
static void form(vw::World& w, const char* e, double ea, const char* m, double ma) { w.ef = e; w.mf = m; w.ep = fmt("[%.17g]", ea); w.mp = fmt("[%.17g]", ma); }
static void amplitudes(Case& c, vw::World& w, double& ea, double& ma)
{
  double f = c.r.pick({1e-3, .05, .5}); ea = c.r.chance(.7) ? c.r.sgn() * f * 9.1e-31 * 3e8 / 1.6e-19 / w.dt * c.r.u() : 0; ma = c.r.chance(.7) ? c.r.sgn() * f * 9.1e-31 / 1.6e-19 / w.dt / 1.26e-6 * c.r.u() : 0;
  form(w, ea ? "const_z" : "none", ea, ma ? "const_z" : "none", ma);
}
static void uniform(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c); if (c.r.chance(.3)) w.rd = w.zd = 1; double ea, ma; amplitudes(c, w, ea, ma);
  Cfg* cf = vw::config(w); SMB* s = vw::smb(cf); int n = c.r.range(1, 3); for (int k = 0; k < n; ++k) s->solve_maxvell();
  double dr = cf->geometry->cell_size[0], dz = cf->geometry->cell_size[1]; int borders = 0;
  // the same field given on the grid shows what the interpolation makes of a uniform one
  for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned k = 0; k < s->z_domains; ++k)
  { Domain* d = s->domains(i, k); auto& g = d->geometry.cell_dims; auto m = d->maxwell_solver; for (int x = -2; x < (int)(g[2] - g[0]) + 2; ++x) for (int y = -2; y < (int)(g[3] - g[1]) + 2; ++y) { m->field_e[2].set(x, y, ea); m->field_h[2].set(x, y, ma); m->field_h_at_et[2].set(x, y, ma); } }
  for (int q = 0; q < 400; ++q)
  {
    double ir = c.r.uni(.5, w.nr), iz = c.r.uni(0, w.nz); if (c.r.chance(.5)) ir = (w.nr * c.r.range(0, w.rd)) / w.rd + c.r.uni(-1, 1); if (c.r.chance(.5)) iz = (w.nz * c.r.range(0, w.zd)) / w.zd + c.r.uni(-1, 1);
    if (ir < .5 || iz < 0 || ir >= w.nr || iz >= w.nz) continue;
    Domain* d = vw::owner(s, (int)ir, (int)iz); vector3d<double> e = d->external_fields->get_field_e(ir * dr, iz * dz), h = d->external_fields->get_field_h(ir * dr, iz * dz);
    bool in = ir > 2 && iz > 2 && ir < w.nr - 2 && iz < w.nz - 2; auto& g = d->geometry.cell_dims; if (in && (ir < g[0] + 1 || iz < g[1] + 1 || ir > g[2] - 1 || iz > g[3] - 1)) ++borders;
    std::string at = fmt("at cell %.4f,%.4f of %dx%d (domain of cells %zu..%zu, %zu..%zu)", ir, iz, w.nr, w.nz, g[0], g[2], g[1], g[3]);
    c.ok(e[0] == 0 && e[1] == 0 && h[0] == 0 && h[1] == 0, "transversal", "radial or azimuthal external field is not zero " + at);
    if (in) { vector3d<double> ue = d->maxwell_solver->get_field_e(ir * dr, iz * dz), uh = d->maxwell_solver->get_field_h(ir * dr, iz * dz); c.near(e[2], ue[2], 1e-8 * fabs(ea), "electric", "external electric field " + at); c.near(h[2], uh[2], 1e-8 * fabs(ma), "magnetic", "external magnetic field " + at); c.saw("points compared"); }
    else { c.ok(e[2] * ea >= 0 && fabs(e[2]) <= fabs(ea) * (1 + .5 / ir / ir) && (ea != 0 || e[2] == 0), "electric:wall", "external electric field " + at + fmt(" is %g of %g", e[2], ea)); c.ok(h[2] * ma >= 0 && fabs(h[2]) <= fabs(ma) * (1 + .5 / ir / ir) && (ma != 0 || h[2] == 0), "magnetic:wall", "external magnetic field " + at + fmt(" is %g of %g", h[2], ma)); }
  }
  c.saw("points at domain borders", borders); if (ea) c.saw("electric"); if (ma) c.saw("magnetic"); if (ea && ma) c.saw("both"); c.state(fmt("u %d/%d e%d m%d steps%d", w.rd, w.zd, ea != 0, ma != 0, n));
  c.sample(fmt("E %.3g H %.3g over %dx%d domains", ea, ma, w.rd, w.zd)); vw::drop(s);
}
static void push(Case& c)
{
  // external field against the same uniform field given to the particles as self-consistent one
  vw::quiet(); vw::World w = vw::random_world(c); double ea, ma; w.pl = w.pr = w.po = 0; amplitudes(c, w, ea, ma); vw::World wb = w; form(wb, "none", 0, "none", 0);
  Cfg *ca = vw::config(w, "a.json"), *cb = vw::config(wb, "b.json"); SMB *a = vw::smb(ca), *b = vw::smb(cb); vw::Table fields(c, w); auto ps = vw::random_particles(c, w);
  a->solve_maxvell(); b->solve_maxvell(); // external fields are set by now, the other ones are zero
  fields.load(a, w); fields.load(b, wb); vw::plant(a, ps); vw::plant(b, ps);
  for (unsigned i = 0; i < b->r_domains; ++i) for (unsigned k = 0; k < b->z_domains; ++k)
  { Domain* d = b->domains(i, k); auto& g = d->geometry.cell_dims; int o = 2; for (int x = -o; x < (int)(g[2] - g[0]) + o; ++x) for (int y = -o; y < (int)(g[3] - g[1]) + o; ++y) { auto m = d->maxwell_solver; m->field_e[2].set(x, y, m->field_e[2](x, y) + ea); m->field_h[2].set(x, y, m->field_h[2](x, y) + ma); m->field_h_at_et[2].set(x, y, m->field_h_at_et[2](x, y) + ma); } }
  for (SMB* s : {a, b}) for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned k = 0; k < s->z_domains; ++k) s->domains(i, k)->push_particles();
  auto qa = vw::census(a), qb = vw::census(b); double dr = ca->geometry->cell_size[0], dz = ca->geometry->cell_size[1]; long n = 0;
  for (auto& x : qa.at)
  {
    Particle *p = x.second.p, *q = qb.at.at(x.first).p; double ir = p->pos_r / dr, iz = p->pos_z / dz; if (ir < 2 || iz < 2 || ir > w.nr - 2 || iz > w.nz - 2) continue;
    double v = 1e-7 * 3e8; ++n; // fields at 1e-8, momentum change of up to about mc
    c.ok(fabs(p->vel_r - q->vel_r) < v && fabs(p->vel_phi - q->vel_phi) < v && fabs(p->vel_z - q->vel_z) < v, "push", fmt("%s at cell %.3f,%.3f: velocity %.9g,%.9g,%.9g with external field E %.3g H %.3g, %.9g,%.9g,%.9g with the same field of the grid", x.second.sp->name.c_str(), ir, iz, p->vel_r, p->vel_phi, p->vel_z, ea, ma, q->vel_r, q->vel_phi, q->vel_z));
  }
  c.saw("particles pushed", n); c.state(fmt("p %d/%d e%d m%d", w.rd, w.zd, ea != 0, ma != 0)); vw::drop(a); vw::drop(b);
}
static void solver(Case& c)
{
  // fields, currents of the grid do not feel the external ones: same world, no particles that move
  vw::quiet(); vw::World w = vw::random_world(c); double ea, ma; amplitudes(c, w, ea, ma); vw::World wb = w; form(wb, "none", 0, "none", 0);
  Cfg *ca = vw::config(w, "a.json"), *cb = vw::config(wb, "b.json"); SMB *a = vw::smb(ca), *b = vw::smb(cb); vw::Table fields(c, w); fields.load(a, w); fields.load(b, wb); int steps = c.r.range(1, 12);
  for (int s = 0; s < steps; ++s)
  {
    a->solve_maxvell(); b->solve_maxvell(); a->advance_particles(); b->advance_particles(); a->solve_current(); b->solve_current();
    for (unsigned i = 0; i < a->r_domains; ++i) for (unsigned k = 0; k < a->z_domains; ++k)
    {
      Domain *x = a->domains(i, k), *y = b->domains(i, k); bool same = true; std::string where;
      for (int m = 0; m < 3; ++m) for (unsigned r = 0; r < x->geometry.cell_amount[0]; ++r) for (unsigned z = 0; z < x->geometry.cell_amount[1]; ++z)
      {
        auto f = [&](Grid3D<double>& p, Grid3D<double>& q, const char* n) { if (p(m, r, z) != q(m, r, z)) { same = false; where = fmt("%s component %d at %u,%u: %.12g and %.12g", n, m, r, z, p(m, r, z), q(m, r, z)); } };
        f(x->maxwell_solver->field_e, y->maxwell_solver->field_e, "electric field"); f(x->maxwell_solver->field_h, y->maxwell_solver->field_h, "magnetic field"); f(x->current->current, y->current->current, "current"); c.saw("nodes compared");
      }
      c.ok(same, "solver", fmt("step %d: ", s) + where);
    }
  }
  c.state(fmt("s %d/%d e%d m%d", w.rd, w.zd, ea != 0, ma != 0)); vw::drop(a); vw::drop(b);
}
static void names(Case& c)
{
  vw::quiet(); vw::World w = vw::random_world(c); std::string bad = c.r.pick({"const_zz", "Const_z", "none ", "", "z", "line", "const", "const_x"}); bool el = c.r.chance(.5), ok = c.r.chance(.4); if (ok) bad = c.r.pick({"none", "const_z"});
  w.ep = w.mp = "[1]"; (el ? w.ef : w.mf) = bad; bool rej = false; vshim::throw_on_fatal = true;
  try { Cfg* cf = vw::config(w); SMB* s = vw::smb(cf); vw::drop(s); } catch (vshim::FatalError& e) { rej = true; c.ok(std::string(e.what()).find(el ? "electric" : "magnetic") != std::string::npos, "message", fmt("unknown %s profile ``%s'' is reported as: %s", el ? "electric" : "magnetic", bad.c_str(), e.what())); }
  c.ok(rej != ok, ok ? "refused" : "accepted", fmt("%s profile ``%s'' is %s", el ? "electric" : "magnetic", bad.c_str(), rej ? "refused" : "accepted")); c.saw(rej ? "refused" : "accepted"); c.state("n " + bad);
}
int main(int argc, char** argv) { return run(argc, argv, "ext", {{"uniform", 4, uniform, true}, {"push", 4, push, true}, {"solver", 2, solver, true}, {"names", 1, names, true}}); }
