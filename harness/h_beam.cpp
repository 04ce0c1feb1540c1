// P10: beam injection as a trace of injection events over whole schedules
#include "vsmb.hpp"
using namespace vh;
typedef long double L;
static void schedule(Case& c)
{
  vw::quiet();
  vw::World w; w.nr = c.r.range(8, 40); w.nz = c.r.range(8, 24); w.rd = w.nr >= 12 ? c.r.pick({1, 1, 2, 2, 4}) : 1; if (w.nr / w.rd < 5) w.rd = 1; w.zd = w.nz >= 16 ? c.r.pick({1, 2}) : 1;
  double dr = c.r.logu(1e-5, 1e-2), dz = dr * c.r.logu(.3, 3); w.R = dr * w.nr; w.Z = dz * w.nz; w.dt = std::min(dr, dz) / 3e8 * c.r.uni(.2, .9);
  int nb = c.r.chance(.25) ? 2 : 1, longest = 0; double last = 0; w.macro = 1e3;
  for (int b = 0; b < nb; ++b)
  {
    vw::Beam x; x.name = b ? "second" : "first"; x.charge = c.r.pick({-1., 1., 2.}); x.mass = c.r.pick({1., 1836.}); x.velocity = 3e8 * c.r.uni(.1, .99); x.amount = c.r.range(1, 4);
    double steps = c.r.uni(10, 60); x.length = steps * x.velocity * w.dt; x.distance = x.velocity * w.dt * (c.r.chance(.2) ? c.r.uni(2.1, 4) : c.r.uni(4, 40)); x.start = w.dt * (c.r.chance(.3) ? 0 : c.r.uni(0, 30));
    if (c.r.chance(.2)) { x.length = (int)steps * x.velocity * w.dt; x.distance = c.r.range(3, 20) * x.velocity * w.dt; x.start = c.r.range(0, 9) * w.dt; }
    x.radius = w.R * c.r.uni(.1, .9); if (x.radius < 2 * dr) x.radius = 2 * dr; if (c.r.chance(.15)) x.radius = dr * c.r.range(2, w.nr - 1); x.density = c.r.logu(1e12, 1e20); w.beams.push_back(x);
    last = std::max(last, x.start + (x.length + x.distance) / x.velocity * x.amount);
  }
  w.end = last + 20 * w.dt; Cfg* cf = vw::config(w);
  // macroparticle budget of the beams, as whole numbers per bunch or not
  for (auto& b : cf->particle_beams) b.macro_amount = c.r.chance(.3) ? c.r.range(20, 300) : c.r.range(2000, 20000);
  SMB* s = vw::smb(cf); TimeSim* t = cf->time; dr = cf->geometry->cell_size[0]; dz = cf->geometry->cell_size[1];
  struct Acc { std::vector<L> charge, r2; std::vector<long> n; L r_lo = 1e9, r_hi = 0; }; std::vector<Acc> acc(nb);
  for (int b = 0; b < nb; ++b) { acc[b].charge.assign(w.beams[b].amount, 0); acc[b].r2.assign(w.beams[b].amount, 0); acc[b].n.assign(w.beams[b].amount, 0); }
  std::map<SpecieP*, size_t> seen; long events = 0; int steps = 0;
  while (t->current <= t->end)
  {
    s->inject_beam(); ++steps;
    for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j)
      for (auto sp : s->domains(i, j)->species_p)
      {
        Domain* d = s->domains(i, j); size_t was = seen[sp];
        if (sp->name.find("beam_") != 0) { c.ok(sp->particles.empty(), "plasma", "injection created plasma particles"); continue; }
        int b = sp->name == "beam_first" ? 0 : 1; vw::Beam& x = w.beams[b];
        c.ok(sp->particles.size() >= was, "lost", "injection removed particles");
        for (size_t k = was; k < sp->particles.size(); ++k)
        {
          Particle* p = sp->particles[k]; ++events;
          // which bunch is due now
          double period = (x.length + x.distance) / x.velocity, dur = x.length / x.velocity, ph = (t->current - x.start) / period; int n = (int)floor(ph + 1e-9); double in = t->current - x.start - n * period;
          if (!c.ok(n >= 0 && n < x.amount && in >= -1e-6 * w.dt && in < dur + 1e-6 * w.dt, "window", fmt("injected at step %g, %g steps into period %d of %d (bunch lasts %g steps)", t->current / w.dt, in / w.dt, n, x.amount, dur / w.dt))) continue;
          c.ok(d->geometry.cell_dims[1] == 0, "place:domain", "injected in a domain away from the left wall");
          double lo = d->geometry.cell_dims[0] * dr, hi = d->geometry.cell_dims[2] * dr;
          c.ok(p->pos_r >= lo + dr / 2 - 1e-9 * dr && p->pos_r <= std::min(hi, x.radius) + dr / 2 + 1e-9 * dr, "place:r", fmt("radius %g cells of beam of %g cells in domain %g..%g", p->pos_r / dr, x.radius / dr, lo / dr, hi / dr));
          c.ok(p->pos_z >= dz / 2 * (1 - 1e-9) && p->pos_z <= dz / 2 + x.velocity * w.dt * (1 + 1e-9), "place:z", fmt("longitude %g cells", p->pos_z / dz));
          c.ok(p->pos_phi == 0 && p->vel_r == 0 && p->vel_phi == 0 && fabs(p->vel_z / x.velocity - 1) < 1e-12, "velocity", fmt("velocity %g,%g,%g instead of %g", p->vel_r, p->vel_phi, p->vel_z, x.velocity));
          c.ok(p->weight > 0 && std::isfinite(p->weight), "weight", "weight is not positive"); c.ok(p->specie_id == sp->id, "id", "particle of foreign specie");
          c.ok((int)p->cell_r == (int)floor(p->pos_r / dr) && (int)p->cell_z == (int)floor(p->pos_z / dz), "cell", fmt("cell %d,%d of position %g,%g cells", (int)p->cell_r, (int)p->cell_z, p->pos_r / dr, p->pos_z / dz));
          acc[b].charge[n] += p->weight; acc[b].r2[n] += (L)p->weight * p->pos_r * p->pos_r; acc[b].n[n]++; acc[b].r_lo = std::min(acc[b].r_lo, (L)p->pos_r); acc[b].r_hi = std::max(acc[b].r_hi, (L)p->pos_r);
        }
        seen[sp] = sp->particles.size();
      }
    t->current += t->step;
  }
  for (int b = 0; b < nb; ++b)
  {
    vw::Beam& x = w.beams[b]; Acc& a = acc[b]; L bunch = acosl(-1) * x.radius * x.radius * x.length * x.density, tot = 0; long N = 0; double macro = cf->particle_beams[b].macro_amount / x.amount, dur = x.length / x.velocity / w.dt; L mom = 0; int doms = 0;
    for (unsigned i = 0; i < s->r_domains; ++i) if (s->domains(i, 0)->geometry.cell_dims[0] * dr < x.radius) ++doms;
    double grain = 1.5 / dur; // one step more or less
    for (int n = 0; n < x.amount; ++n)
    {
      tot += a.charge[n]; N += a.n[n]; mom += a.r2[n];
      double slack = grain * macro + doms * 2 + 2;
      c.near((double)a.n[n], macro, slack, "bunch:amount", fmt("macroparticles of bunch %d of %d, %g steps long, %d radial domains", n, x.amount, dur, doms));
      double sd = .6 / sqrt(std::max(1., macro)) * 7, g = grain + (doms * 2 + 2) / macro;
      if (macro >= 200) { double q = (double)(a.charge[n] / bunch); c.ok(q > (1 - g) * (1 - sd) && q < (1 + dr / x.radius) * (1 + g) * (1 + sd), "bunch:charge", fmt("charge of bunch %d is %g of the configured one (half a cell is %g of the radius, %g steps)", n, q, dr / 2 / x.radius, dur)); c.saw("bunches weighed"); }
    }
    double M = macro * x.amount, sd = .6 / sqrt(M) * 7, g = grain + (doms * 2 + 2) / macro, q = (double)(tot / bunch / x.amount);
    if (M >= 400) c.ok(q > (1 - g) * (1 - sd) && q < (1 + dr / x.radius) * (1 + g) * (1 + sd), "charge", fmt("beam of %d bunches carries %g of the configured charge", x.amount, q));
    if (M >= 2000) { // homogeneous over the cross-section: mean square radius is half of the squared radius
      L m = mom / tot / (L)x.radius / x.radius, h = dr / x.radius; c.ok(m > .5 * (1 - 10 / sqrt(M)) - .02 && m < .5 * (1 + 10 / sqrt(M)) * (1 + 1.2 * h + h * h) + .02, "profile", fmt("mean square radius is %g of the squared one", (double)m));
      c.ok(a.r_lo < x.radius * .05 + dr && a.r_hi > x.radius * .93, "cover", fmt("radii injected are %g..%g of the radius", (double)a.r_lo / x.radius, (double)a.r_hi / x.radius)); c.saw("profiles"); }
    c.state(fmt("%d bunches %d domains %d few", x.amount, doms, macro < 200));
  }
  c.saw("injection events", events); c.saw("steps", steps); if (w.rd > 1) c.saw("several radial domains"); if (w.zd > 1) c.saw("several axial domains"); if (nb > 1) c.saw("two beams");
  c.sample(fmt("%d beam(s), %d bunches of %g steps, %dx%d domains: %ld particles in %d steps", nb, w.beams[0].amount, w.beams[0].length / w.beams[0].velocity / w.dt, w.rd, w.zd, events, steps)); vw::drop(s);
}
int main(int argc, char** argv) { return run(argc, argv, "beam", {{"schedule", 1, schedule, true}}); }
