PROPERTY = 'P24'
NEEDS = 'MPI build, a particle with azimuthal velocity that deposits its current over the border of two nodes'
BREAKS = 'the left node takes the radial instead of the azimuthal current of that column: its field differs from the one of a single-node run'
EDITS = [('src/SMB.cpp', '''dst_domain_plus->current->current[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);''', '''dst_domain_plus->current->current[1].inc(j, d_r_s - 3, i->col_1_0[j_s]);''')]
SH = 'KFLAGS="-include defines.hpp"; kit_init ENABLE_MPI; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include <mpi.h>
#include "vtwin.hpp"
static const int N = 2;
static std::vector<double> run(const vw::World& w, const std::vector<vw::Seedling>& ps, int n)
{
  vmpi::W* mw = vmpi::make(n, false); vmpi::world() = mw; std::vector<SMB*> s; double dr = w.R / w.nr, dz = w.Z / w.nz;
  for (int r = 0; r < n; ++r)
  {
    Cfg* c = vw::config(w); Geometry* g = c->geometry; size_t cells = w.nz / n; g->cell_amount[1] = cells; g->domains_amount[1] = w.zd / n; g->cell_dims[1] = cells * r; g->cell_dims[3] = cells * (r + 1); g->size[1] = w.Z / n;
    if (r < n - 1) g->walls[3] = false; if (r > 0) g->walls[1] = false; s.push_back(new SMB(c, g, c->time, r, n));
    for (auto& p : ps) if (Domain* d = vw::owner(s[r], (int)floor(p.r / dr), (int)floor(p.z / dz))) vw::particle(vw::find(d, p.specie), p.r, p.z, p.w, p.vr, p.vp, p.vz);
    for (unsigned a = 0; a < s[r]->r_domains; ++a) for (unsigned b = 0; b < s[r]->z_domains; ++b) for (auto x : s[r]->domains(a, b)->species_p) x->bind_cell_numbers();
  }
  for (int k = 0; k < 3; ++k)
  {
    std::vector<std::thread> t; for (int r = 0; r < n; ++r) t.emplace_back([&, r] { vmpi::begins(r); s[r]->solve_maxvell(); s[r]->advance_particles(); s[r]->solve_current(); }); for (auto& x : t) x.join();
  }
  std::vector<double> o; for (int m = 0; m < 3; ++m) for (int i = 0; i < w.nr; ++i) for (int k = 0; k < w.nz; ++k) for (auto x : s) if (Domain* d = vw::owner(x, i, k)) { o.push_back(d->current->current[m](i - (int)d->geometry.cell_dims[0], k - (int)d->geometry.cell_dims[1])); break; }
  return o;
}
int main()
{
  vw::quiet(); int bad = 0; vh::Rng r(5);
  for (int t = 0; t < 8; ++t)
  {
    vw::World w; w.nr = 8; w.nz = 16; w.rd = 1; w.zd = 4; w.R = .008; w.Z = .016; w.dt = 1e-12; w.end = 1e-10; std::vector<vw::Seedling> ps;
    for (int k = 0; k < 20; ++k) ps.push_back({"electrons", r.uni(1.5, 6) * 1e-3, r.uni(4, 12) * 1e-3, r.uni(-1, 1) * 1e8, r.uni(-1, 1) * 1e8, r.uni(-1, 1) * 1e8, 1e3});
    auto a = run(w, ps, 1), b = run(w, ps, N); double sc = 0; for (double x : a) sc = std::max(sc, fabs(x)); for (size_t i = 0; i < a.size(); ++i) if (!(fabs(a[i] - b[i]) < 1e-9 * sc)) { if (!bad++) printf("%g instead of %g\n", b[i], a[i]); }
  }
  printf("%d differences\n", bad); fflush(stdout); _exit(bad ? 1 : 0);
}
'''
