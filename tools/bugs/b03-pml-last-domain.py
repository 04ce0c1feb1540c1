PROPERTY = 'P01'
NEEDS = 'PML build, more than one radial domain, and an outer absorbing layer thicker than the outermost domain'
BREAKS = 'only the outermost radial domain gets the layer, so fields differ from the single-domain run'
EDITS = [('src/SMB.cpp', '''      if (geometry->global_cell_amount[0] - top_r < geometry->pml_size[2])''', '''      if (geometry->pml_size[2] > 0 && top_r == geometry->global_cell_amount[0])''')]
SH = 'kit_init ENABLE_PML; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
static std::vector<double> run(int rd, int zd)
{
  vw::World w; w.nr = 16; w.nz = 16; w.rd = rd; w.zd = zd; w.po = .5; w.pl = .2; w.pr = .3; w.dt = 1e-12; w.s1 = .1; w.s2 = 2; vh::Case c; vw::Table t(c, w); vh::Rng r(3); for (auto& x : t.e) x = r.uni(-1, 1); for (auto& x : t.h) x = 0;
  SMB* s = vw::smb(vw::config(w)); t.load(s, w); for (int k = 0; k < 6; ++k) s->solve_maxvell(); std::vector<double> o;
  for (int m = 0; m < 3; ++m) for (int i = 0; i < 16; ++i) for (int k = 0; k < 16; ++k) { Domain* d = vw::owner(s, i, k); o.push_back(d->maxwell_solver->field_e[m](i - d->geometry.cell_dims[0], k - d->geometry.cell_dims[1])); }
  return o;
}
int main()
{
  vw::quiet(); auto a = run(1, 1); int bad = 0;
  for (int rd : {2, 4}) for (int zd : {1, 2}) { auto b = run(rd, zd); for (size_t i = 0; i < a.size(); ++i) if (!(fabs(a[i] - b[i]) < 1e-9)) { if (!bad++) printf("%dx%d: %g instead of %g\n", rd, zd, b[i], a[i]); } }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
