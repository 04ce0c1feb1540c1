PROPERTY = 'P14'
NEEDS = 'PML build, an outer absorbing layer, and a grid with different numbers of cells by radius and longitude'
BREAKS = 'the thickness of the outer layer is computed from the number of longitudinal cells'
EDITS = [('src/cfg.cpp', '_pml[2] = floor(outer_wall * n_grid_r);', '_pml[2] = floor(outer_wall * n_grid_z);')]
SH = 'kit_init ENABLE_PML; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vsmb.hpp"
int main()
{
  vw::quiet(); vw::World w; w.nr = 20; w.nz = 40; w.pl = .1; w.po = .25; w.pr = .3; w.s2 = 1; Cfg* c = vw::config(w); auto& p = c->geometry->pml_size;
  printf("%zu %zu %zu\n", p[1], p[2], p[3]); fflush(stdout); _exit(p[1] == 4 && p[2] == 5 && p[3] == 12 ? 0 : 1);
}
'''
