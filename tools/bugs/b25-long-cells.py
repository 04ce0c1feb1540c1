PROPERTY = 'P25'
NEEDS = 'cells that are long in axial direction only: larger, than the limit along z, and not along r'
BREAKS = 'radial size of the cell is checked twice, and the axial one never: there is no message'
EDITS = [('src/cfg.cpp', '''	|| geometry->cell_size[1] > debye_length * debye_multiplicator)''', '''	|| geometry->cell_size[0] > debye_length * debye_multiplicator)''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vsmb.hpp"
int main()
{
  // Debye length of the plasma is about 5e-6 m, so the limit is about 5e-4 m
  int bad = 0; for (int k = 0; k < 4; ++k)
  {
    vw::World w; w.nr = 20; w.nz = 20; w.R = (k & 1 ? 2e-2 : 2e-4); w.Z = (k & 2 ? 2e-2 : 2e-4); w.dt = 1e-15; w.end = 1e-14; w.species = {{"electrons", -1, 1, 1e18, 1}, {"ions", 1, 1836, 1e18, 1}}; std::string all;
    auto* old = stderr; (void)old; fflush(stderr); FILE* f = fopen("log.txt", "w"); int keep = dup(2); dup2(fileno(f), 2); loguru::g_stderr_verbosity = 0; vw::config(w); fflush(stderr); dup2(keep, 2); fclose(f);
    f = fopen("log.txt", "r"); char l[2000]; while (fgets(l, sizeof l, f)) all += l; fclose(f); bool said = all.find("Too large grid size") != std::string::npos; printf("%d: %d\n", k, (int)said); if (said != (k != 0)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
