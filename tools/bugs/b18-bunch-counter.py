PROPERTY = 'P15'
NEEDS = 'a beam created in memory that was used before and is not zero (after a long configuration, or with several domains)'
BREAKS = 'the counter of the injected bunches is not initialised: the number of injected bunches depends on what the memory held'
EDITS = [('src/beamP.cpp', '  current_bunch_number = 0;\n\n', '\n')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vworld.hpp"
#include "beamP.hpp"
#include <new>
int main()
{
  int bad = 0; double d = 1e-3; Geometry* g = vw::geom(0, 0, 16, 16, 16, 16, d, d, {true, true, true, true});
  for (int fill : {0, 1, 85})
  {
    TimeSim* t = vw::tsim(1e-12); void* m = malloc(sizeof(BeamP)); memset(m, fill, sizeof(BeamP));
    BeamP* b = new (m) BeamP(1000, "beam_x", -1, 1, 5000, 0, 4 * d, 1e12, 2, 10 * d, 5 * d, 1e8, g, t);
    for (t->current = 0; t->current < 4e-10; t->current += t->step) b->inject();
    printf("memory %d: %zu particles\n", fill, b->particles.size()); if (b->particles.size() < 1000) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
