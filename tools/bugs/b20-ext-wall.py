PROPERTY = 'P18'
NEEDS = 'external fields, a domain at the outer wall and not at the right wall (several domains along the axis)'
BREAKS = 'the end of the external field along the axis is decided by the outer wall: the field falls off at the border of two domains'
EDITS = [('src/maxwellSolver/externalFields.cpp', '  if (geometry->walls[3]) // z=z\n', '  if (geometry->walls[3] || geometry->walls[2]) // z=z\n')]
SH = 'kit_init ENABLE_EXTERNAL_FIELDS; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
int main()
{
  vw::quiet(); int bad = 0; vw::World w; w.zd = 2; w.nr = w.nz = 16; w.ef = w.mf = "const_z"; w.ep = "[1000]"; w.mp = "[500]"; SMB* s = vw::smb(vw::config(w)); double h = w.R / w.nr; Domain* d = s->domains(0, 0);
  (*d->external_fields)(); double e0 = d->external_fields->get_field_e(5.3 * h, 4.2 * h)[2], b0 = d->external_fields->get_field_h(5.3 * h, 4.2 * h)[2]; if (!(e0 > 500 && b0 > 300)) ++bad;
  for (double z : {6.8, 7.4, 7.9}) { double e = d->external_fields->get_field_e(5.3 * h, z * h)[2], b = d->external_fields->get_field_h(5.3 * h, z * h)[2]; printf("z %g: E %g, H %g\n", z, e, b); if (!(fabs(e - e0) < 1 && fabs(b - b0) < 1)) ++bad; }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
