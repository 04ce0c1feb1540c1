PROPERTY = 'P08'
NEEDS = 'several domains along the radius: a particle of a domain away from the axis in a radial magnetic field'
BREAKS = 'radial magnetic field is weighted with the volume of the cell of the local, not the global number: it depends on the decomposition'
EDITS = [('include/maxwellSolver.hpp', '''    vol_1 = CELL_VOLUME(i_r, dr, dz);
    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);

    r2 = (i_r + 0.5) * dr;
    dz1 = (k_z + 1.5) * dz - longitude;
    dz2 = longitude - (k_z + 0.5) * dz;

    //weighting Hr[i][k]//''', '''    vol_1 = CELL_VOLUME(i_r_shift, dr, dz);
    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);

    r2 = (i_r + 0.5) * dr;
    dz1 = (k_z + 1.5) * dz - longitude;
    dz2 = longitude - (k_z + 0.5) * dz;

    //weighting Hr[i][k]//''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
int main()
{
  vw::quiet(); int bad = 0; double got[2];
  for (int k : {1, 2})
  {
    vw::World w; w.rd = k; w.nr = w.nz = 16; SMB* s = vw::smb(vw::config(w)); double h = w.R / w.nr; Domain* d = s->domains(k - 1, 0);
    for (int c = 0; c < 3; ++c) { d->maxwell_solver->field_h[c] = 0.; d->maxwell_solver->field_h[c].overlay_set(0.); }
    d->maxwell_solver->field_h[0] = 1.; d->maxwell_solver->field_h[0].overlay_set(1.); got[k - 1] = d->maxwell_solver->get_field_h(12.3 * h, 5.2 * h)[0];
  }
  printf("one domain %.12g, two domains %.12g\n", got[0], got[1]); if (!(fabs(got[0] - got[1]) < 1e-6)) ++bad;
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
