PROPERTY = 'P07'
NEEDS = 'a domain that is not the innermost one, at the left wall, with azimuthal magnetic field'
BREAKS = 'the axial electric field at the left wall is updated with the radius inside the domain instead of the real one'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '''                            - (field_h_at_et(1, i, k) + field_h_at_et(1, i-1, k))
                            / (2. * dr * (i + geometry->cell_dims[0])))
                     * koef_h);''', '''                            - (field_h_at_et(1, i, k) + field_h_at_et(1, i-1, k))
                            / (2. * dr * (i + (geometry->walls[0] ? geometry->cell_dims[0] : 1))))
                     * koef_h);''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vsmb.hpp"
int main()
{
  vw::quiet(); vw::World w; w.rd = 2; w.nr = w.nz = 16; w.dt = 1e-13; SMB* s = vw::smb(vw::config(w)); Domain* d = s->domains(1, 0); auto& g = d->geometry; double dr = w.R / 16; int bad = 0;
  for (int i = -1; i < 8; ++i) for (int k = -1; k < 8; ++k) { d->maxwell_solver->field_h_at_et[1].set(i, k, 1); d->maxwell_solver->field_h[1].set(i, k, 1); }
  d->maxwell_solver->calc_field_e();
  for (int k = 0; k < 6; ++k) for (int i = 1; i < 6; ++i) { double e = d->maxwell_solver->field_e[2](i, k), x = w.dt / 8.85e-12 / (dr * (i + 8)); if (!(fabs(e / x - 1) < 1e-2)) { if (!bad++) printf("cell %d,%d: %g instead of %g\n", i + 8, k, e, x); } }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
