PROPERTY = 'P27'
NEEDS = 'particles with exactly zero axial velocity, and more than one time step'
BREAKS = 'position at the beginning of the step is not kept for particles that did not move axially in the last step: their radial move is counted again in the current'
EDITS = [('src/specieP.cpp', '''  {
    P_POS_OLD_R((**p)) = P_POS_R((**p));''', '''  {
    if (P_POS_OLD_R((**p)) != 0 && P_POS_OLD_Z((**p)) == P_POS_Z((**p))) continue;
    P_POS_OLD_R((**p)) = P_POS_R((**p));''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
// radial flow of charge out of one step against the move of the particle
int main()
{
  vw::quiet(); vw::World w; w.nr = 16; w.nz = 16; w.R = w.Z = .016; w.dt = 1e-12; w.end = 1e-10; w.macro = 10; Cfg* c = vw::config(w); SMB* s = new SMB(c, c->geometry, c->time, 0, 1); Domain* d = s->domains(0, 0); int bad = 0;
  for (auto x : d->species_p) { for (auto p : x->particles) delete p; x->particles.clear(); }
  SpecieP* e = vw::find(d, "electrons"); Particle* p = vw::particle(e, 7.3e-3, 7.45e-3, 1, 5e7, 0, 0); e->bind_cell_numbers();
  for (int k = 0; k < 4; ++k)
  {
    double from = p->pos_r; s->solve_maxvell(); s->advance_particles(); s->solve_current(); double want = (p->pos_r - from) / w.dt, got = 0;
    for (int i = 0; i < w.nr; ++i) for (int j = 0; j < w.nz; ++j) got += d->current->current[0](i, j) * 2 * M_PI * (i + .5) * 1e-6 * 1e-3 / e->charge;
    printf("step %d: %g of %g\n", k, got, want); if (!(fabs(got / want - 1) < .2)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
