PROPERTY = 'P06'
NEEDS = 'the Higuera-Cary pusher, and a magnetic field that turns the particle by a large angle in one step'
BREAKS = 'the Lorentz factor of the Higuera-Cary scheme adds the magnetic rotation instead of subtracting it: the particle turns by a wrong angle'
EDITS = [('src/pusher/pusherHC.cpp', 'gamma = 1. / sqrt ( 0.5*( gfm2 - B2 +', 'gamma = 1. / sqrt ( 0.5*( gfm2 + B2 +')]
SH = 'PUSHER=HC; kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
int main()
{
  vw::quiet(); int bad = 0;
  for (double theta : {.01, .7, 1.5})
  {
    vw::World w; w.nr = w.nz = 16; w.dt = 1e-12; SMB* s = vw::smb(vw::config(w)); Domain* d = s->domains(0, 0); double h = w.R / w.nr;
    double v = 1e6, g = 1 / sqrt(1 - v * v / 9e16), B = 2 * tan(theta / 2) * g * 9.1e-31 / (1.6e-19 * w.dt);   // purely magnetic field: the exact gamma does not change
    for (int c = 0; c < 3; ++c) { d->maxwell_solver->field_e[c] = 0.; d->maxwell_solver->field_e[c].overlay_set(0.); d->maxwell_solver->field_h[c] = 0.; d->maxwell_solver->field_h[c].overlay_set(0.); }
    d->maxwell_solver->field_h[2] = B / 1.26e-6; d->maxwell_solver->field_h[2].overlay_set(B / 1.26e-6);
    vw::plant(s, {{"electrons", 5.3 * h, 5.7 * h, v, 0, 0, 1.}}); d->push_particles();
    Particle* p = vw::find(d, "electrons")->particles[0]; double got = fabs(atan2(p->vel_phi, p->vel_r)), a = hypot(p->vel_phi, p->vel_r);
    printf("turned by %g of %g, speed %g of %g\n", got, theta, a, v); if (!(fabs(got - theta) < 1e-2 * theta && fabs(a - v) < 1e-6 * v)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
