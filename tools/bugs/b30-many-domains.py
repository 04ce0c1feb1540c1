PROPERTY = 'P03'
NEEDS = 'more domains by radius than by longitude'
BREAKS = 'number of macroparticles of a domain is rounded to zero or shared wrong: the plasma gets other amount of macroparticles than configured'
EDITS = [('src/SMB.cpp', '''(int)(k->macro_amount / r_domains / z_domains);''', '''(int)(k->macro_amount / max(r_domains, z_domains) / z_domains);''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vsmb.hpp"
int main()
{
  vw::quiet(); int bad = 0;
  for (int k = 0; k < 4; ++k)
  {
    vw::World w; w.rd = k & 1 ? 4 : 2; w.zd = k & 2 ? 4 : 2; w.nr = 32; w.nz = 32; w.R = w.Z = .032; w.dt = 1e-12; w.end = 1e-11; w.macro = 32000; Cfg* c = vw::config(w); double want = 0, got = 0; for (auto& s : c->particle_species) want += s.macro_amount;
    SMB* s = new SMB(c, c->geometry, c->time, 0, 1); for (int a = 0; a < w.rd; ++a) for (int b = 0; b < w.zd; ++b) for (auto x : s->domains(a, b)->species_p) got += x->macro_amount;
    printf("%dx%d domains: %g of %g\n", w.rd, w.zd, got, want); if (!(fabs(got / want - 1) < .02)) ++bad;
  }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
