PROPERTY = 'P02'
NEEDS = 'a beam whose particles have charge and mass of a background species, and a particle of either crossing a border between two domains'
BREAKS = 'the runaway collector looks the destination species up by charge and mass instead of the unique ID: the particle is handed to both species of the destination domain'
EDITS = [('src/SMB.cpp', '''                      if ((**pd).id == (**ps).id)
                      {
                        LOG_S(MAX) << "Particle with specie ``"''', '''                      if ((**pd).charge == (**ps).charge && (**pd).mass == (**ps).mass)
                      {
                        LOG_S(MAX) << "Particle with specie ``"''')]
SH = 'kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
int main()
{
  vw::quiet(); vw::World w; w.zd = 2; w.nr = w.nz = 16; w.dt = 1e-13; w.beams.push_back({"b", -1, 1, 1e8, 1, 1, .1, .1, w.R / 2, 1e12});
  SMB* s = vw::smb(vw::config(w)); double d = w.R / w.nr; std::vector<vw::Seedling> ps;
  for (int k = 0; k < 8; ++k) ps.push_back({k % 2 ? "electrons" : "beam_b", (2.5 + k) * d, 7.999 * d, 0, 0, 2e8, 1. + k});
  vw::plant(s, ps); s->advance_particles(); std::map<std::string, int> n; int bad = 0;
  for (int a = 0; a < 2; ++a) for (auto x : s->domains(0, a)->species_p) { n[x->name] += x->particles.size(); if (a == 0 && x->particles.size()) ++bad; }
  printf("%d electrons, %d beam particles, %d left behind\n", n["electrons"], n["beam_b"], bad);
  _exit(n["electrons"] == 4 && n["beam_b"] == 4 && !bad ? 0 : 1);
}
'''
