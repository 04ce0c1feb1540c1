PROPERTY = 'P16'
NEEDS = 'the Vay pusher with several domains, pushed by several threads at the same time'
BREAKS = 'the scratch vector of the pusher is shared between all the threads'
EDITS = [('src/pusher/pusherVay.cpp', 'vector3d<double> uplocity; // u prime', 'static vector3d<double> uplocity; // u prime')]
SH = 'KFLAGS=-fopenmp; PUSHER=VAY; kit_init; kit_demo demo.cpp; cd "$T"; ./demo'
CPP = r'''
#include "vtwin.hpp"
#include <thread>
static std::vector<double> push(bool threads)
{
  vw::World w; w.rd = w.zd = 2; w.nr = w.nz = 32; w.dt = 1e-13; SMB* s = vw::smb(vw::config(w)); double h = w.R / w.nr; std::vector<vw::Seedling> ps;
  for (int k = 0; k < 200000; ++k) ps.push_back({"electrons", (1.3 + k % 29) * h, (1.4 + (k / 29) % 29) * h, 1e7 * (1 + k % 7), 1e7 * (k % 5), -1e7 * (k % 11), 1.});
  vw::plant(s, ps); std::vector<Domain*> ds; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) ds.push_back(s->domains(a, b));
  for (auto d : ds) for (int c = 0; c < 3; ++c) { d->maxwell_solver->field_e[c] = 0.; d->maxwell_solver->field_e[c].overlay_set(0.); d->maxwell_solver->field_h[c] = 1e4; d->maxwell_solver->field_h[c].overlay_set(1e4); }
  if (threads) { std::vector<std::thread> t; for (auto d : ds) t.emplace_back([d] { d->push_particles(); }); for (auto& x : t) x.join(); }
  else for (auto d : ds) d->push_particles();
  std::vector<double> r; for (auto d : ds) for (auto p : vw::find(d, "electrons")->particles) { r.push_back(p->vel_r); r.push_back(p->vel_phi); r.push_back(p->vel_z); }
  return r;
}
int main()
{
  vw::quiet(); auto one = push(false); int bad = 0;
  for (int k = 0; k < 3; ++k) { auto many = push(true); size_t n = 0; for (size_t i = 0; i < one.size(); ++i) if (one[i] != many[i]) ++n; printf("%zu of %zu values differ\n", n, one.size()); if (n || one.size() != many.size()) ++bad; }
  fflush(stdout); _exit(bad ? 1 : 0);
}
'''
