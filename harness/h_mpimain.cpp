// P24: the real main function on several nodes (processes over the stand-in for MPI); what its nodes hold together has to be the whole world
#include <mpi.h>
#include "vsmb.hpp"
#include "outController.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
static SMB* spied = nullptr;
struct SpySMB : SMB { template <class... A> SpySMB(A&&... a) : SMB(std::forward<A>(a)...) { spied = this; } };
#define SMB SpySMB
#define main picopic_main
#include "../src/PiCoPiC.cpp"
#undef main
#undef SMB
using namespace vh;
static std::string report_to;
static void report()
{
  FILE* f = fopen(report_to.c_str(), "w"); SMB* s = spied; if (!s) { fclose(f); return; }
  for (unsigned a = 0; a < s->r_domains; ++a) for (unsigned b = 0; b < s->z_domains; ++b)
  {
    Domain* d = s->domains(a, b); auto& g = d->geometry; fprintf(f, "D %zu %zu %zu %zu %d %d %d %d %.17g %.17g %u %u\n", g.cell_dims[0], g.cell_dims[1], g.cell_dims[2], g.cell_dims[3], (int)g.walls[0], (int)g.walls[1], (int)g.walls[2], (int)g.walls[3], g.cell_size[0], g.cell_size[1], d->current->current[0].x_size, d->current->current[0].y_size);
    for (auto x : d->species_p) for (auto p : x->particles) fprintf(f, "P %s %.17g %.17g %.17g %zu %zu\n", x->name.c_str(), p->weight, p->pos_r / g.cell_size[0], p->pos_z / g.cell_size[1], g.cell_dims[1], g.cell_dims[3]);
  }
  fprintf(f, "E\n"); fclose(f);
}
struct Dom { size_t d[4]; int w[4]; double s[2]; unsigned x, y; };
struct All { std::vector<Dom> d; std::map<std::string, std::pair<long, double>> n; std::vector<int> rc; bool ended = true; long strays = 0; };
static All launch(const std::string& cfg, int n, bool sync)
{
  All o; vmpi::W* w = vmpi::make(n, sync); std::vector<pid_t> kids; char here[4000]; if (!getcwd(here, sizeof here)) abort(); fflush(nullptr);
  for (int r = 0; r < n; ++r)
  {
    std::string dir = fmt("%s/n%d_%d", here, n, r); if (system(("rm -rf '" + dir + "'").c_str())) {} mkdir(dir.c_str(), 0755);
    pid_t p = fork(); if (p) { kids.push_back(p); continue; }
    if (chdir(dir.c_str())) _exit(90); if (!freopen("out.txt", "w", stdout)) _exit(91); if (!freopen("err.txt", "w", stderr)) _exit(92);
    vmpi::world() = w; vmpi::me = r; rd_state = 77 + 1000 * r; report_to = dir + "/report"; vmpi::at_finalize = report; signal(SIGABRT, SIG_DFL); char a0[] = "picopic", a1[] = "-f"; std::string c = std::string(here) + "/" + cfg; std::vector<char> a2(c.begin(), c.end()); a2.push_back(0); char* av[] = {a0, a1, a2.data(), nullptr};
    int rc = 93; try { rc = picopic_main(3, av); } catch (MPI::Exception&) { rc = 94; } vmpi::ended(); fflush(nullptr); _exit(rc);
  }
  // a node that ends before it has told so leaves the others waiting
  for (int left = n; left;)
  {
    int st; pid_t p = wait(&st); if (p < 0) break; --left; int r = 0; while (r < n && kids[r] != p) ++r; int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); o.rc.resize(n); o.rc[r] = rc;
    if (rc) { vmpi::world() = w; vmpi::me = r; vmpi::ended(); for (auto k : kids) if (k != p) { usleep(2000); kill(k, SIGKILL); } }
  }
  for (int r = 0; r < n; ++r)
  {
    FILE* f = fopen(fmt("n%d_%d/report", n, r).c_str(), "r"); bool end = false; if (!f) { o.ended = false; continue; } char l[600];
    while (fgets(l, sizeof l, f))
    {
      if (l[0] == 'E') end = true;
      if (l[0] == 'D') { Dom d; sscanf(l + 2, "%zu %zu %zu %zu %d %d %d %d %lg %lg %u %u", d.d, d.d + 1, d.d + 2, d.d + 3, d.w, d.w + 1, d.w + 2, d.w + 3, d.s, d.s + 1, &d.x, &d.y); o.d.push_back(d); }
      if (l[0] == 'P') { char nm[100]; double wt, ir, iz; size_t a, b; sscanf(l + 2, "%99s %lg %lg %lg %zu %zu", nm, &wt, &ir, &iz, &a, &b); auto& x = o.n[nm]; ++x.first; x.second += wt; if (iz < a - 1e-9 || iz > b + 1e-9) ++o.strays; }
    }
    fclose(f); if (!end) o.ended = false;
  }
  vmpi::drop(w); vmpi::world() = nullptr; return o;
}
static void whole(Case& c)
{
  vw::quiet(); vw::World w; int n = c.r.pick({1, 2, 2, 3, 4, 5}); w.rd = c.r.pick({1, 2, 2}); w.zd = c.r.pick({2, 4, 4, 6, 8}); w.nr = w.rd * 6 + c.r.range(0, 5); w.nz = w.zd * 5 + (c.r.chance(.3) ? 0 : c.r.range(0, 3 * w.zd));
  double dr = c.r.logu(1e-4, 1e-2), dz = dr * c.r.uni(.5, 2); w.R = dr * w.nr; w.Z = dz * w.nz; w.dt = std::min(dr, dz) / 3e8 * .4; int steps = c.r.range(1, 12); w.end = w.dt * (steps - .5); w.macro = c.r.range(4000, 12000); w.data_root = "./out"; w.log = "/dev/null";
  w.species = {{"electrons", -1, 1, c.r.logu(1e10, 1e12), 1}, {"ions", 1, 1836, 1e11, .1}}; if (c.r.chance(.5)) w.beams.push_back({"b", -1, 1, 2e8, 0, 1, w.dt * 2e8, w.dt * 2e8 * 5, w.R / 2, 1e12});
  { FILE* f = fopen("w.json", "w"); std::string s = w.json(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
  bool sync = c.r.chance(.5); c.state(fmt("m n%d zd%d rest %d/%d rd%d beam%d sync%d", n, w.zd, w.nz % n, w.zd % n, w.rd, (int)w.beams.size(), (int)sync));
  All a = launch("w.json", n, sync); std::string at = fmt("%dx%d cells, %dx%d domains, %d nodes", w.nr, w.nz, w.rd, w.zd, n); bool bad = false; std::string rcs; for (int r : a.rc) { rcs += fmt(" %d", r); if (r) bad = true; }
  if (n > w.zd) { c.ok(bad, "main:fewer-domains", at + ": there are fewer domains than nodes, and the run is not refused"); for (int r : a.rc) c.ok(r < 128 || r == 128 + SIGABRT || r == 128 + SIGKILL, "main:fewer-domains:crash", at + ": there are fewer domains than nodes, and nodes crash with" + rcs); c.saw("refused worlds"); return; }
  if (!c.ok(!bad && a.ended, "main:end", at + ": nodes ended with" + rcs)) return;
  std::vector<int> cover(w.nr * w.nz); bool walls = true, sizes = true; std::string where;
  for (auto& d : a.d)
  {
    for (size_t i = d.d[0]; i < d.d[2] && i < (size_t)w.nr; ++i) for (size_t k = d.d[1]; k < d.d[3] && k < (size_t)w.nz; ++k) ++cover[i * w.nz + k];
    if (d.d[2] > (size_t)w.nr || d.d[3] > (size_t)w.nz || d.x != d.d[2] - d.d[0] || d.y != d.d[3] - d.d[1] || fabs(d.s[0] / dr - 1) > 1e-9 || fabs(d.s[1] / dz - 1) > 1e-9) { sizes = false; where = fmt("domain %zu..%zu, %zu..%zu, with %ux%u cells of %.9g x %.9g instead of %.9g x %.9g", d.d[0], d.d[2], d.d[1], d.d[3], d.x, d.y, d.s[0], d.s[1], dr, dz); }
    if (d.w[0] != (d.d[0] == 0) || d.w[1] != (d.d[1] == 0) || d.w[2] != (d.d[2] == (size_t)w.nr) || d.w[3] != (d.d[3] == (size_t)w.nz)) { walls = false; where = fmt("domain %zu..%zu, %zu..%zu has walls %d%d%d%d", d.d[0], d.d[2], d.d[1], d.d[3], d.w[0], d.w[1], d.w[2], d.w[3]); }
  }
  long missing = 0, twice = 0; for (int x : cover) { missing += !x; twice += x > 1; }
  c.ok(!missing && !twice, "main:cells", fmt("%s: %ld cells belong to no node, %ld to several", at.c_str(), missing, twice)); c.ok(sizes, "main:sizes", at + ": " + where); c.ok(walls, "main:walls", at + ": " + where);
  c.ok((int)a.d.size() == w.rd * w.zd, "main:domains", fmt("%s: there are %zu domains", at.c_str(), a.d.size())); c.saw("worlds"); c.saw("domains", a.d.size()); if (w.nz % n || w.zd % n) c.saw("uneven worlds");
  // the same world on one node
  All o = launch("w.json", 1, sync); if (!c.ok(o.ended && !o.rc[0], "main:single", at + ": single node failed")) return;
  for (auto& x : o.n)
  {
    auto y = a.n.count(x.first) ? a.n[x.first] : std::make_pair(0L, 0.); bool beam = x.first.find("beam_") == 0; double tol = beam ? (w.rd > 1 ? w.rd : 0) + .2 * x.second.first : w.rd * w.zd + n * 2;
    c.ok(labs(y.first - x.second.first) <= tol, "main:macroparticles", fmt("%s: %ld macroparticles of %s, on a single node %ld", at.c_str(), y.first, x.first.c_str(), x.second.first));
    double e = 6 / sqrt((double)x.second.first + 1) + tol / (x.second.first + 1.); c.ok(fabs(y.second - x.second.second) <= e * x.second.second, "main:amount", fmt("%s: %.6g particles of %s, on a single node %.6g", at.c_str(), y.second, x.first.c_str(), x.second.second));
    c.saw("species compared"); c.saw("macroparticles", y.first);
  }
  c.ok(a.strays == 0, "main:misplaced", fmt("%s: %ld particles are out of the domains that hold them", at.c_str(), a.strays)); c.sample(at);
}
int main(int argc, char** argv) { return run(argc, argv, "mpimain", {{"whole", 1, whole}}); }
