// P20: grids against a shadow model over random operation histories
#include "vh.hpp"
#include "defines.hpp"
#include "msg.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
using namespace vh;
typedef std::map<std::pair<int,int>, double> Sh;

template <class T> struct Pair { Grid<T> g; std::map<std::pair<int,int>, T> m; int nx, ny, o; };
template <class T> static T val(Case& c) { return !std::is_integral<T>::value ? (T)c.r.uni(-8, 8) : (T)c.r.range(-9, 9); }

template <class T> static Pair<T> mk(Case& c, int nx, int ny, int o)
{
  Pair<T> p{Grid<T>(nx, ny, o), {}, nx, ny, o};
  for (int i = -o; i < nx + o; ++i) for (int j = -o; j < ny + o; ++j) { T v = val<T>(c); p.g.set((unsigned)i, (unsigned)j, v); p.m[{i, j}] = v; }
  return p;
}
template <class T> static bool cmp(Case& c, Pair<T>& p, const std::string& op)
{
  for (auto& e : p.m)
  {
    T got = p.g((unsigned)e.first.first, (unsigned)e.first.second);
    if (!c.ok(fabs((double)got - (double)e.second) <= 1e-9 * (1 + fabs((double)e.second)), op,
              fmt("after %s node %d,%d of %dx%d(+%d) holds %g, expected %g", op.c_str(), e.first.first, e.first.second, p.nx, p.ny, p.o, (double)got, (double)e.second))) return false;
  }
  return true;
}
// the sum of both contributions on the nodes that A (at 0,0) and B (at X,Y) both store, inside [x0,x1) x [y0,y1) of A's frame
template <class T> static void share(Pair<T>& a, Pair<T>& b, int X, int Y, int x0, int x1, int y0, int y1)
{
  for (int i = x0; i < x1; ++i) for (int j = y0; j < y1; ++j)
  {
    T s = a.m.at({i, j}) + b.m.at({i - X, j - Y});
    a.m.at({i, j}) = s; b.m.at({i - X, j - Y}) = s;
  }
}
template <class T> static void history(Case& c)
{
  int o = c.r.pick({0, 1, 2, 2, 2, 3});
  Pair<T> p = mk<T>(c, c.r.range(1, 9), c.r.range(1, 9), o);
  cmp(c, p, "set");
  int n = c.r.range(1, 12);
  std::string sig = fmt("%d:", o);
  for (int s = 0; s < n; ++s)
  {
    int i = c.r.range(-o, p.nx + o - 1), j = c.r.range(-o, p.ny + o - 1); T v = val<T>(c); if (v == 0) v = 1;
    if (!std::is_integral<T>::value && fabs((double)v) < 1e-3) v = 1;
    int k = c.r.range(0, 13); sig += char('a' + k);
    auto all = [&](std::function<void(T&)> f) { for (auto& e : p.m) if (e.first.first >= 0 && e.first.second >= 0 && e.first.first < p.nx && e.first.second < p.ny) f(e.second); };
    T& m = p.m[{i, j}]; std::string op; Grid<T>* ret = &p.g;
    switch (k)
    {
    case 0: op = "set"; p.g.set(i, j, v); m = v; break;
    case 1: op = "inc"; p.g.inc(i, j, v); m += v; break;
    case 2: op = "dec"; p.g.dec(i, j, v); m -= v; break;
    case 3: op = "mul"; p.g.m_a(i, j, v); m *= v; break;
    case 4: op = "div"; p.g.d_a(i, j, v); m /= v; break;
    case 5: op = "="; ret = &(p.g = v); all([&](T& x) { x = v; }); break;
    case 6: op = "+="; ret = &(p.g += v); all([&](T& x) { x += v; }); break;
    case 7: op = "-="; ret = &(p.g -= v); all([&](T& x) { x -= v; }); break;
    case 8: op = "*="; ret = &(p.g *= v); all([&](T& x) { x *= v; }); break;
    case 9: op = "/="; ret = &(p.g /= v); all([&](T& x) { x /= v; }); break;
    case 10: op = "overlay_set"; p.g.overlay_set(v); for (auto& e : p.m) if (e.first.first < 0 || e.first.second < 0 || e.first.first >= p.nx || e.first.second >= p.ny) e.second = v; break;
    case 11: { op = "copy"; Pair<T> q = mk<T>(c, p.nx, p.ny, o); p.g.copy(q.g); p.m = q.m; q.g.set(0, 0, 55); q.m[{0, 0}] = 55; cmp(c, q, "copy source"); break; }
    case 12: { op = "reference"; p.g(i, j) = v; m = v; break; }
    case 13: { op = "interior copy"; T** r = p.g(); for (int a = 0; a < p.nx; ++a) for (int b = 0; b < p.ny; ++b) c.ok(r[a][b] == p.g(a, b), "()()", "interior copy differs");
      for (int a = 0; a < p.nx; ++a) delete[] r[a]; delete[] r; break; }
    }
    c.ok(ret == &p.g, "return", op + " does not return the grid"); c.saw("op " + op);
    if (!cmp(c, p, op)) break;
  }
  c.state(sig);
  T** raw = p.g.get_grid(); c.ok(raw[o][o] == p.g(0, 0), "get_grid", "raw storage does not start at the ghost corner");
}
template <class T> static void exchange(Case& c)
{
  int o = c.r.pick({1, 2, 2, 2, 3});
  int ax = c.r.range(2 * o, 2 * o + 5), ay = c.r.range(2 * o, 2 * o + 5), bx = c.r.range(2 * o, 2 * o + 5), by = c.r.range(2 * o, 2 * o + 5);
  int k = c.r.range(0, 3); std::string op;
  if (k == 0) by = ay; if (k == 1) bx = ax;
  Pair<T> a = mk<T>(c, ax, ay, o), b = mk<T>(c, bx, by, o);
  switch (k)
  {
  case 0: op = "overlay_x"; a.g.overlay_x(b.g); share(a, b, ax, 0, ax - o, ax + o, 0, ay); break;
  case 1: op = "overlay_y"; a.g.overlay_y(b.g); share(a, b, 0, ay, 0, ax, ay - o, ay + o); break;
  case 2: op = "overlay_xy"; a.g.overlay_xy(b.g); share(a, b, ax, ay, ax - o, ax, ay - o, ay); share(a, b, ax, ay, ax, ax + o, ay, ay + o); break; // the mixed blocks belong to the side neighbours
  case 3: op = "overlay_yx"; a.g.overlay_yx(b.g); share(a, b, ax, -by, ax - o, ax, 0, o); share(a, b, ax, -by, ax, ax + o, -o, 0); break;
  }
  c.saw(op); c.state(fmt("%s %d %d %d %d %d", op.c_str(), o, ax, ay, bx, by));
  cmp(c, a, op + ":lhs"); cmp(c, b, op + ":rhs");
}
static void exchange3(Case& c)
{
  int o = 2, nx = c.r.range(4, 8), ny = c.r.range(4, 8), mx = nx, my = ny; int k = c.r.range(0, 3);
  if (k >= 2) { mx = c.r.range(4, 8); my = c.r.range(4, 8); }
  Grid3D<double> a(nx, ny, o), b(mx, my, o), a2(nx, ny, o), b2(mx, my, o);
  auto fill = [&](Grid3D<double>& g, Grid3D<double>& h, int X, int Y) { for (int q = 0; q < 3; ++q) for (int i = -o; i < X + o; ++i) for (int j = -o; j < Y + o; ++j) { double v = c.r.uni(-1, 1); g[q].set(i, j, v); h[q].set(i, j, v); } };
  fill(a, a2, nx, ny); fill(b, b2, mx, my);
  for (int q = 0; q < 3; ++q) { if (k == 0) a2[q].overlay_x(b2[q]); if (k == 1) a2[q].overlay_y(b2[q]); if (k == 2) a2[q].overlay_xy(b2[q]); if (k == 3) a2[q].overlay_yx(b2[q]); }
  if (k == 0) a.overlay_x(b); if (k == 1) a.overlay_y(b); if (k == 2) a.overlay_xy(b); if (k == 3) a.overlay_yx(b);
  auto cmp3 = [&](Grid3D<double>& g, Grid3D<double>& h, int X, int Y, const char* w) { for (int q = 0; q < 3; ++q) for (int i = -o; i < X + o; ++i) for (int j = -o; j < Y + o; ++j)
    { c.ok(g[q]((unsigned)i, (unsigned)j) == h[q]((unsigned)i, (unsigned)j), w, fmt("component %d node %d,%d", q, i, j)); c.ok(g(q, i, j) == g[q]((unsigned)i, (unsigned)j), "3d access", "read by component"); } };
  cmp3(a, a2, nx, ny, "3d exchange:lhs"); cmp3(b, b2, mx, my, "3d exchange:rhs");
  double v = c.r.uni(1, 2), w = c.r.uni(3, 4);
  a = v; a.overlay_set(w);
  for (int q = 0; q < 3; ++q) for (int i = -o; i < nx + o; ++i) for (int j = -o; j < ny + o; ++j)
    c.ok(a(q, i, j) == (i >= 0 && j >= 0 && i < nx && j < ny ? v : w), "3d assign", fmt("component %d node %d,%d after assigning interior and ghosts", q, i, j));
  bool f = false; try { a[3]; } catch (vshim::FatalError&) { f = true; } c.ok(f, "3d index", "component 3 is not rejected");
  c.state(fmt("%d %d %d %d %d", k, nx, ny, mx, my));
}
static void unequal(Case& c)
{
  int nx = c.r.range(4, 8), ny = c.r.range(4, 8); Grid<double> a(nx, ny, 2), x(nx, ny + c.r.range(1, 3), 2), y(nx + c.r.range(1, 3), ny, 2);
  a = 0; a.overlay_set(0); x = 0; x.overlay_set(0); y = 0; y.overlay_set(0);
  auto rej = [&](std::function<void()> f, const char* k) { bool t = false; try { f(); } catch (vshim::FatalError&) { t = true; } c.ok(t, k, "grids of different size are not rejected"); };
  rej([&] { a.overlay_x(x); }, "reject overlay_x"); rej([&] { a.overlay_y(y); }, "reject overlay_y"); rej([&] { a.copy(x); }, "reject copy"); rej([&] { a.copy(y); }, "reject copy");
  c.state(fmt("%d%d", nx, ny)); c.saw("rejections", 4);
}
int main(int argc, char** argv)
{
  vshim::throw_on_fatal = true;
  return run(argc, argv, "grid", {{"history", 6, history<double>}, {"history_int", 2, history<long>}, {"exchange", 6, exchange<double>}, {"exchange_int", 2, exchange<long>}, {"exchange3", 2, exchange3}, {"mismatch", 1, unequal}});
}
