// P21: vector algebra against a long double reference
#include "vh.hpp"
#include "defines.hpp"
#include "math/vector3d.hpp"
using namespace vh;
typedef vector3d<double> V;
typedef long double L;
struct A3 { double v[3]; };
static double comp(Case& c)
{
  switch (c.r.range(0, 7))
  {
  case 0: return 0;
  case 1: return c.r.sgn() * c.r.range(0, 5);
  case 2: return c.r.sgn() * c.r.logu(1e-30, 1e-10);
  case 3: return c.r.sgn() * c.r.logu(1e8, 1e30);
  default: return c.r.uni(-10, 10);
  }
}
static A3 a3(Case& c)
{
  A3 a; for (double& x : a.v) x = comp(c);
  if (c.r.chance(.1)) a.v[1] = a.v[2] = a.v[0];
  return a;
}
static V mk(const A3& a) { return V(a.v[0], a.v[1], a.v[2]); }
static void same(Case& c, V got, const L (&want)[3], const char* key, double scale = 0)
{
  for (int i = 0; i < 3; ++i)
    c.near(got[i], (double)want[i], 1e-12 * (fabs((double)want[i]) + scale), key, fmt("%s component %d", key, i));
}
static std::string cls(const A3& a, const A3& b)
{
  std::string s;
  for (double x : a.v) s += x == 0 ? '0' : fabs(x) < 1e-9 ? 's' : fabs(x) > 1e7 ? 'B' : x < 0 ? '-' : '+';
  for (double x : b.v) s += x == 0 ? '0' : fabs(x) < 1e-9 ? 's' : fabs(x) > 1e7 ? 'B' : x < 0 ? '-' : '+';
  return s;
}
static void algebra(Case& c)
{
  A3 a = a3(c), b = a3(c); double s = comp(c);
  c.state(cls(a, b));
  const double* x = a.v; const double* y = b.v;
  double ma = 0, mb = 0; for (int i = 0; i < 3; ++i) { ma = std::max(ma, fabs(x[i])); mb = std::max(mb, fabs(y[i])); }
  c.sample(fmt("a=(%g,%g,%g) b=(%g,%g,%g) s=%g", x[0], x[1], x[2], y[0], y[1], y[2], s));
  for (int i = 0; i < 3; ++i) c.ok(mk(a)[i] == x[i], "construct", "component differs from the constructor argument");
  { V z; for (int i = 0; i < 3; ++i) c.ok(z[i] == 0, "default", "default vector is not zero"); }
  { V p = mk(a); p[c.r.range(0, 2)] = s; V q = mk(a); int k = c.r.range(0, 2); q[k] = s;
    for (int i = 0; i < 3; ++i) c.ok(q[i] == (i == k ? s : x[i]), "index", "assigning one component changes another"); }
  L e[3];
  #define OP(name, key, op) { for (int i = 0; i < 3; ++i) e[i] = (L)x[i] op (L)y[i]; \
    V u = mk(a), w = mk(b); same(c, u op w, e, key); V t = mk(a); V& r = (t op##= w); same(c, t, e, key "=" ); c.ok(&r == &t, key "=:ref", "compound assignment does not return the object"); \
    same(c, u, {(L)x[0], (L)x[1], (L)x[2]}, key ":lhs changed"); same(c, w, {(L)y[0], (L)y[1], (L)y[2]}, key ":rhs changed"); \
    for (int i = 0; i < 3; ++i) e[i] = (L)x[i] op (L)s; \
    same(c, u op s, e, key " scalar"); V t2 = mk(a); t2 op##= s; same(c, t2, e, key "= scalar"); \
    same(c, u, {(L)x[0], (L)x[1], (L)x[2]}, key " scalar:lhs changed"); }
  // the operand is the vector itself, or its own component
  #define SELF(key, op) { int k = c.r.range(0, 2); for (int i = 0; i < 3; ++i) e[i] = (L)x[i] op (L)x[k]; V u = mk(a); same(c, u op u[k], e, key " own component"); \
    V t = mk(a); t op##= t[k]; same(c, t, e, key "= own component"); for (int i = 0; i < 3; ++i) e[i] = (L)x[i] op (L)x[i]; same(c, u op u, e, key " itself"); u op##= u; same(c, u, e, key "= itself"); c.saw("operations with itself"); }
  OP(add, "+", +) OP(sub, "-", -) OP(mul, "*", *)
  bool nz = s != 0 && y[0] != 0 && y[1] != 0 && y[2] != 0;
  if (nz) { OP(div, "/", /) c.saw("divisions"); }
  SELF("+", +) SELF("-", -) SELF("*", *)
  if (x[0] != 0 && x[1] != 0 && x[2] != 0) SELF("/", /)
  { V u = mk(a); int k = c.r.range(0, 2); u = u[k]; for (int i = 0; i < 3; ++i) c.ok(u[i] == x[k], "= own component", "assignment of the own component"); }
  { V u = mk(a); V& v = u; u = v; for (int i = 0; i < 3; ++i) c.ok(u[i] == x[i], "= itself", "assignment of itself"); V w = mk(a); V g = w.cross(w);
    L m = 0; for (int i = 0; i < 3; ++i) m += fabsl((L)x[i]); for (int i = 0; i < 3; ++i) c.near(g[i], 0, 1e-12 * (double)(m * m), "cross itself", "cross product with itself"); }
  L d = 0, dm = 0; for (int i = 0; i < 3; ++i) { d += (L)x[i] * y[i]; dm += fabsl((L)x[i] * y[i]); }
  { V u = mk(a), w = mk(b); c.near(u.dot(w), (double)d, 1e-12 * (double)dm, "dot", "dot product"); c.near(w.dot(u), (double)d, 1e-12 * (double)dm, "dot", "dot product (commuted)");
    same(c, u, {(L)x[0], (L)x[1], (L)x[2]}, "dot:lhs changed"); }
  L cr[3] = {(L)x[1] * y[2] - (L)x[2] * y[1], (L)x[2] * y[0] - (L)x[0] * y[2], (L)x[0] * y[1] - (L)x[1] * y[0]};
  L cs[3] = {fabsl((L)x[1] * y[2]) + fabsl((L)x[2] * y[1]), fabsl((L)x[2] * y[0]) + fabsl((L)x[0] * y[2]), fabsl((L)x[0] * y[1]) + fabsl((L)x[1] * y[0])};
  { V u = mk(a), w = mk(b); V g = u.cross(w);
    for (int i = 0; i < 3; ++i) c.near(g[i], (double)cr[i], 1e-12 * (double)cs[i], "cross", fmt("cross product component %d", i));
    same(c, w, {(L)y[0], (L)y[1], (L)y[2]}, "cross:rhs changed"); }
  L l2 = (L)x[0] * x[0] + (L)x[1] * x[1] + (L)x[2] * x[2];
  { V u = mk(a); c.near(u.length2(), (double)l2, 1e-12 * (double)l2, "length2", "squared length"); c.near(u.length(), (double)sqrtl(l2), 1e-12 * (double)sqrtl(l2), "length", "length");
    same(c, u, {(L)x[0], (L)x[1], (L)x[2]}, "length:changed"); }
  { V u = mk(a); V g = u.abs(); for (int i = 0; i < 3; ++i) c.ok(g[i] == fabs(x[i]), "abs", "absolute value"); }
  { V u = mk(a); V g = u.abs().pow(2.); for (int i = 0; i < 3; ++i) c.near(g[i], x[i] * x[i], 1e-12 * x[i] * x[i], "pow", "second power"); }
  { double q = c.r.pick({3., .5, -1., -2., 1., 0.}); bool some = true; for (int i = 0; i < 3; ++i) if (q < 0 && fabs(x[i]) < 1e-100) some = false;
    if (some) { V u = mk(a); V g = u.abs().pow(q); for (int i = 0; i < 3; ++i) { double w = (double)powl(fabsl((L)x[i]), q); c.near(g[i], w, 1e-11 * fabs(w), "pow", fmt("power %g of %g", q, x[i])); } c.saw("powers"); } }
  { V u; u = s; for (int i = 0; i < 3; ++i) c.ok(u[i] == s, "=scalar", "assignment of a number"); V w = mk(a); V q; q = w; for (int i = 0; i < 3; ++i) c.ok(q[i] == x[i], "=", "assignment");
    q[0] = x[0] + 1 + fabs(x[0]); c.ok(w[0] == x[0], "=alias", "copies share storage"); }
  // comparison: exactly component-wise
  A3 n = a; int k = c.r.range(0, 2); if (c.r.chance(.5)) { n.v[k] = nextafter(n.v[k], 1e300); }
  bool eq = n.v[0] == x[0] && n.v[1] == x[1] && n.v[2] == x[2];
  { V u = mk(a), w = mk(n); c.ok((u == w) == eq, "==", "comparison of vectors"); c.ok((u != w) == !eq, "!=", "comparison of vectors"); c.saw(eq ? "equal" : "unequal"); }
  bool es = x[0] == s && x[1] == s && x[2] == s;
  { V u = mk(a); c.ok((u == s) == es, "==scalar", "comparison with a number"); c.ok((u != s) == !es, "!=scalar", "comparison with a number"); }
  { A3 m{{s, s, s}}; if (c.r.chance(.5)) m.v[k] += 1 + fabs(s); bool e3 = m.v[k] == s; V u = mk(m); c.ok((u == s) == e3, "==scalar", "comparison with a number"); c.ok((u != s) == !e3, "!=scalar", "comparison with a number"); }
}
static void integers(Case& c)
{
  int x[3], y[3]; for (int i = 0; i < 3; ++i) { x[i] = c.r.range(-1000, 1000); y[i] = c.r.range(1, 50) * (c.r.chance(.5) ? 1 : -1); }
  int s = c.r.range(1, 40);
  vector3d<int> u(x[0], x[1], x[2]), w(y[0], y[1], y[2]);
  auto m = u % w, n = u % s; auto a = u + w; auto q = u * s;
  for (int i = 0; i < 3; ++i)
  {
    c.ok(m[i] == x[i] % y[i], "%", "remainder"); c.ok(n[i] == x[i] % s, "% scalar", "remainder by a number");
    c.ok(a[i] == x[i] + y[i], "+int", "integer sum"); c.ok(q[i] == x[i] * s, "*int", "integer product");
  }
  c.state(fmt("%d%d%d", x[0] < 0, x[1] < 0, x[2] < 0));
}
int main(int argc, char** argv) { return run(argc, argv, "vector", {{"algebra", 5, algebra}, {"integers", 1, integers}}); }
