// P26: how much, how often and with whom particles collide
#include "vworld.hpp"
#include <map>
#include <algorithm>
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
#include "collisions/collisionsTA77S.hpp"
typedef CollisionsTA77S Op;
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
#include "collisions/collisionsSK98.hpp"
typedef CollisionsSK98 Op;
#else
#include "collisions/collisionsP12.hpp"
typedef CollisionsP12 Op;
#endif
using namespace vh;
static time_t fake_now = 1; // the clock could be used to seed the pairing
extern "C" time_t time(time_t* t) noexcept { if (t) *t = fake_now; return fake_now; }
static const double C = 3e8, ME = 9.1e-31, QE = 1.6e-19, EPS = 8.85e-12, HB = 1.0545718e-34;
struct V { double x, y, z; double operator*(const V& b) const { return x * b.x + y * b.y + z * b.z; } V operator-(const V& b) const { return {x - b.x, y - b.y, z - b.z}; } V operator+(const V& b) const { return {x + b.x, y + b.y, z + b.z}; } V operator*(double k) const { return {x * k, y * k, z * k}; } double n() const { return sqrt(*this * *this); } };
static V get(Particle* p) { return {p->vel_r, p->vel_phi, p->vel_z}; }
static void put(Particle* p, V v) { p->vel_r = v.x; p->vel_phi = v.y; p->vel_z = v.z; }
static V dir(Case& c) { double z = c.r.uni(-1, 1), f = c.r.uni(0, 2 * M_PI), s = sqrt(1 - z * z); return {s * cos(f), s * sin(f), z}; }
// a macroparticle of a thin plasma can be less than one particle
static double density(Case& c) { return c.r.chance(.25) ? c.saw("thin plasmas"), c.r.logu(1e6, 1e12) : c.r.logu(1e14, 1e20); }
static double debye(double ne, double ni, double te, double ti) { return 7433.944 / sqrt(ne / te + ni / ti); }
// <1 - cos> of the pair in its center of mass per step
static double expect(double n, double ma, double mb, double qa, double qb, double u, double ld, double dt)
{ double m = ma * mb / (ma + mb), L = std::max(2., log(ld * m * u / HB)); return n * L * pow(qa * qb, 2) * dt / (4 * M_PI * pow(EPS * m, 2) * u * u * u); }
struct Plasma
{
  Geometry* g; TimeSim* t; SpecieP *el, *io; Op* op; double mi, qe, qi, vol;
  Plasma(Case& c, double qe_, double qi_, double mi_, int nr, int nz) : mi(mi_), qe(qe_), qi(qi_)
  {
    int r0 = c.r.chance(.5) ? 0 : c.r.range(4, 40); double dr = c.r.logu(1e-4, 1e-2), dz = dr * c.r.uni(.5, 2);
    g = vw::geom(r0, 0, nr, nz, r0 + nr + 4, nz + 4, dr, dz); t = vw::tsim(1e-12); el = vw::specie(g, t, "electrons", qe, 1, 0, 1e15, 1e15, 1, 1); io = vw::specie(g, t, "ions", qi, mi, 0, 1e15, 1e15, 1, 2);
    std::vector<SpecieP*> s = {el, io}; if (c.r.chance(.5)) std::swap(s[0], s[1]); op = new Op(g, t, s);
  }
  double volume(int i) { double a = g->cell_size[0], r = i + g->cell_dims[0]; return M_PI * a * a * g->cell_size[1] * (2 * r + 1); }
  Particle* add(Case& c, bool ion, int i, int k, double w) { return vw::particle(ion ? io : el, (i + g->cell_dims[0] + c.r.uni(.05, .95)) * g->cell_size[0], (k + c.r.uni(.05, .95)) * g->cell_size[1], w); }
  ~Plasma() { vw::drop(el); vw::drop(io); delete op; }
};
// electrons stream through ions: all the relative velocities are known
[[maybe_unused]] static void stream(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000); double mi = c.r.pick({1., 2., 1836., 7344.}), qi = c.r.pick({1., 2.});
  int nr = c.r.range(2, 4), nz = c.r.range(2, 4), ne = c.r.range(1, 9), ni = c.r.chance(.3) ? ne : c.r.range(1, 9); Plasma P(c, -1, qi, mi, nr, nz);
#if !defined(SWITCH_COULOMB_COLLISIONS_TA77S)
  bool fast = c.r.chance(.25);
#else
  bool fast = false;
#endif
  double u = fast ? c.r.uni(5.2e7, 6.5e7) : c.r.logu(2e6, 3e7), dens = density(c); V ud = dir(c); if (c.r.chance(.1)) ud = {0, 0, c.r.pick({1., -1.})};
  // the frame must not matter: ions, electrons or the center of mass are (nearly) at rest, or none of them
  double f = c.r.pick({0., 1., mi / (1 + mi), .5}); V vi = ud * (-u * f) + dir(c) * (u * c.r.pick({1e-3, 1e-2, fast ? .01 : .3})), ve = vi + ud * u; double wr = c.r.pick({1., 1., 1 - 1e-9, 1 + 1e-9});
  std::vector<Particle*> pe, pi; std::vector<double> se, si; double s0 = c.r.logu(1e-6, 2e-3), smax = 0;
  double te = ME * (ve * ve) / 2 / QE, ti = ME * mi * (vi * vi) / 2 / QE;
  for (int i = 0; i < nr; ++i) for (int k = 0; k < nz; ++k)
  {
    double w = dens * P.volume(i); for (int n = 0; n < ne; ++n) pe.push_back(P.add(c, false, i, k, w)); for (int n = 0; n < ni; ++n) pi.push_back(P.add(c, true, i, k, w * wr));
  }
  double n1 = dens * ne, n2 = dens * ni, nl = std::min(n1, n2), s1 = expect(nl, ME, ME * mi, QE, qi * QE, u, debye(n1, n2, te, ti), 1); P.t->step = s0 / s1; smax = s0;
  double mab = mi / (1 + mi), sume = 0, sumi = 0, K = 0, pm[2] = {0, 0}, pv[2] = {0, 0}, pq = 0; int lazy = 0, pairs = std::max(ne, ni) * nr * nz;
  V a = fabs(ud.z) < .9 ? V{-ud.y, ud.x, 0} : V{0, -ud.z, ud.y}; a = a * (1 / a.n()); V b = {ud.y * a.z - ud.z * a.y, ud.z * a.x - ud.x * a.z, ud.x * a.y - ud.y * a.x};
  while (K < 6000)
  {
    for (auto p : pe) put(p, ve); for (auto p : pi) put(p, vi); if (c.r.chance(.5)) ++fake_now;
    (*P.op)(); K += pairs;
    for (auto p : pe) { V d = get(p) - ve; double x = (d * d) / pow(mab * u, 2) / 2; sume += x; lazy += !(d.n() > 0); double q[2] = {d * a, d * b}; for (int k = 0; k < 2; ++k) { pm[k] += q[k]; pv[k] += q[k] * q[k]; } pq += (d * d) * (d * d); }
    for (auto p : pi) { V d = get(p) - vi; sumi += (d * d) / pow(mab / mi * u, 2) / 2; lazy += !(d.n() > 1e-13 * vi.n()) && ni <= ne; }
  }
  std::string where = fmt("%d electrons, %d ions of mass %g and charge %g, relative velocity %.3g, frame %g, ion velocity %.3g, density %.3g, <1-cos> %.3g", ne, ni, mi, qi, u, f, vi.n(), nl, s0);
  double lim = 7 * sqrt(2 / K) + .03 + 12 * smax * std::max(ne, ni) / std::min(ne, ni) + (fast ? .25 : 3 * u * u / C / C + .4 * (ve.n() + vi.n()) * (ve.n() + vi.n()) / C / C);
  std::string t = fast ? "fast " : "";
  c.ok(fabs(sume / K / s0 - 1) < lim, t + "rate:electrons", fmt("electrons scatter %.4g times as intensively as expected (limit %.3g): ", sume / K / s0, lim) + where);
  if (mab / mi * u * sqrt(s0) > 1e-9 * vi.n()) c.ok(fabs(sumi / K / s0 - 1) < lim, t + "rate:ions", fmt("ions scatter %.4g times as intensively as expected (limit %.3g): ", sumi / K / s0, lim) + where);
  c.ok(lazy <= 0 + (int)(K * 1e-3), "everyone", fmt("%d times of %g particles did not collide: ", lazy, K) + where);
  double N = K / std::max(ne, ni) * ne; for (int k = 0; k < 2; ++k) c.ok(fabs(pm[k]) < 7 * sqrt(pv[k]), "azimuth:mean", fmt("scattering prefers a side: %g standard deviations ", pm[k] / sqrt(pv[k])) + where);
  c.ok(fabs(pv[0] - pv[1]) < 8 * sqrt(pq), "azimuth:plane", fmt("scattering prefers a plane: %g against %g ", pv[0] / N, pv[1] / N) + where);
  c.saw("pairs scattered", K); c.saw(fast ? "fast streams" : "streams"); c.state(fmt("%d/%d m%g q%g f%g w%d %d", ne, ni, mi, qi, f, wr != 1, fast)); c.sample(where);
}
// electrons move in all the directions through heavy ions of a large charge: works for schemes, that keep momentum and energy of every species
static void thermal(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000); const double mi = 1836 * c.r.pick({1., 40.}), qi = c.r.uni(30, 70); Plasma P(c, -1, qi, mi, 2, 2); int ne = c.r.range(2, 12), ni = c.r.chance(.2) ? ne : c.r.range(2, 12);
  double v0 = c.r.logu(3e6, 2e7), dens = density(c); std::vector<V> v; while ((int)v.size() < ne) // total momentum is zero
  {
    V d = dir(c) * v0, a = dir(c), b; if ((ne - v.size()) % 2 == 0) { v.push_back(d); v.push_back(d * -1); continue; }
    a = a - d * ((a * d) / (d * d)); if (a.n() < .01) continue; b = a * (v0 * sqrt(.75) / a.n()); v.push_back(d); v.push_back(d * -.5 + b); v.push_back(d * -.5 - b);
  }
  V vi = dir(c) * (v0 * 1e-3); std::vector<Particle*> e, o; double w = dens * P.volume(1); for (int k = 0; k < ne; ++k) e.push_back(P.add(c, false, 1, 1, w)); for (int k = 0; k < ni; ++k) o.push_back(P.add(c, true, 1, 1, w));
  double te = ME * v0 * v0 / 2 / QE, ti = ME * mi * (vi * vi) / 2 / QE, ld = debye(dens * ne, dens * ni, te, ti), sei = expect(dens * std::min(ne, ni), ME, ME * mi, QE, qi * QE, v0, ld, 1), want = 0;
  double s0 = c.r.logu(1e-6, 1e-3); P.t->step = s0 / sei; sei = s0; for (int i = 0; i < ne; ++i) for (int k = 0; k < i; ++k) { double u = (v[i] - v[k]).n(); if (u > 1e-3 * v0) want += u * u * P.t->step * expect(dens * ne, ME, ME, QE, QE, u, ld, 1) / (ne - 1); }
  double ee = want, ei = 2 * v0 * v0 * sei * pow(mi / (1 + mi), 2) * std::max(ne, ni); want += ei;
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
  want -= ei / ne; // mean velocity of electrons is kept
#endif
  int K = 24000 / ne; double got = 0; for (int k = 0; k < K; ++k) { for (int i = 0; i < ne; ++i) put(e[i], v[i]); for (auto x : o) put(x, vi); ++fake_now; (*P.op)(); for (int i = 0; i < ne; ++i) { V d = get(e[i]) - v[i]; got += d * d; } }
  double lim = 8 * sqrt(2. / K / ne) + .03 + 30 * s0 * std::max(1., (double)ni / ne) + 5 * v0 * v0 / C / C + 3 * ee / want; std::string where = fmt("%d electrons of %.3g m/s among %d ions of mass %g and charge %.3g, density %.3g, <1-cos> %.3g", ne, v0, ni, mi, qi, dens, s0);
  c.ok(fabs(got / K / want - 1) < lim, "rate:thermal", fmt("electrons scatter %.4g times as intensively as expected (limit %.3g): ", got / K / want, lim) + where);
  c.saw("thermal cases"); c.saw("pairs scattered", (uint64_t)K * ne); c.state(fmt("thermal %d/%d m%g", ne, ni, mi)); c.sample(where);
}
// collisions inside one species (the other is almost neutral): every particle collides once per step in average
static void like(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000); bool ion = c.r.chance(.4); double mi = c.r.pick({2., 1836., 7344.}), q = ion ? c.r.pick({1., 2.}) : -1; Plasma P(c, ion ? -1e-6 : -1, ion ? q : 1e-6, mi, 2, 2);
  int n = c.r.range(2, 9), other = c.r.range(1, 5); double v0 = c.r.logu(3e6, 2e7), dens = density(c), m = ion ? mi : 1; std::vector<V> v; V drift = dir(c) * (v0 * c.r.uni(0, .5));
  for (int tries = 0; (int)v.size() < n && tries < 100000; ++tries) { V x = dir(c) * (v0 * c.r.uni(.3, 1)); bool far = true; for (auto& y : v) far &= (x - y).n() > .45 * v0; if (far) v.push_back(x); } n = v.size(); for (auto& x : v) x = x + drift;
  std::vector<Particle*> p, o; double w = dens * P.volume(0) / n; for (int k = 0; k < n; ++k) p.push_back(P.add(c, ion, 0, 0, w)); V vo = dir(c) * (ion ? v0 : v0 / 50); for (int k = 0; k < other; ++k) { o.push_back(P.add(c, !ion, 0, 0, w)); put(o.back(), vo); }
  double ek = 0; for (auto& x : v) ek += ME * m * (x * x) / 2 / n / QE; double eo = ME * (ion ? 1 : mi) * (vo * vo) / 2 / QE, no = dens / n * other, ld = ion ? debye(no, dens, eo, ek) : debye(dens, no, ek, eo);
  double want = 0, worst = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) { double u = (v[i] - v[k]).n(), s = expect(dens, ME * m, ME * m, q * QE, q * QE, u, ld, 1); want += u * u * s / (n - 1); worst = std::max(worst, s); }
  double s0 = c.r.logu(1e-6, 2e-3), got = 0; P.t->step = s0 / worst; want *= P.t->step; int K = std::max(400, 9000 / n), touched = 0;
  for (int k = 0; k < K; ++k) { for (int i = 0; i < n; ++i) put(p[i], v[i]); ++fake_now; (*P.op)(); for (int i = 0; i < n; ++i) { V d = get(p[i]) - v[i]; got += d * d; touched += d.n() > 1e-3 * sqrt(s0) * .3 * v0; } }
  double lim = 9 * sqrt(2 / (K * n / 2.)) * 1.3 + .03 + 12 * s0 + 5 * v0 * v0 / C / C; std::string where = fmt("%d %s of mass %g, velocity %.3g, density %.3g, <1-cos> up to %.3g", n, ion ? "ions" : "electrons", m, v0, dens, s0);
  c.ok(fabs(got / K / want - 1) < lim, n % 2 ? "rate:odd" : "rate:even", fmt("particles scatter %.4g times as intensively as expected (limit %.3g): ", got / K / want, lim) + where);
  c.ok(touched > .97 * K * n, "everyone:like", fmt("particles collided %d times of %d: ", touched, K * n) + where);
  c.saw("like cases"); c.saw("pairs scattered", (uint64_t)K * n / 2); c.state(fmt("like %d %d m%g %d", n, ion, m, other)); c.sample(where);
}
#if defined(__SANITIZE_ADDRESS__)
static const bool SAN = true;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
static const bool SAN = true;
#else
static const bool SAN = false;
#endif
#else
static const bool SAN = false;
#endif
// distribution of the scattering angle of one pair, large angles included
static double cdf_normal(double x) { return .5 * erfc(-x / sqrt(2.)); }
static void angles(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000); double mi = c.r.pick({1., 2., 1836.}), q = c.r.pick({1., 2.}); bool cold = false;
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  const bool unlike = c.r.chance(.6); double s0 = c.r.logu(1e-3, 10); cold = c.r.chance(.35);
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
  const bool unlike = c.r.chance(.6); double s0 = c.r.logu(1e-3, .3);
#else
  const bool unlike = false; double s0 = c.r.logu(1e-3, 3); // velocities of one species are restored by the scheme
#endif
  Plasma P(c, unlike ? -1 : -q, unlike ? q : 1e-9, unlike ? mi : 1836, 1, 1); double u = cold ? c.r.logu(1e5, 9e5) : c.r.logu(2e6, 1.5e7), n = cold ? c.r.logu(1e16, 1e28) : density(c), w = n * P.volume(0) / (unlike ? 1 : 2), mb = unlike ? mi : 1;
  Particle *a = P.add(c, false, 0, 0, w), *b = P.add(c, unlike, 0, 0, w), *o = unlike ? nullptr : P.add(c, true, 0, 0, w); V ud = dir(c), vb = dir(c) * (u * c.r.uni(.1, 1)), va = vb + ud * u, vo = dir(c) * (u / 50);
  double te = ME * (unlike ? va * va : (va * va + vb * vb) / 2) / 2 / QE, ti = ME * P.mi * (unlike ? vb * vb : vo * vo) / 2 / QE, ni = unlike ? n : n / 2, qa = unlike ? QE : q * QE, qb = q * QE;
  double s1 = expect(n, ME, ME * mb, qa, qb, u, debye(n, ni, te, ti), 1), top = 1e300;
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  if (cold) { double m1 = ME, m2 = ME * mb; top = pow(4 * M_PI / 3, 1. / 3) * n * (m1 + m2) / std::max(m1 * pow(n, 2. / 3), m2 * pow(n, 2. / 3)) * u; } // free path is not shorter than distance between particles
#endif
  bool limited = top < s1; s1 = std::min(s1, top); P.t->step = s0 / s1; const int K = SAN ? 3000 : 40000; std::vector<double> x; double far = 0;
  // angle of the particle in the center of mass by the theory of the scheme
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  double e = exp(-s0), A = 0; if (s0 < .01) A = 1 / s0; else { double lo = 1e-6, hi = 2000; for (int k = 0; k < 200; ++k) { A = (lo + hi) / 2; (1 / tanh(A) - 1 / A < e ? lo : hi) = A; } }
  auto cdf = [&](double y) { return A > 300 ? exp(-A * (1 - y)) : (exp(A * (y - 1)) - exp(-2 * A)) / (1 - exp(-2 * A)); };
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
  double k1 = 1 - mb / (1 + mb), sd = sqrt(s0 / 2) * k1; // b is scattered in the rest frame of a
  auto cdf = [&](double y) { double lo = 0, hi = M_PI; for (int k = 0; k < 100; ++k) { double t = (lo + hi) / 2; (atan2(sin(t), cos(t) - (1 - k1)) < acos(y) ? lo : hi) = t; } return 2 * (1 - cdf_normal(tan(lo / 2) / sd)); };
#else
  double sd = sqrt(s0 / 2); auto cdf = [&](double y) { return 2 * (1 - cdf_normal(sqrt((1 - y) / (1 + y)) / sd)); };
#endif
  for (int k = 0; k < K; ++k) { put(a, va); put(b, vb); if (o) put(o, vo); if (c.r.chance(.5)) ++fake_now; (*P.op)(); V r = get(a) - get(b); far = std::max(far, fabs(r.n() / u - 1)); V d = r - (va - vb); x.push_back(std::max(-1., std::min(1., 1 - (d * d) / (2 * u * u)))); }
  std::sort(x.begin(), x.end()); double ks = 0; for (int k = 0; k < K; ++k) { double F = cdf(x[k]); ks = std::max(ks, std::max(fabs(F - (double)k / K), fabs(F - (k + 1.) / K))); }
  std::string where = fmt("pair %s of mass %g, charge %g, relative velocity %.3g, density %.3g, s %.3g%s", unlike ? "electron, ion" : "of electrons", mb, q, u, n, s0, limited ? " (cold plasma limit)" : "");
  double m = 0, q2 = 0; for (double y : x) { m += y / K; q2 += y * y / K; } double sm = sqrt(std::max(0., q2 - m * m) / K), um = u * u / C / C;
  c.ok(ks < 3.2 / sqrt(K) + .01 + 3 * um, cold ? "angle:cold" : "angle", fmt("scattering angle does not follow the distribution of the scheme (distance %.3g, mean cosine %.4g): ", ks, m) + where);
#if defined(SWITCH_COULOMB_COLLISIONS_P12)
  c.ok(fabs(m - exp(-s0)) < 7 * sm + .005 + 5 * um * (1 - exp(-s0)), cold ? "angle:mean:cold" : "angle:mean", fmt("mean cosine is %.4g, expected %.4g +- %.2g: ", m, exp(-s0), sm) + where);
#endif
  c.ok(far < 10 * u * u / C / C * 4 + 1e-6, "angle:relative velocity", fmt("relative velocity changed by %.3g of it: ", far) + where);
  c.saw("angle cases"); if (limited) c.saw("cold plasma limits"); c.saw("pairs scattered", K); c.state(fmt("angle %d m%g q%g %d s%d", unlike, mb, q, cold + limited, (int)(3 * log10(s0)))); c.sample(where);
}
// pairing is drawn anew in every cell and at every step, also during one second
static void pairs(Case& c)
{
  loguru::g_stderr_verbosity = loguru::Verbosity_FATAL; fake_now = 1 + c.r.range(0, 1000000); Plasma P(c, -1, 1e-6, 1836, 2, 1); const int n = 4; double v0 = 1e7; std::vector<Particle*> p[2]; V vo = {1e5, 0, 0};
  for (int i = 0; i < 2; ++i) { double w = 1e16 * P.volume(i); for (int k = 0; k < n; ++k) p[i].push_back(P.add(c, false, i, 0, w)); put(P.add(c, true, i, 0, w), vo); }
  std::vector<V> v; while ((int)v.size() < n) { V x = dir(c) * v0; bool far = true; for (auto& y : v) far &= (x - y).n() > .5 * v0; if (far) v.push_back(x); }
  P.t->step = 1e-4 / expect(4e16, ME, ME, QE, QE, v0, 1e-3, 1); int K = 240, joint[3][3] = {}, one[2][3] = {}, bad = 0;
  for (int k = 0; k < K; ++k)
  {
    int w[2]; for (int i = 0; i < 2; ++i) for (int q = 0; q < n; ++q) put(p[i][q], v[q]);
    (*P.op)();
    for (int i = 0; i < 2; ++i) { V d = get(p[i][0]) - v[0]; w[i] = -1; for (int q = 1; q < n; ++q) if ((d + (get(p[i][q]) - v[q])).n() < 2e-2 * d.n()) w[i] = q - 1; }
    if (w[0] < 0 || w[1] < 0) { ++bad; continue; } ++joint[w[0]][w[1]]; ++one[0][w[0]]; ++one[1][w[1]];
  }
  if (!c.ok(bad < K / 4, "partner", fmt("no partner with the opposite change of momentum in %d steps of %d", bad, K))) return; double N = K - bad;
  for (int i = 0; i < 2; ++i) for (int q = 0; q < 3; ++q) c.ok(fabs(one[i][q] - N / 3) < 7 * sqrt(N * 2 / 9.), "pairs:repeat", fmt("electron meets the same partner %d times of %g", one[i][q], N));
  for (int q = 0; q < 3; ++q) for (int r = 0; r < 3; ++r) c.ok(fabs(joint[q][r] - N / 9) < 7 * sqrt(N * 8 / 81.), "pairs:cells", fmt("pairs of two cells coincide %d times of %g", joint[q][r], N));
  c.saw("pairings", (uint64_t)N * 2); c.state(fmt("pairs %llu", (unsigned long long)c.idx));
}
int main(int argc, char** argv) { return run(argc, argv, "rates", {
#if !defined(SWITCH_COULOMB_COLLISIONS_TA77S)
    {"stream", 4, stream, true},
#endif
    {"thermal", 3, thermal, true}, {"like", 3, like, true}, {"angles", 3, angles, true}, {"pairs", 1, pairs, true}}); }
