// P23: samplers: range, distribution (Kolmogorov-Smirnov with wide margins), low discrepancy, thread independence
#include "vh.hpp"
#include "defines.hpp"
#include "constant.hpp"
#include "math/rand.hpp"
#include "math/maxwellJuettner.hpp"
#include <algorithm>
using namespace vh;

// sup |F_n - F|, compared with 4/sqrt(n) (probability of exceeding it by chance ~ 2 exp(-32))
static void ks(Case& c, std::vector<double>& v, std::function<double(double)> F, const std::string& key)
{
  std::sort(v.begin(), v.end());
  double n = v.size(), d = 0;
  for (size_t i = 0; i < v.size(); ++i) { double f = F(v[i]); d = std::max({d, fabs(f - i / n), fabs((i + 1) / n - f)}); }
  c.ok(d < 4 / sqrt(n), key, fmt("distance to the stated distribution %.4g at %zu samples (limit %.4g)", d, v.size(), 4 / sqrt(n)));
  size_t dup = 0; for (size_t i = 1; i < v.size(); ++i) dup += v[i] == v[i - 1];
  c.ok(dup <= n / 1000, key + ":repeats", fmt("%zu repeated values of %zu", dup, v.size()));
  // correlation of successive draws is checked by the callers before sorting
}
static void serial(Case& c, const std::vector<double>& v, const std::string& key)
{
  double m = 0, s = 0, k = 0; for (double x : v) m += x; m /= v.size();
  for (size_t i = 0; i + 1 < v.size(); ++i) { s += (v[i] - m) * (v[i] - m); k += (v[i] - m) * (v[i + 1] - m); }
  c.ok(fabs(k / s) < 7 / sqrt((double)v.size()), key + ":serial", fmt("successive draws correlate: %g", k / s));
}
static void uniform(Case& c)
{
  int n = c.r.pick({1000, 5000, 20000}); int which = c.r.range(0, 3);
  double lo[] = {0, 0, -1, 0}, hi[] = {1, 1 - 1e-11, 1, 2 * constant::PI};
  const char* nm[] = {"uniform", "uniform1", "uniform2", "uniform_angle"};
  double (*f[])() = {math::random::uniform, math::random::uniform1, math::random::uniform2, math::random::uniform_angle};
  std::vector<double> v(n);
  for (double& x : v) x = f[which]();
  for (double x : v) if (!(x >= lo[which] && x <= hi[which])) { c.fail(std::string(nm[which]) + ":range", fmt("%.17g", x)); break; }
  serial(c, v, nm[which]);
  double a = lo[which], b = hi[which];
  c.sample(fmt("%s: %d draws, first %g", nm[which], n, v[0]));
  ks(c, v, [=](double x) { return (x - a) / (b - a); }, nm[which]);
  c.state(fmt("%s,%d,%llx", nm[which], n, (unsigned long long)rd_state)); c.saw("samples", n);
}
static void normal(Case& c)
{
  int n = c.r.pick({1000, 5000, 20000}); double sd = c.r.chance(.05) ? 1 : c.r.logu(1e-8, 1e8);
  // species of different temperature draw from the same generator in turns
  int m = c.r.range(1, 3); std::vector<double> w{sd}; while ((int)w.size() < m) w.push_back(sd * c.r.logu(1e-3, 1e3));
  std::vector<std::vector<double>> v(m); int left = n * m;
  while (left > 0) { int k = c.r.range(0, m - 1), q = std::min({left, c.r.range(1, 400), n - (int)v[k].size()}); for (int i = 0; i < q; ++i) v[k].push_back(math::random::normal(w[k])); left -= q; }
  for (int k = 0; k < m; ++k)
  {
    serial(c, v[k], "normal");
    ks(c, v[k], [=](double x) { return .5 * erfc(-x / w[k] / sqrt(2.)); }, m > 1 ? "normal:mixed widths" : "normal");
  }
  c.state(fmt("%d,%d", (int)log10(sd), n)); c.saw("samples", n);
}
static double gamma_cdf32(double x) { return erf(sqrt(x)) - 2 / sqrt(M_PI) * sqrt(x) * exp(-x); } // Maxwell-Boltzmann energy
static void thermal(Case& c)
{
  // energies in units of m c^2; classical branch: Maxwell-Boltzmann energy distribution
  int n = c.r.pick({2000, 10000, 40000}); double T = c.r.logu(1e-8, .0999);
  std::vector<double> v = math::maxwell_juettner::maxwellJuettner(n, T);
  c.ok((int)v.size() == n, "juettner:count", "number of samples");
  for (double x : v) if (!(x >= 0 && std::isfinite(x) && x < 40 * T)) { c.fail("juettner:range", fmt("energy %g at temperature %g", x, T)); break; }
  serial(c, v, "juettner");
  double m = 0; for (double x : v) m += x; m /= n;
  c.near(m, 1.5 * T, 7 * T * sqrt(1.5 / n) + .003 * T, "juettner:mean", "mean energy");
  for (double& x : v) x /= T;
  ks(c, v, gamma_cdf32, "juettner");
  // the cold tail: P(E < x T) ~ 4/(3 sqrt(pi)) x^1.5
  double xq = .01; double p = gamma_cdf32(xq), cnt = 0; for (double x : v) cnt += x < xq;
  c.ok(fabs(cnt - n * p) < 7 * sqrt(n * p) + 6, "juettner:cold", fmt("%g energies below 0.01 T, expected %g", cnt, n * p));
  c.state(fmt("%d,%d", (int)log10(T), n)); c.saw("samples", n);
}
static void cold(Case& c)
{ // many samples: the coldest branch (probability 6e-4 per draw)
  int n = 200000; double T = c.r.logu(1e-6, .09);
  std::vector<double> v = math::maxwell_juettner::maxwellJuettner(n, T);
  for (double xq : {.002, .004, .008, .0088, .012, .03})
  {
    double p = gamma_cdf32(xq), cnt = 0; for (double x : v) cnt += x < xq * T;
    c.ok(fabs(cnt - n * p) < 6.5 * sqrt(n * p) + 6 + .02 * n * p, "juettner:cold tail", fmt("%g of %d energies below %g T, expected %.1f", cnt, n, xq, n * p));
  }
  c.state(fmt("%d", (int)(10 * log10(T)))); c.saw("samples", n);
}
static double mj_cdf(double g, double T)
{ // numerically: integral of gamma^2 beta exp(-gamma/T)
  auto f = [&](double x) { return x * sqrt(x * x - 1) * exp(-(x - 1) / T); };
  auto integ = [&](double b) { int N = 4000; double a = 1, s = 0; // substitution x = 1 + t^2
    double tb = sqrt(b - a), h = tb / N; for (int i = 0; i <= N; ++i) { double t = i * h; s += f(1 + t * t) * 2 * t * (i == 0 || i == N ? 1 : i % 2 ? 4 : 2); } return s * h / 3; };
  static thread_local double lastT = -1, norm = 0;
  if (lastT != T) { norm = integ(1 + 60 * T); lastT = T; }
  return integ(g) / norm;
}
static void juettner(Case& c)
{
  int n = c.r.pick({400, 1000}); double T = c.r.logu(.1001, 10);
  std::vector<double> v = math::maxwell_juettner::maxwellJuettner(n, T);
  c.ok((int)v.size() == n, "juettner:count", "number of samples");
  for (double x : v) if (!(x >= 0 && std::isfinite(x) && x < 60 * T + 1)) { c.fail("juettner:range", fmt("energy %g at temperature %g", x, T)); break; }
  serial(c, v, "juettner_rel");
  ks(c, v, [=](double e) { return mj_cdf(1 + e, T); }, "juettner_rel");
  c.state(fmt("%d,%d", (int)(3 * log10(T)), n)); c.saw("samples", n);
}
static void rev_seq(Case& c)
{
  int base = c.r.pick({2, 3, 5, 7, 11, 13}), n = c.r.range(1, 3000), off = c.r.chance(.5) ? 0 : c.r.range(0, 100000);
  std::vector<double> v;
  for (int i = 0; i < n; ++i)
  {
    double x = math::random::random_reverse(off + i, base);
    long k = off + i; long double w = 0, f = 1.0L / base; while (k) { w += (k % base) * f; k /= base; f /= base; }
    c.near(x, (double)w, 1e-12, "random_reverse", fmt("element %d in base %d", off + i, base));
    c.ok(x >= 0 && x < 1, "random_reverse:range", fmt("%g", x)); v.push_back(x);
  }
  std::sort(v.begin(), v.end());
  for (int i = 1; i < n; ++i) if (v[i] - v[i - 1] < 1e-12) { c.fail("random_reverse:repeats", "repeated value"); break; }
  c.near(math::random::random_reverse(off + c.r.uni(.01, .99), base), math::random::random_reverse(off, base), 1e-12, "random_reverse:floor", "fractional argument");
  c.state(fmt("%d,%d", base, off > 0));
}
static void mixed(Case& c)
{ // draws of all the samplers, interleaved in one thread: every one keeps its own distribution
  double T[2] = {c.r.logu(1e-6, .09), c.r.logu(1e-6, .09)}, R = c.r.logu(.11, 3), sd[2] = {c.r.logu(1e-6, 1e6), c.r.logu(1e-6, 1e6)};
  std::vector<double> v[9]; int K = 9;
  for (int round = 0; round < 60 * K; ++round)
  {
    int k = c.r.range(0, K - 1), q = c.r.range(1, 80);
    if (k == 8) q = std::min(q, 10); // slow
    if (k >= 6) { auto a = math::maxwell_juettner::maxwellJuettner(q, k == 8 ? R : T[k - 6]); v[k].insert(v[k].end(), a.begin(), a.end()); }
    else for (int i = 0; i < q; ++i)
      v[k].push_back(k == 0 ? math::random::uniform() : k == 1 ? math::random::uniform1() : k == 2 ? math::random::uniform2() : k == 3 ? math::random::uniform_angle() : math::random::normal(sd[k - 4]));
  }
  const char* nm[] = {"uniform", "uniform1", "uniform2", "uniform_angle", "normal", "normal", "juettner", "juettner", "juettner_rel"};
  for (int k = 0; k < K; ++k) if (v[k].size() > 20)
  {
    serial(c, v[k], std::string("mixed:") + nm[k]);
    ks(c, v[k], [&](double x) { return k < 2 ? x : k == 2 ? (x + 1) / 2 : k == 3 ? x / 2 / constant::PI : k < 6 ? .5 * erfc(-x / sd[k - 4] / sqrt(2.)) : k < 8 ? gamma_cdf32(x / T[k - 6]) : mj_cdf(1 + x, R); }, std::string("mixed:") + nm[k]);
    c.saw("samples", v[k].size());
  }
  c.state(fmt("%d,%d,%d", (int)log10(T[0]), (int)log10(T[1]), (int)(3 * log10(R))));
}
static void threads(Case& c)
{ // every thread draws its own sequence
  int nt = c.r.range(2, 6), n = 300;
  std::vector<std::vector<double>> v(nt); std::vector<std::thread> t;
  for (int i = 0; i < nt; ++i) t.emplace_back([&, i] { for (int k = 0; k < n; ++k) v[i].push_back(math::random::uniform()); });
  for (auto& x : t) x.join();
  std::vector<double> all; for (auto& x : v) for (double y : x) all.push_back(y);
  ks(c, all, [](double x) { return x; }, "threads");
  for (int i = 0; i < nt; ++i) for (int j = i + 1; j < nt; ++j)
  {
    double k = 0; for (int q = 0; q < n; ++q) k += (v[i][q] - .5) * (v[j][q] - .5) * 12;
    c.ok(fabs(k / n) < 8 / sqrt((double)n), "threads:correlated", fmt("sequences of two threads correlate: %g", k / n));
  }
  c.state(fmt("%d,%llu", nt, (unsigned long long)c.idx)); c.saw("thread groups");
}
int main(int argc, char** argv)
{
  return run(argc, argv, "random", {{"uniform", 6, uniform, true}, {"normal", 3, normal, true}, {"thermal", 4, thermal, true}, {"cold", 1, cold, true},
    {"juettner", 1, juettner, true}, {"reverse", 3, rev_seq}, {"threads", 2, threads}, {"mixed", 1, mixed, true}});
}
