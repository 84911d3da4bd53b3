#include "common.h"
#include <memory>
#include "random.h"
using namespace cuhksz;
#ifdef VERIF_ENGINE_H
std::vector<unsigned long long> vf_script;
unsigned long long vf_draws = 0, vf_tail = 0;
#endif
void vf_reset() {}
// how: 0 built over the given generator, 1 built with a generator of its own that is then replaced
template <class D, class... P> static std::unique_ptr<D> mk(Random& g, int how, P... p) {
  if (how == 0) return std::unique_ptr<D>(new D(g, p...));
  std::unique_ptr<D> d(new D(p...)); d->setRandomGenerator(g); return d;
}
template <class F> static void disc(const Ints& a, Random& g, int how, F f) {
  double p = (double)a[2] / a[3]; int n = a[1];
  switch (a[0]) {
    case 1: f([d = std::shared_ptr<BernoulliDistribution>(mk<BernoulliDistribution>(g, how, p))]() -> ll { return d->next(); }); return;
    case 2: f([d = std::shared_ptr<BinomialDistribution>(mk<BinomialDistribution>(g, how, n, p))]() -> ll { return d->next(); }); return;
    case 3: f([d = std::shared_ptr<PoissonDistribution>(mk<PoissonDistribution>(g, how, p))]() -> ll { return d->next(); }); return;
    case 4: f([d = std::shared_ptr<GeometricDistribution>(mk<GeometricDistribution>(g, how, p))]() -> ll { return d->next(); }); return;
    case 5: f([d = std::shared_ptr<NegativeBinomialDistribution>(mk<NegativeBinomialDistribution>(g, how, n, p))]() -> ll { return d->next(); }); return;
  }
  abort();
}
template <class F> static void cont(int d, double x, double y, Random& g, int how, F f) {
  switch (d) {
    case 1: f([q = std::shared_ptr<NormalDistribution>(mk<NormalDistribution>(g, how, x, y))]() { return q->next(); }); return;
    case 2: f([q = std::shared_ptr<ExponentialDistribution>(mk<ExponentialDistribution>(g, how, x))]() { return q->next(); }); return;
    case 3: f([q = std::shared_ptr<GammaDistribution>(mk<GammaDistribution>(g, how, x, y))]() { return q->next(); }); return;
    case 4: f([q = std::shared_ptr<ChiSquaredDistribution>(mk<ChiSquaredDistribution>(g, how, x))]() { return q->next(); }); return;
    case 5: f([q = std::shared_ptr<StudentTDistribution>(mk<StudentTDistribution>(g, how, x))]() { return q->next(); }); return;
    case 6: f([q = std::shared_ptr<UniformDistribution>(mk<UniformDistribution>(g, how, x, y))]() { return q->next(); }); return;
  }
  abort();
}
static bool outside(int d, double x, double y, double v) {
  if (!std::isfinite(v)) return true;
  if (d == 2 || d == 3 || d == 4) return v < 0;
  if (d == 6) return v < x || v >= y;
  return false;
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op; const Ints& c = o.c; int how = c.size() ? c[0] : 0;
#ifdef VERIF_ENGINE_H
  Random g(1);
  vf_tail = 0x1234567ULL + 977 * a[0];
  if (op == "cdf") {                       // a = d, n, num, den, N, k
    ll N = a[4], k = a[5], draws = 0, out = 0; Ints cnt(k + 2, 0);
    disc(a, g, how, [&](auto next) {
      for (ll i = 0; i < N; i++) {
        vf_script.assign(1, (unsigned long long)((unsigned __int128)(2 * i + 1) * ((unsigned __int128)1 << 63) / N)); vf_draws = 0;
        ll v = next(); draws += vf_draws;
        if (v < 0) out++; else cnt[v > k ? k + 1 : v]++;
      }
    });
    put(r, draws); put(r, out); for (ll x : cnt) put(r, x);
    return;
  }
  auto raws = [&](size_t from) { vf_script.clear(); vf_draws = 0; for (size_t i = from; i + 3 < c.size(); i += 4) { unsigned long long u = 0; for (int j = 0; j < 4; j++) u = u << 16 | (unsigned long long)c[i + j]; vf_script.push_back(u); } };
  if (op == "ext") { disc(a, g, how, [&](auto next) { raws(1); put(r, next()); }); return; }
  if (op == "extc") {                      // a = d, x, y (1/1000)
    ll bad = 0; double x = a[1] / 1000.0, y = a[2] / 1000.0;
    cont(a[0], x, y, g, how, [&](auto next) { raws(1); for (int i = 0; i < 4; i++) bad += outside(a[0], x, y, next()); });
    put(r, bad); return;
  }
#else
  if (op == "law" || op == "pair") {       // a = case, seed, N; b = edges or median; c = how, d, x, y
    Random g((int)a[1]); ll N = a[2]; int d = c[1]; double x = c[2] / 1000.0, y = c[3] / 1000.0;
    // hints: c[4] = j, the first parameter is moved by 10^-|j| of itself; c[5] = s, the law is scaled by 2^s and the values are scaled back
    double near = c.size() > 4 && c[4] ? 1 + (c[4] < 0 ? -1 : 1) * std::pow(10.0, -std::abs((double)c[4])) : 1, S = c.size() > 5 ? std::ldexp(1.0, (int)c[5]) : 1;
    double px = x * near, py = y; if (d == 1 || d == 6) { px *= S; py *= S; } else if (d == 2) px /= S; else if (d == 3) py *= S;
    cont(d, px, py, g, how, [&](auto raw) {
      auto next = [&] { return raw() / S; };
      if (op == "law") {
        ll bad = 0; Ints cnt(o.b.size(), 0);
        for (ll i = 0; i < N; i++) { double v = next(); bad += outside(d, x, y, v); for (size_t j = 0; j < cnt.size(); j++) cnt[j] += v < o.b[j] / 1000.0; }
        put(r, bad); for (ll q : cnt) put(r, q);
      } else {
        double m = o.b[0] / 1e6; Ints q(4, 0);
        for (ll i = 0; i < N; i++) { int h = next() < m; int l = next() < m; q[2 * h + l]++; }
        for (ll z : q) put(r, z);
      }
    });
    return;
  }
  if (op == "tail") {                      // a = case, seed, N; b = edges: far tails of the same laws
    Random g((int)a[1]); Ints cnt(o.b.size(), 0); double x = c[2] / 1000.0, y = c[3] / 1000.0; bool lower = c[4];
    cont(c[1], x, y, g, how, [&](auto next) {
      for (ll i = 0; i < a[2]; i++) { double v = next(); for (size_t j = 0; j < cnt.size(); j++) cnt[j] += lower ? v < o.b[j] / 1000.0 : v > o.b[j] / 1000.0; }
    });
    for (ll z : cnt) put(r, z);
    return;
  }
  if (op == "large") {                     // a = d, n, num, den, N, lo, mid, hi ; b = seed
    Random g((int)o.b[0]); ll out = 0, below = 0, in = 0;
    disc(a, g, how, [&](auto next) {
      for (ll i = 0; i < a[4]; i++) { ll v = next(); out += v < 0 || (a[0] == 2 && v > a[1]); below += v < a[6]; in += v >= a[5] && v <= a[7]; }
    });
    put(r, out); put(r, below); put(r, in); return;
  }
  if (op == "make") {
    Random g(1); double x = a[1] / 1000.0, y = a[2] / 1000.0; auto M = [&](double v) { put(r, std::llround(v * 1000)); };
    switch (a[0]) {
      case 1: { auto d = mk<BernoulliDistribution>(g, how, x); M(d->p()); d->next(); return; }
      case 2: { auto d = mk<BinomialDistribution>(g, how, (int)a[1], y); put(r, d->n()); M(d->p()); d->next(); return; }
      case 3: { auto d = mk<PoissonDistribution>(g, how, x); M(d->lambda()); d->next(); return; }
      case 4: { auto d = mk<GeometricDistribution>(g, how, x); M(d->p()); d->next(); return; }
      case 5: { auto d = mk<NegativeBinomialDistribution>(g, how, (int)a[1], y); put(r, d->r()); M(d->p()); d->next(); return; }
      case 6: { auto d = mk<NormalDistribution>(g, how, x, y); M(d->mean()); M(d->stddev()); d->next(); return; }
      case 7: { auto d = mk<ExponentialDistribution>(g, how, x); M(d->lambda()); d->next(); return; }
      case 8: { auto d = mk<GammaDistribution>(g, how, x, y); M(d->k()); M(d->theta()); d->next(); return; }
      case 9: { auto d = mk<ChiSquaredDistribution>(g, how, x); M(d->r()); d->next(); return; }
      case 10: { auto d = mk<StudentTDistribution>(g, how, x); M(d->r()); d->next(); return; }
      case 11: { auto d = mk<UniformDistribution>(g, how, x, y); M(d->min()); M(d->max()); d->next(); return; }
      case 12: { auto d = mk<UniformIntDistribution>(g, how, (int)a[1], (int)a[2]); put(r, d->min()); put(r, d->max()); d->next(); return; }
    }
  }
#endif
  abort();
}
