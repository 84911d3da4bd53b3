#include "common.h"
#include <map>
#include <memory>
#include "random.h"
#include "random/random_functions.h"
using namespace cuhksz;
#ifdef VERIF_ENGINE_H
std::vector<unsigned long long> vf_script;
unsigned long long vf_draws = 0, vf_tail = 0;
#endif
static std::map<int, std::unique_ptr<Random>> gens;
void vf_reset() { gens.clear(); }
static void key(Ints& r, double v) {
  if (v == 0) v = 0; uint64_t u; memcpy(&u, &v, 8);
  u = u >> 63 ? ~u : u | (1ULL << 63);
  for (int i = 3; i >= 0; i--) r.push_back((u >> (16 * i)) & 65535);
}
static double real(const Ints& b, size_t i) {
  uint64_t u = 0; for (int k = 0; k < 4; k++) u = u << 16 | (uint64_t)b[i + k];
  u = u >> 63 ? u & ~(1ULL << 63) : ~u; double v; memcpy(&v, &u, 8); return v;
}
// how: 0 method of a Random, 1 the helper function, 2 through the distribution class
static void call(const std::string& op, const Ints& a, size_t at, const Ints& b, int how, Random& g, Ints& r) {
  if (op == "int2") {
    int x = a[at], y = a[at + 1];
    if (how == 2) { UniformIntDistribution d(g, x, y); put(r, d.next()); }
    else put(r, how == 1 ? randomInt(x, y) : g.nextInt(x, y));
  } else if (op == "int1") {
    int x = a[at];
    if (how == 2) { UniformIntDistribution d(g, x); put(r, d.next()); }
    else put(r, how == 1 ? randomInt(x) : g.nextInt(x));
  } else if (op == "int0") put(r, how == 1 ? randomInt() : g.nextInt());
  else if (op == "bool") { if (how == 2) { BernoulliDistribution d(g); put(r, d.next()); } else put(r, how == 1 ? randomBool() : g.nextBool()); }
  else if (op == "dbl2") {
    double x = real(b, 0), y = real(b, 4);
    if (how == 2) { UniformDistribution d(g, x, y); key(r, d.next()); }
    else key(r, how == 1 ? randomDouble(x, y) : g.nextDouble(x, y));
  } else if (op == "dbl1") {
    double x = real(b, 0);
    if (how == 2) { UniformDistribution d(g, x); key(r, d.next()); }
    else key(r, how == 1 ? randomDouble(x) : g.nextDouble(x));
  } else if (op == "dbl0") { if (how == 2) { UniformDistribution d(g); key(r, d.next()); } else key(r, how == 1 ? randomDouble() : g.nextDouble()); }
  else abort();
}
template <class D> static void draw(D&& d, Ints& r) { for (int i = 0; i < 2; i++) key(r, (double)d.next()); }
// a = draws, buckets, kind, seed, lo [, step]; b = how (0 Random, 1 helper function, 2 distribution class)
static void freq(const Ints& a, int how, Ints& r) {
  int n = a[0], m = a[1], kind = a[2]; long long lo = a[4]; Random g((int)a[3]); r.assign(m, 0);
  std::unique_ptr<UniformIntDistribution> ud; std::unique_ptr<UniformDistribution> rd;
  if (how == 2) switch (kind) {
    case 0: ud.reset(new UniformIntDistribution(g, (int)lo, (int)(lo + m))); break;
    case 11: ud.reset(new UniformIntDistribution(g, (int)lo, (int)(lo + a[5] * m))); break;
    case 4: ud.reset(new UniformIntDistribution(g, m)); break;
    case 8: case 9: ud.reset(new UniformIntDistribution(g, (int)(a[5] * m))); break;
    case 2: rd.reset(new UniformDistribution(g, (double)lo, (double)lo + m)); break;
    case 13: rd.reset(new UniformDistribution(g, std::ldexp((double)lo, (int)a[5]), std::ldexp((double)lo + m, (int)a[5]))); break;
    case 14: rd.reset(new UniformDistribution(g, std::ldexp((double)m, (int)a[5]))); break;
    case 5: rd.reset(new UniformDistribution(g)); break;
    case 7: rd.reset(new UniformDistribution(g, (double)m)); break;
    default: how = 0;
  }
  for (int i = 0; i < n; i++) {
    long long x;
    if (kind == 0) x = (how == 2 ? ud->next() : how == 1 ? randomInt((int)lo, (int)(lo + m)) : g.nextInt((int)lo, (int)(lo + m))) - lo;
    else if (kind == 1) x = (long long)(((double)(how == 1 ? randomInt() : g.nextInt()) + 2147483648.0) / 4294967296.0 * m);
    else if (kind == 2) x = (long long)std::floor((how == 2 ? rd->next() : how == 1 ? randomDouble(lo, (double)lo + m) : g.nextDouble(lo, (double)lo + m)) - lo);
    else if (kind == 3) x = (how == 1 ? randomBool() : g.nextBool()) ? 1 : 0;
    else if (kind == 4) x = how == 2 ? ud->next() : how == 1 ? randomInt(m) : g.nextInt(m);
    else if (kind == 5) x = (long long)std::floor((how == 2 ? rd->next() : how == 1 ? randomDouble() : g.nextDouble()) * m);
    else if (kind == 7) x = (long long)std::floor(how == 2 ? rd->next() : how == 1 ? randomDouble((double)m) : g.nextDouble((double)m));
    else if (kind == 8 || kind == 9) {     // wide range from 0: m equal parts, or the residues modulo m
      int top = (int)(a[5] * m); x = how == 2 ? ud->next() : how == 1 ? randomInt(top) : g.nextInt(top);
      if (x < 0 || x >= top) { r.push_back(-1); return; }
      x = kind == 8 ? x / a[5] : x % m;
    }
    else if (kind == 10) { double v = (how == 1 ? randomDouble() : g.nextDouble()) * (double)(1LL << a[5]); x = (long long)((v - std::floor(v)) * m); }   // the finer digits
    else if (kind == 12) x = (long long)(unsigned)(how == 1 ? randomInt() : g.nextInt()) % m;       // m a power of two: the low bits of any int
    else if (kind == 13) {                 // real range of any magnitude: m equal parts of 2^a[5]
      double p = std::ldexp((double)lo, (int)a[5]), q = std::ldexp((double)lo + m, (int)a[5]);
      x = (long long)std::floor(std::ldexp(how == 2 ? rd->next() : how == 1 ? randomDouble(p, q) : g.nextDouble(p, q), -(int)a[5]) - lo);
    }
    else if (kind == 14) { double q = std::ldexp((double)m, (int)a[5]); x = (long long)std::floor(std::ldexp(how == 2 ? rd->next() : how == 1 ? randomDouble(q) : g.nextDouble(q), -(int)a[5])); }
    else if (kind == 11) {                 // wide range from lo: the residues modulo m
      int top = (int)(lo + a[5] * m); x = (long long)(how == 2 ? ud->next() : how == 1 ? randomInt((int)lo, top) : g.nextInt((int)lo, top)) - lo;
      if (x < 0 || x >= a[5] * m) { r.push_back(-1); return; }
      x %= m;
    }
    else { long long s = (long long)a[5]; x = ((long long)(how == 1 ? randomInt((int)lo, (int)(lo + s * m)) : g.nextInt((int)lo, (int)(lo + s * m))) - lo) / s; }   // wide range, m equal parts
    if (x < 0 || x >= m) { r.push_back(-1); return; }
    r[x]++;
  }
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op; int k = a.size() ? a[0] : 0;
#ifdef VERIF_ENGINE_H
  vf_draws = 0; vf_tail = 0; vf_script.clear();
  if (op == "freq") { vf_tail = 0x9876543ULL + 7919ULL * (unsigned)a[3]; freq(a, o.b[0], r); vf_tail = 0; return; }
  for (size_t i = 1; i + 3 < o.c.size() + 0; i += 4) { unsigned long long u = 0; for (int j = 0; j < 4; j++) u = u << 16 | (unsigned long long)o.c[i + j]; vf_script.push_back(u); }
  Random g(1);
  call(op, a, 0, o.b, o.c.empty() ? 0 : o.c[0], g, r);
#else
  if (op == "freq") { freq(a, o.b[0], r); return; }
  if (op == "new") { gens[k].reset(new Random((int)a[1])); return; }
  if (op == "seed") { gens[k]->setSeed((int)a[1]); return; }
  if (op == "copy") { gens[k].reset(new Random(*gens[a[1]])); return; }
  if (op == "asg") { *gens[k] = *gens[a[1]]; return; }
  if (op == "del") { gens.erase(k); return; }
  if (op == "fresh") { Random g((int)a[0]); for (int i = 0; i < 3; i++) put(r, g.nextInt()); return; }
  if (op == "dist") {
    Random& g = *gens[k];
    switch (a[1]) {
      case 0: draw(BernoulliDistribution(g, .3), r); return;
      case 1: draw(BinomialDistribution(g, 7, .4), r); return;
      case 2: draw(PoissonDistribution(g, 3.5), r); return;
      case 3: draw(GeometricDistribution(g, .25), r); return;
      case 4: draw(NegativeBinomialDistribution(g, 3, .4), r); return;
      case 5: draw(NormalDistribution(g, 1, 2), r); return;
      case 6: draw(ExponentialDistribution(g, 1.5), r); return;
      case 7: draw(GammaDistribution(g, 2.5, 1.5), r); return;
      case 8: draw(ChiSquaredDistribution(g, 3), r); return;
      case 9: draw(StudentTDistribution(g, 4), r); return;
      case 10: { PoissonDistribution d(4); d.setRandomGenerator(g); draw(d, r); return; }
    }
    abort();
  }
  call(op, a, 1, o.b, 0, *gens[k], r);
#endif
}
