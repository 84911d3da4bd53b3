#include "common.h"
#include <deque>
#include <list>
#include <set>
#include "containers.h"
#include "math_utils.h"
using namespace cuhksz;
void vf_reset() {}
static void fix(Ints& r, double v) {
  double x = v * 1e6;
  if (!(std::fabs(x) < 1e37)) { r.push_back(0); r.push_back(0); r.push_back(0); return; }
  r.push_back(1); putBig(r, (__int128)std::floor(x + .5));
}
static void exact(Ints& r, long double v, ll d) {
  long double x = v * d; r.push_back(x == std::floor(x) ? 1 : 0); putBig(r, (__int128)x);
}
struct Half { int* n; double operator()(double x) const { ++*n; return x / 2; } };
template <class T> struct Twice { int* n; T operator()(T x) const { ++*n; return (T)(x + x); } };
template <class T> static void raw(const std::string& op, const T* p, int n, ll d, Ints& r) {
  int calls = 0;
  if (op == "sum") exact(r, sum(p, n), d);
  else if (op == "fsum") { exact(r, sum(p, n, Half{&calls}), 2 * d); put(r, calls); }
  else if (op == "gsum") { exact(r, sum(p, n, Twice<T>{&calls}), d); put(r, calls); }
  else if (op == "mean") fix(r, mean(p, n));
  else abort();
}
template <class T> static void rawAll(const std::string& op, const T* p, int n, ll d, Ints& r) {
  if (op == "var") fix(r, variance(p, n));
  else if (op == "sd") fix(r, stddev(p, n));
  else if (op == "svar") fix(r, sample_variance(p, n));
  else if (op == "ssd") fix(r, sample_stddev(p, n));
  else raw(op, p, n, d, r);
}
template <class C> static void con(const std::string& op, const C& c, ll d, Ints& r) {
  int calls = 0;
  if (op == "sum") exact(r, sum(c), d);
  else if (op == "fsum") { exact(r, sum(c, Half{&calls}), 2 * d); put(r, calls); }
  else if (op == "gsum") { exact(r, sum(c, Twice<typename C::value_type>{&calls}), d); put(r, calls); }
  else if (op == "mean") fix(r, mean(c));
  else if (op == "var") fix(r, variance(c));
  else if (op == "sd") fix(r, stddev(c));
  else if (op == "svar") fix(r, sample_variance(c));
  else if (op == "ssd") fix(r, sample_stddev(c));
  else abort();
}
template <class T> static std::vector<T> data(const Op& o) {
  std::vector<T> v; for (ll x : o.b) v.push_back((T)((double)x / o.a[1])); return v;
}
static std::vector<ll> wide(const Op& o) {
  std::vector<ll> v; for (size_t i = 0; i + 1 < o.b.size(); i += 2) v.push_back(o.b[i] * (1LL << 30) + o.b[i + 1]); return v;
}
template <class C, class T> static C add(const std::vector<T>& v) { C c; for (const T& x : v) c.insert(x); return c; }
template <class C, class T> static C push(const std::vector<T>& v) { C c; for (const T& x : v) c.push(x); return c; }
template <class C> static void same(const std::string& op, const C& c, ll d, Ints& r) {
  using V = std::vector<typename C::value_type>;
  auto before = V(c.begin(), c.end()); con(op, c, d, r);
  if (before != V(c.begin(), c.end())) r.push_back(-1);
}
template <class T, class F> static void rawSame(const Op& o, F f, Ints& r) {
  std::vector<T> v = data<T>(o), w = v; v.shrink_to_fit(); static const T none = T();
  f(o.op, v.empty() ? &none : v.data(), (int)o.a[2], o.a[1], r); if (v != w) r.push_back(-1);
}
void vf_run(const Op& o, Ints& r) {
  ll d = o.a[1]; const std::string& op = o.op;
  switch (o.a[0]) {
    case 0: rawSame<int>(o, rawAll<int>, r); return;
    case 1: rawSame<double>(o, rawAll<double>, r); return;
    case 2: same(op, data<int>(o), d, r); return;
    case 3: same(op, data<double>(o), d, r); return;
    case 4: { std::vector<int> v = data<int>(o); const cuhksz::Vector<int> c(v); same(op, c, d, r); return; }
    case 5: same(op, push<cuhksz::Vector<double>>(data<double>(o)), d, r); return;
    case 6: same(op, push<cuhksz::List<int>>(data<int>(o)), d, r); return;
    case 7: same(op, push<cuhksz::List<double>>(data<double>(o)), d, r); return;
    case 8: { auto v = data<double>(o); same(op, std::list<double>(v.begin(), v.end()), d, r); return; }
    case 9: { auto v = data<int>(o); same(op, std::deque<int>(v.begin(), v.end()), d, r); return; }
    case 10: rawSame<ll>(o, raw<ll>, r); return;
    case 11: rawSame<float>(o, raw<float>, r); return;
    case 12: { auto v = data<int>(o); same(op, std::multiset<int>(v.begin(), v.end()), d, r); return; }
    case 13: { auto v = wide(o), w = v; v.shrink_to_fit(); static const ll none = 0; raw(op, v.empty() ? &none : v.data(), (int)o.a[2], d, r); if (v != w) r.push_back(-1); return; }
    case 14: same(op, wide(o), d, r); return;
    case 15: same(op, push<cuhksz::Vector<ll>>(wide(o)), d, r); return;
    case 16: same(op, push<cuhksz::List<ll>>(wide(o)), d, r); return;
    case 17: same(op, data<short>(o), d, r); return;
    case 18: same(op, data<float>(o), d, r); return;
    case 19: same(op, data<unsigned>(o), d, r); return;
    case 20: same(op, add<cuhksz::Set<int>>(data<int>(o)), d, r); return;
    case 21: same(op, add<cuhksz::MultiSet<int>>(data<int>(o)), d, r); return;
    case 22: rawSame<short>(o, raw<short>, r); return;
    case 23: rawSame<unsigned>(o, raw<unsigned>, r); return;
  }
  abort();
}
