#include "common.h"
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <set>
#include "algorithm.h"
#include "algorithm/Filter.h"
#include "algorithm/Map.h"
#include "algorithm/Zip.h"
#include "containers.h"
#include "string_utils/StringCast.h"
using namespace cuhksz;
void vf_reset() {}
template <class C> static C fill(const Ints& b, size_t from, size_t n) { C c; for (size_t i = 0; i < n; i++) c.push_back((typename C::value_type)b[from + i]); return c; }
typedef std::vector<Ints> Lists;
static Lists parts(const Ints& b) { Lists l; for (size_t i = 0; i < b.size();) { l.push_back(Ints(b.begin() + i + 1, b.begin() + i + 1 + b[i])); i += 1 + b[i]; } return l; }
template <class Z> static void tuples(Ints& r, const Z& z) { put(r, z.size()); for (auto& t : z) { put(r, t.size()); for (auto& x : t) put(r, (ll)x); } }
template <class A> static void zips(const Lists& l, Ints& r) {
  std::vector<A> a;
  for (auto& p : l) { a.push_back(fill<A>(p, 0, p.size())); }
  switch (l.size()) {
    case 1: tuples(r, zip(a[0])); break;
    case 2: tuples(r, zip(a[0], a[1])); break;
    case 3: tuples(r, zip(a[0], a[1], a[2])); break;
    case 4: tuples(r, zip(a[0], a[1], a[2], a[3])); break;
    case 5: { Zip<A> z(a[0], a[1], a[2], a[3], a[4]); tuples(r, z()); break; }
    case 6: tuples(r, zip(a[0], a[1], a[2], a[3], a[4], a[5])); break;
    case 7: tuples(r, zip(a[0], a[1], a[2], a[3], a[4], a[5], a[6])); break;
    case 8: tuples(r, zip(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])); break;
    case 9: tuples(r, zip(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])); break;
    default: abort();
  }
  for (size_t i = 0; i < l.size(); i++) { put(r, l[i].size()); for (auto& x : a[i]) put(r, (ll)x); }
}
static ll fun(int f, ll x) { switch (f) { case 0: return 2 * x; case 1: return -x; case 2: return 7; case 3: return x * x; case 4: return x + 1000; } abort(); }
static bool pred(int f, ll x) { switch (f) { case 0: return x > 2; case 1: return x % 2 == 0; case 2: return true; case 3: return false; case 4: return x != 3; case 5: return x < 0; } abort(); }
template <class C> static void apply(bool map, int f, C& c, Ints& r) {
  Ints calls; std::vector<const void*> got, here;       // the function is applied to the elements themselves
  for (auto& x : c) here.push_back(&x);
  if (map) {
    Ints res;
    if (f == 4) { auto z = mapAll(c, [&](const typename C::value_type& x) -> std::string { calls.push_back((ll)x); got.push_back(&x); return std::to_string(fun(f, (ll)x)); }); for (auto& s : z) res.push_back(atoll(s.c_str())); }
    else { auto z = mapAll(c, [&](const typename C::value_type& x) -> ll { calls.push_back((ll)x); got.push_back(&x); return fun(f, (ll)x); }); for (auto& s : z) res.push_back(s); }
    put(r, calls.size()); for (ll x : calls) put(r, x); put(r, res.size()); for (ll x : res) put(r, x);
  } else {
    auto z = filterContainer(c, [&](const typename C::value_type& x) { calls.push_back((ll)x); got.push_back(&x); return pred(f, (ll)x); });
    put(r, calls.size()); for (ll x : calls) put(r, x); put(r, z.size()); for (auto& x : z) put(r, (ll)x);
  }
  for (auto& x : c) put(r, (ll)x);
  if (got != here) put(r, -1);
}
template <class T> static T cast(const std::string& s, int how) {
  switch (how) {
    case 0: return (T)stringCast<T>(s);
    case 1: return stringCast<T>(s)();
    case 2: { T v = stringCast<T>(s); return v; }
    case 3: { std::string* t = new std::string(s); stringCast<T> c(*t); delete t; c(); return c(); }   // converted later, and twice
  }
  abort();
}
static void dirty(unsigned char v) { volatile char pad[4096]; for (size_t i = 0; i < sizeof pad; i++) pad[i] = v; }
void vf_run(const Op& o, Ints& r) {
  const Ints &a = o.a, &b = o.b; int how = o.c.size() ? o.c[0] : 0;
  if (o.op == "zip") {
    Lists l = parts(b);
    switch (how) {
      case 0: zips<std::vector<int>>(l, r); return;
      case 1: zips<std::list<int>>(l, r); return;
      case 2: zips<std::deque<long long>>(l, r); return;
      case 3: zips<std::vector<double>>(l, r); return;
    }
  }
  if (o.op == "map" || o.op == "filter") {
    bool m = o.op == "map"; size_t n = b.size();
    switch (a[0]) {
      case 0: { auto c = fill<std::vector<int>>(b, 0, n); apply(m, a[1], c, r); return; }
      case 1: { auto c = fill<std::list<int>>(b, 0, n); apply(m, a[1], c, r); return; }
      case 2: { auto c = fill<std::deque<double>>(b, 0, n); apply(m, a[1], c, r); return; }
      case 3: { Vector<int> c; for (ll x : b) c.push((int)x); apply(m, a[1], c, r); return; }
      case 4: { List<int> c; for (ll x : b) c.push((int)x); apply(m, a[1], c, r); return; }
      case 5: { auto c = fill<std::vector<long long>>(b, 0, n); apply(m, a[1], c, r); return; }
      case 6: { std::set<int> c(b.begin(), b.end()); apply(m, a[1], c, r); return; }
      case 7: { std::multiset<int> c(b.begin(), b.end()); apply(m, a[1], c, r); return; }
    }
  }
  if (o.op == "cast") {
    std::string s = strOf(b); dirty(0xA7 + b.size());
    switch (a[0]) {
      case 0: putBig(r, cast<int>(s, how)); return;
      case 1: putBig(r, cast<long long>(s, how)); return;
      case 2: { double v = cast<double>(s, how); if (!(std::fabs(v) < 1e30)) { r.push_back(9); r.push_back(0); } else putBig(r, (__int128)((long double)v * 1e6L + (v < 0 ? -.5L : .5L))); return; }
      case 3: putBig(r, cast<bool>(s, how)); return;
      case 4: putBig(r, (unsigned char)cast<char>(s, how)); return;
      case 5: putStr(r, cast<std::string>(s, how)); return;
      case 6: putBig(r, cast<unsigned>(s, how)); return;
      case 7: putBig(r, cast<short>(s, how)); return;
    }
  }
  abort();
}
