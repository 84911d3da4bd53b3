// Map / Set / MultiMap / MultiSet driver. -DKIND_MAP|SET|MULTIMAP|MULTISET, -DKEY=int|std::string
#include "common.h"
#include <map>
#include <memory>
#include <set>
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Set.h"
using namespace cuhksz;
typedef KEY K;
template <class X> struct Conv;
template <> struct Conv<int> { static int to(ll v) { return (int)v; } static ll from(int v) { return v; } };
template <> struct Conv<std::string> {
  static std::string to(ll v) { char b[32]; snprintf(b, sizeof b, "the-number-of-key-%04lld", v); return b; }
  static ll from(const std::string& s) { return s.size() == 22 ? atoll(s.c_str() + 18) : 999999; }
};
static K to(ll v) { return Conv<K>::to(v); }
static void ret(Ints& r, const K& v) { put(r, Conv<K>::from(v)); }
#if defined(KIND_MAP)
typedef Map<K, int> C; typedef std::map<K, int> STL;
#define PAIRS
#define TOSTL toStlMap
#elif defined(KIND_MULTIMAP)
typedef MultiMap<K, int> C; typedef std::multimap<K, int> STL;
#define PAIRS
#define TOSTL toStlMultimap
#elif defined(KIND_SET)
typedef Set<K> C; typedef std::set<K> STL;
#define TOSTL toStlSet
#else
typedef MultiSet<K> C; typedef std::multiset<K> STL;
#define TOSTL toStlMultiset
#endif
#ifdef PAIRS
typedef std::pair<const K, int> E;
static E mk(const Ints& b, size_t i) { return E(to(b[2 * i]), (int)b[2 * i + 1]); }
static void rete(Ints& r, const E& e) { ret(r, e.first); put(r, e.second); }
static size_t cnt(const Ints& b) { return b.size() / 2; }
#else
typedef K E;
static E mk(const Ints& b, size_t i) { return to(b[i]); }
static void rete(Ints& r, const E& e) { ret(r, e); }
static size_t cnt(const Ints& b) { return b.size(); }
#endif
static std::unique_ptr<C> c[3];
static unsigned turn;
void vf_reset() { for (auto& p : c) p.reset(new C()); turn = 0; }
#ifdef PAIRS
static const K& keyOf(const E& e) { return e.first; }
#else
static const K& keyOf(const E& e) { return e; }
#endif
// the key x as an argument: mostly a reference to an equal key inside the container, if it has one
static K tmpKey;
static const K& arg(C& v, ll x) {
  tmpKey = to(x);
  if (turn++ % 3)
    for (auto& e : v) if (keyOf(e) == tmpKey) return keyOf(e);
  return tmpKey;
}
static C* newi(const Ints& b) {
  switch (cnt(b)) {
    case 0: return new C(std::initializer_list<E>{});
    case 1: return new C(std::initializer_list<E>{mk(b, 0)});
    case 2: return new C(std::initializer_list<E>{mk(b, 0), mk(b, 1)});
    case 3: return new C(std::initializer_list<E>{mk(b, 0), mk(b, 1), mk(b, 2)});
    case 4: return new C(std::initializer_list<E>{mk(b, 0), mk(b, 1), mk(b, 2), mk(b, 3)});
    case 5: return new C(std::initializer_list<E>{mk(b, 0), mk(b, 1), mk(b, 2), mk(b, 3), mk(b, 4)});
    default: return new C(std::initializer_list<E>{mk(b, 0), mk(b, 1), mk(b, 2), mk(b, 3), mk(b, 4), mk(b, 5)});
  }
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op;
  int s = a[0]; C& v = *c[s]; const C& cv = v;
  if (op == "new") c[s].reset(new C());
  else if (op == "newi") c[s].reset(newi(o.b));
  else if (op == "newstl") { STL t; for (size_t i = 0; i < cnt(o.b); i++) t.insert(mk(o.b, i)); c[s].reset(new C(t)); }
  else if (op == "range") {        // keys 0..n-1 (or n entries of one key), put in from the middle outwards
    ll n = a[1], k0 = a[2]; Ints b;
#ifdef KIND_MULTIMAP
    for (ll i = 1; i <= n; i++) { b.push_back(a[3] ? k0 + i - 1 : k0); b.push_back(i); }
    STL t; for (size_t i = 0; i < cnt(b); i++) t.insert(mk(b, i)); c[s].reset(new C(t));
#else
    c[s].reset(new C());
    for (ll i = 0; i < n; i++) {
      ll j = i % 2 ? n / 2 + (i + 1) / 2 : n / 2 - i / 2; if (j < 0) j = n - 1; if (j >= n) j = 0;
#ifdef KIND_MAP
      c[s]->set(to(k0 + j), j + 1);
#else
      c[s]->insert(to(a[3] ? k0 + j : k0));
#endif
    }
#endif
  }
  else if (op == "copy") { const C& src = *c[a[1]]; c[s].reset(new C(src)); }
  else if (op == "assign") v = *c[a[1]];
  else if (op == "clear") v.clear();
  else if (op == "size") { put(r, cv.size()); put(r, cv.isEmpty() ? 1 : 0); }
  else if (op == "iter") { for (auto it = v.begin(); it != v.end(); ++it) rete(r, *it); }
  else if (op == "citer") { for (auto it = cv.begin(); it != cv.end(); ++it) rete(r, *it); }
  else if (op == "riter") { for (auto it = v.end(); it != v.begin();) { --it; rete(r, *it); } }
  else if (op == "criter") { for (auto it = cv.end(); it != cv.begin();) { --it; rete(r, *it); } }
  else if (op == "stl") { STL t = v.TOSTL(); for (auto& x : t) rete(r, x); }
  else if (op == "conv") { STL t = v; for (auto& x : t) rete(r, x); }
  else if (op == "cmp") { C& w = *c[a[1]]; put(r, v == w); put(r, v != w); put(r, v < w); put(r, v <= w); put(r, v > w); put(r, v >= w); }
  else if (op == "erase") v.erase(arg(v, a[1]));
#ifdef PAIRS
  else if (op == "iteradd") { for (auto& x : v) x.second += a[1]; }
#else
  else if (op == "insert") v.insert(arg(v, a[1]));
#endif
#ifndef KIND_MULTIMAP
  else if (op == "contains") put(r, v.contains(arg(v, a[1])) ? 1 : 0);
#endif
#if defined(KIND_MULTIMAP) || defined(KIND_MULTISET)
  else if (op == "count") put(r, cv.count(arg(v, a[1])));
#endif
#ifdef KIND_MULTIMAP
  else if (op == "find") { Set<int> f = v.find(arg(v, a[1])); for (int x : f) put(r, x); }
#endif
#ifdef KIND_MAP
  else if (op == "get") put(r, v.get(arg(v, a[1])));
  else if (op == "cget") put(r, cv.get(arg(v, a[1])));
  else if (op == "getset") v.get(arg(v, a[1])) = a[2];
  else if (op == "at") put(r, v[arg(v, a[1])]);
  else if (op == "atset") v[arg(v, a[1])] = a[2];
  else if (op == "set") v.set(arg(v, a[1]), a[2]);
#endif
  else abort();
}
