// Vector / List driver.  -DCONT=Vector|List  -DELEM=int|std::string
#include "common.h"
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "containers/List.h"
#include "containers/Vector.h"
using namespace cuhksz;
typedef ELEM T;
typedef CONT<T> C;
#ifdef IS_LIST
typedef std::list<T> STL;
#else
typedef std::vector<T> STL;
#endif
static const int K = 3;
static std::unique_ptr<C> c[K];
static unsigned turn;
void vf_reset() { for (auto& p : c) p.reset(new C()); turn = 0; }

template <class X> struct Conv;
template <> struct Conv<int> { static int to(ll v) { return (int)v; } static ll from(int v) { return v; } };
template <> struct Conv<ll> { static ll to(ll v) { return v; } static ll from(ll v) { return v; } };
template <> struct Conv<double> { static double to(ll v) { return (double)v; } static ll from(double v) { return v == (ll)v ? (ll)v : 2147483647LL; } };
template <> struct Conv<std::string> {   // on the heap, order preserving; "" is the value-initialised element
  static std::string to(ll v) { char b[32]; snprintf(b, sizeof b, "%020lld", v); return b; }
  static ll from(const std::string& s) { return s.empty() ? 0 : s.size() == 20 ? atoll(s.c_str()) : 999999; }
};
static T to(ll v) { return Conv<T>::to(v); }
static void ret(Ints& r, const T& v) { put(r, Conv<T>::from(v)); }
template <class S> void retAll(Ints& r, S& s) { for (auto& x : s) ret(r, x); }
static C* newi(const Ints& b) {
  switch (b.size()) {
    case 0: return new C(std::initializer_list<T>{});
    case 1: return new C{to(b[0])};
    case 2: return new C{to(b[0]), to(b[1])};
    case 3: return new C{to(b[0]), to(b[1]), to(b[2])};
    case 4: return new C{to(b[0]), to(b[1]), to(b[2]), to(b[3])};
    case 5: return new C{to(b[0]), to(b[1]), to(b[2]), to(b[3]), to(b[4])};
    default: return new C{to(b[0]), to(b[1]), to(b[2]), to(b[3]), to(b[4]), to(b[5])};
  }
}
// the value x as an argument: mostly a reference to an equal element of the container, if it has one
static T tmpArg;
static const T& arg(C& v, ll x) {
  tmpArg = to(x);
  if (turn++ % 3)
    for (auto& e : v) if (e == tmpArg) return e;
  return tmpArg;
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a;
  const std::string& op = o.op;
  int s = a[0];
  C& v = *c[s];
  const C& cv = v;
  if (op == "new") c[s].reset(new C());
  else if (op == "newn") c[s].reset(new C((int)a[1], to(a[2])));
  else if (op == "newd") c[s].reset(new C((int)a[1]));
  else if (op == "newi") c[s].reset(newi(o.b));
  else if (op == "newstl") { STL t; for (ll x : o.b) t.push_back(to(x)); c[s].reset(new C(t)); }
  else if (op == "assignstl") { STL t; for (ll x : o.b) t.push_back(to(x)); v = C(t); }
  else if (op == "copy") { const C& src = *c[a[1]]; c[s].reset(new C(src)); }
  else if (op == "assign") v = *c[a[1]];
  else if (op == "at") ret(r, v[a[1]]);
  else if (op == "cat") ret(r, cv[a[1]]);
  else if (op == "first") ret(r, v.first());
  else if (op == "cfirst") ret(r, cv.first());
  else if (op == "last") ret(r, v.last());
  else if (op == "clast") ret(r, cv.last());
  else if (op == "atset") v[a[1]] = to(a[2]);
  else if (op == "itset") { auto it = v.begin(); for (ll i = 0; i < a[1]; i++) ++it; *it = to(a[2]); }
  else if (op == "firstset") v.first() = to(a[1]);
  else if (op == "lastset") v.last() = to(a[1]);
  else if (op == "push") v.push(arg(v, a[1]));
  else if (op == "pushself") v.push(v[a[1]]);
  else if (op == "insself") v.insert(a[1], v[a[2]]);
  else if (op == "pop") ret(r, v.pop());
  else if (op == "insert") v.insert(a[1], arg(v, a[2]));
  else if (op == "erase") v.erase(a[1]);
  else if (op == "clear") v.clear();
  else if (op == "size") { put(r, cv.size()); put(r, cv.isEmpty() ? 1 : 0); }
  else if (op == "iter") { for (auto it = v.begin(); it != v.end(); ++it) ret(r, *it); }
  else if (op == "citer") { for (auto it = cv.begin(); it != cv.end(); ++it) ret(r, *it); }
  else if (op == "riter") { for (auto it = v.end(); it != v.begin();) { --it; ret(r, *it); } }
  else if (op == "criter") { for (auto it = cv.end(); it != cv.begin();) { --it; ret(r, *it); } }
  else if (op == "iteradd") { for (auto& x : v) x = to(Conv<T>::from(x) + a[1]); }
  else if (op == "conv") { STL t = v; retAll(r, t); }
  else if (op == "cmp") {
    C& w = *c[a[1]];
    put(r, v == w); put(r, v != w); put(r, v < w); put(r, v <= w); put(r, v > w); put(r, v >= w);
  }
  else if (op == "all") {
    for (int k = 0; k < a[1]; k++) { const C& w = *c[k]; put(r, w.size()); for (auto& x : w) ret(r, x); }
  }
#ifdef IS_LIST
  else if (op == "stl") { STL t = v.toStlList(); retAll(r, t); }
  else if (op == "pushfront") v.push_front(arg(v, a[1]));
  else if (op == "popfront") ret(r, v.pop_front());
  else if (op == "sort") v.sort();
  else if (op == "reverse") v.reverse();
  else if (op == "merge") v.merge(*c[a[1]]);
#else
  else if (op == "stl") { STL t = v.toStlVector(); retAll(r, t); }
  else if (op == "get") ret(r, v.get(a[1]));
  else if (op == "cget") ret(r, cv.get(a[1]));
  else if (op == "set") v.set(a[1], arg(v, a[2]));
  else if (op == "getset") v.get(a[1]) = to(a[2]);
  else if (op == "print") { std::ostringstream os; os << cv; putStr(r, os.str()); }
  else if (op == "io") { std::stringstream ss; ss << *c[a[1]]; ss >> v; }
  else if (op == "read") { std::istringstream is(strOf(o.b)); is >> v; }
#endif
  else abort();
}
