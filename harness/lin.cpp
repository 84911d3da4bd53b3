// Stack / Queue driver.  -DIS_QUEUE or not, -DELEM=int|std::string
#include "common.h"
#include <memory>
#include <queue>
#include <stack>
#include "containers/Queue.h"
#include "containers/Stack.h"
using namespace cuhksz;
typedef ELEM T;
template <class X> struct Conv;
template <> struct Conv<int> { static int to(ll v) { return (int)v; } static ll from(int v) { return v; } };
template <> struct Conv<std::string> {
  static std::string to(ll v) { char b[32]; snprintf(b, sizeof b, "element-number-%04lld", v); return b; }
  static ll from(const std::string& s) { return s.size() == 19 ? atoll(s.c_str() + 15) : 999999; }
};
static T to(ll v) { return Conv<T>::to(v); }
static void ret(Ints& r, const T& v) { put(r, Conv<T>::from(v)); }
#ifdef IS_QUEUE
typedef Queue<T> C; typedef std::queue<T> STL;
static void push(C& c, const T& v) { c.enqueue(v); }
static T pop(C& c) { return c.dequeue(); }
static STL stl(C& c) { return c.toStlQueue(); }
static T head(STL& s) { return s.front(); }
static T& lastr(C& c) { return c.last(); }
static const T& lastc(const C& c) { return c.last(); }
#else
typedef Stack<T> C; typedef std::stack<T> STL;
static void push(C& c, const T& v) { c.push(v); }
static T pop(C& c) { return c.pop(); }
static STL stl(C& c) { return c.toStlStack(); }
static T head(STL& s) { return s.top(); }
static T& lastr(C& c) { return c.top(); }
static const T& lastc(const C& c) { return c.top(); }
#endif
static std::unique_ptr<C> c[3];
static unsigned turn;
void vf_reset() { for (auto& p : c) p.reset(new C()); turn = 0; }
// the value x as an argument: mostly a reference to an equal element at an end of the container
static T tmpArg;
static const T& arg(C& v, ll x) {
  tmpArg = to(x);
  if (turn++ % 3 && !v.isEmpty()) {
    if (lastr(v) == tmpArg) return lastr(v);
#ifdef IS_QUEUE
    if (v.first() == tmpArg) return v.first();
#endif
  }
  return tmpArg;
}
static void retStl(Ints& r, STL s) { while (!s.empty()) { ret(r, head(s)); s.pop(); } }
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op;
  int s = a[0]; C& v = *c[s]; const C& cv = v;
  if (op == "new") c[s].reset(new C());
  else if (op == "newstl") { STL t; for (ll x : o.b) t.push(to(x)); c[s].reset(new C(t)); }
  else if (op == "fill") { for (ll i = 1; i <= a[1]; i++) push(v, to(i % 1000)); }
  else if (op == "copy") { const C& src = *c[a[1]]; c[s].reset(new C(src)); }
  else if (op == "assign") v = *c[a[1]];
  else if (op == "push") push(v, arg(v, a[1]));
  else if (op == "pushself") push(v, lastr(v));
  else if (op == "pop") ret(r, pop(v));
  else if (op == "last") ret(r, lastr(v));
  else if (op == "clast") ret(r, lastc(cv));
  else if (op == "lastset") lastr(v) = to(a[1]);
#ifdef IS_QUEUE
  else if (op == "first") ret(r, v.first());
  else if (op == "cfirst") ret(r, cv.first());
  else if (op == "firstset") v.first() = to(a[1]);
#endif
  else if (op == "clear") v.clear();
  else if (op == "size") { put(r, cv.size()); put(r, v.isEmpty() ? 1 : 0); }
  else if (op == "stl") retStl(r, stl(v));
  else if (op == "conv") { STL t = v; retStl(r, t); }
  else if (op == "drain") { while (!v.isEmpty()) ret(r, pop(v)); }
  else if (op == "cmp") { C& w = *c[a[1]]; put(r, v == w); put(r, v != w); put(r, v < w); put(r, v <= w); put(r, v > w); put(r, v >= w); }
  else abort();
}
