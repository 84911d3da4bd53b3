// Property C24: object lifetimes. Every heap block requested while a call runs is
// counted until it is released.
#include "common.h"

#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers.h"
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
#include "graph/BST.h"
#include "graph/SegmentTree.h"
#include "graph/Tree.h"
#include "graph/Vertex.h"
#include "graph/Edge.h"
#include "json.h"
#include "math_utils.h"
#include "math_utils/BigNum.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "network/network_functions.h"
#include "random.h"
#include "string_utils.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
using namespace cuhksz;
// ---- block accounting ---------------------------------------------------------------
static const size_t TAB = 1 << 18;
static const volatile void* tab[TAB]; static const volatile void* const TOMB = (void*)1;
static long live = 0, used = 0; static bool track = false;
static void onMalloc(const volatile void* p, size_t) {
  if (!track || !p) return;
  if (used > (long)TAB / 2) { if (live) { if (used > (long)TAB - 8) abort(); } else { memset((void*)tab, 0, sizeof tab); used = 0; } }
  size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46;
  while (tab[i] && tab[i] != TOMB) i = (i + 1) % TAB;
  if (!tab[i]) used++;
  tab[i] = p; live++;
}
static void onFree(const volatile void* p) {
  if (!live || !p) return;
  size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46;
  while (tab[i]) { if (tab[i] == p) { tab[i] = TOMB; live--; return; } i = (i + 1) % TAB; }
}
// ---- values 0..3 of every type -------------------------------------------------------
typedef std::string S; typedef std::vector<S> VS;
static S L(const char* x) { return S(x) + S(40, '.'); }
static VS W(int v) {
  VS w; if (v == 1) w = {L("a")}; if (v == 2) w = {L("b"), L("d")};
  if (v == 3) for (int i = 0; i < 12; i++) w.push_back(L("k") + char('a' + i));
  return w;
}
static int idOf(const VS& w) { for (int v = 0; v < 4; v++) if (w == W(v)) return v; return 9; }
template <class T> struct A;
template <> struct A<Vector<S>> {
  typedef Vector<S> T;
  static T* make(int v) { return v == 1 ? new T{L("a")} : from(W(v)); } static T* from(VS w) { return new T(w); }
  static void mut(T& t, int v) { t.push(L("z")); t.insert(0, L("y")); t.erase(0); t.set(0, L("q")); if (v & 1) t.clear(); else while (!t.isEmpty()) t.pop(); for (S s : W(v)) t.push(s); }
  static int id(T& t) { VS w; for (int i = 0; i < t.size(); i++) w.push_back(t.get(i)); return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); (void)(x >= y); std::vector<S> s = x.toStlVector(); T z(x); z.push(L("n")); (void)(z != y); for (const S& e : x) (void)e; }
};
template <> struct A<List<S>> {
  typedef List<S> T;
  static T* make(int v) { return v == 1 ? new T{L("a")} : from(W(v)); } static T* from(VS w) { std::list<S> l(w.begin(), w.end()); return new T(l); }
  static void mut(T& t, int v) { t.push(L("z")); t.insert(0, L("y")); t.erase(0); t.sort(); t.reverse(); if (v & 1) t.clear(); else while (!t.isEmpty()) t.pop(); for (S s : W(v)) t.push(s); }
  static int id(T& t) { VS w; for (const S& e : t) w.push_back(e); return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); T z(x), u(y); z.sort(); u.sort(); z.merge(u); std::list<S> s = x.toStlList(); }
};
template <> struct A<Stack<S>> {
  typedef Stack<S> T;
  static T* make(int v) { T* t = new T; for (S s : W(v)) t->push(s); return t; }
  static void mut(T& t, int v) { t.push(L("z")); if (v & 1) t.clear(); else while (!t.isEmpty()) t.pop(); for (S s : W(v)) t.push(s); }
  static int id(T& t) { T c(t); VS w; while (!c.isEmpty()) { w.insert(w.begin(), c.top()); c.pop(); } return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); std::stack<S> s = x.toStlStack(); }
};
template <> struct A<Queue<S>> {
  typedef Queue<S> T;
  static T* make(int v) { T* t = new T; for (S s : W(v)) t->enqueue(s); return t; }
  static void mut(T& t, int v) { t.enqueue(L("z")); if (v & 1) t.clear(); else while (!t.isEmpty()) t.dequeue(); for (S s : W(v)) t.enqueue(s); }
  static int id(T& t) { T c(t); VS w; while (!c.isEmpty()) { w.push_back(c.first()); c.dequeue(); } return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); std::queue<S> s = x.toStlQueue(); }
};
template <> struct A<Map<S, S>> {
  typedef Map<S, S> T;
  static T* make(int v) { T* t = new T; for (S s : W(v)) (*t)[s] = s; return t; }
  static void mut(T& t, int v) { t.set(L("z"), L("z")); t[L("y")]; t.erase(L("y")); t.clear(); for (S s : W(v)) { t[s] = L("old"); t.set(s, s); } }
  static int id(T& t) { VS w; for (auto& e : t) { if (e.first != e.second) return 9; w.push_back(e.first); } return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); std::map<S, S> s = x.toStlMap(); T z(x); z[L("n")] = L("m"); }
};
template <> struct A<Set<S>> {
  typedef Set<S> T;
  static T* make(int v) { T* t = new T; for (S s : W(v)) t->insert(s); return t; }
  static void mut(T& t, int v) { t.insert(L("z")); t.insert(L("z")); t.erase(L("z")); t.clear(); for (S s : W(v)) t.insert(s); }
  static int id(T& t) { VS w; for (auto& e : t) w.push_back(e); return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); std::set<S> s = x.toStlSet(); T z(x); z.insert(L("n")); }
};
template <> struct A<MultiSet<S>> {
  typedef MultiSet<S> T;
  static T* make(int v) { T* t = new T; for (S s : W(v)) t->insert(s); return t; }
  static void mut(T& t, int v) { t.insert(L("z")); t.insert(L("z")); t.erase(L("z")); t.clear(); for (S s : W(v)) t.insert(s); }
  static int id(T& t) { VS w; for (auto& e : t) w.push_back(e); return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); std::multiset<S> s = x.toStlMultiset(); T z(x); z.insert(L("n")); }
};
template <> struct A<MultiMap<S, S>> {
  typedef MultiMap<S, S> T;
  static T* make(int v) { std::multimap<S, S> m; for (S s : W(v)) m.insert({s, s}); return new T(m); }
  static void mut(T& t, int v) { t.erase(L("a")); t.clear(); std::unique_ptr<T> p(make(v)); t = *p; }
  static int id(T& t) { VS w; for (auto& e : t) { if (e.first != e.second) return 9; w.push_back(e.first); } return idOf(w); }
  static void tmp(T& x, T& y) { (void)(x == y); (void)(x < y); std::multimap<S, S> s = x.toStlMultimap(); (void)x.find(L("a")); }
};
static const char* nums[4] = {"0", "-7", "123456789012345678901234567890", "99999"};
template <> struct A<BigNum<70>> {
  typedef BigNum<70> T;
  static T* make(int v) { return new T(S(nums[v])); }
  static void mut(T& t, int v) { t += t; t *= 3; t -= T(S(nums[v])); ++t; t--; T z(S(nums[v])); t = z; }
  static int id(T& t) { std::ostringstream o; o << t; for (int v = 0; v < 4; v++) if (o.str() == nums[v]) return v; return 9; }
  static void tmp(T& x, T& y) { T z = x + y, u = x * y, w = x - y, q = -x; (void)(z < u); (void)(w == q); T k(x); k++; k += x; k *= 2; }
};
template <> struct A<Fraction> {
  typedef Fraction T;
  static T val(int v) { return T(v * 3 - 4, v + 5); }
  static T* make(int v) { return new T(val(v)); }
  static void mut(T& t, int v) { t += T(1, 2); t *= T(2, 3); t = val(v); }
  static int id(T& t) { for (int v = 0; v < 4; v++) if (t == val(v)) return v; return 9; }
  static void tmp(T& x, T& y) { T z = x + y, u = x * y, w = x - y; if (y != T(0)) { T q = x / y; } (void)(z < u); (void)(w == u); std::ostringstream o; o << x; }
};
template <class V> struct A<Matrix<V>> {
  typedef Matrix<V> T;
  static std::vector<std::vector<int>> c(int v) { return v == 0 ? std::vector<std::vector<int>>{{0, 0}, {0, 0}} : v == 1 ? std::vector<std::vector<int>>{{5}} : v == 2 ? std::vector<std::vector<int>>{{1, 2, 3}, {4, 5, 6}} : std::vector<std::vector<int>>{{1, 0, 2}, {0, 3, 1}, {4, 1, 0}}; }
  static T* make(int v) { return v == 0 ? new T(2) : new T(c(v)); }
  static void mut(T& t, int v) { T z(t); bool q = sq(t); t += z; t -= z; if (q) { t *= t; t = pow(t, 3); } t = T(c(v)); if (v == 3) t.clear(), t = T(c(v)); }
  static int id(T& t) { for (int v = 0; v < 4; v++) if (t == T(c(v))) return v; return 9; }
  static void tmp(T& x, T& y) { T z = x + x, u = x - x; if (wd(x) == ht(y)) { T p = x * y; T q(x); q *= y; } if (sq(x)) { T q = pow(x, 5), p = pow(x, 0); } (void)(x == y); (void)x.toString(); T i = T::idMat(3); T k(y); k.clear(); k = x; red(k);
    for (int n : {7, 33, 70, 130, 300}) { T g(n, 2), h(2, n), m(g); m += g; T p = h * m; m = x; g = m; T w = T::idMat(n > 100 ? 17 : n); w = g; h.clear(); h = g; m = T(n, 1); } }
  static int ht(T& t) { int v = id(t); return v == 9 ? -1 : (int)c(v).size(); }
  static int wd(T& t) { int v = id(t); return v == 9 ? -2 : (int)c(v)[0].size(); }
  static bool sq(T& t) { return ht(t) == wd(t); }
  static void red(Matrix<double>& k) { k.reduce(); }
  template <class Q> static void red(Q&) {}
};
template <int N> struct PT { static Point<N> of(int v) { Point<N> p; for (int i = 0; i < N; i++) p[i] = v * 8 + i + 1; return p; } };
template <int N> struct A<Point<N>> {
  typedef Point<N> T;
  static T* make(int v) { return new T(PT<N>::of(v)); }
  static void mut(T& t, int v) { t += t; t -= PT<N>::of(1); t *= 2; t /= 4; t.normalize(); t = PT<N>::of(v); }
  static int id(T& t) { for (int v = 0; v < 4; v++) if (t == PT<N>::of(v)) return v; return 9; }
  static void tmp(T& x, T& y) { T z = x + y, u = x - y, w = x * 2.0, q = 2.0 * x, k = x / 4; (void)(z * u); (void)(w < q); (void)k.len(); (void)dot(x, y); std::ostringstream o; o << (x + y) * 3.0; geo(x, y); }
  static void geo(Point<2>& x, Point<2>& y) { Line l(x, GVector<2>(1, 2)), m(y, GVector<2>(3, 1)); Point<2> p = getIntersection(l, m); (void)disToLine(p, l); (void)disToSegment(x, m); Line k(l); k = m; (void)k.len(); Circle c(x, 2); (void)c.getPoint(1); (void)c.getArea(); }
  template <class Q> static void geo(Q&, Q&) {}
};
template <> struct A<JSONObject> {
  typedef JSONObject T;
  // every way from one type to another, with empty and non-empty contents
  static T kind(int k) { return k == 0 ? T() : k == 1 ? T(true) : k == 2 ? T(7) : k == 3 ? T(2.5) : k == 4 ? T(S()) : k == 5 ? T(L("s")) : k == 6 ? JSONObject::Array() : k == 7 ? JSONObject::Array(L("e")) : k == 8 ? JSONObject::Object() : k == 9 ? T({"k", L("v")}) : k == 10 ? loadJSON("[]") : loadJSON("{}"); }
  static void small(T& x) {
    for (int i = 0; i < 12; i++) for (int j = 0; j < 17; j++) {
      T t = kind(i);
      switch (j) { case 12: t["k"] = 1; break; case 13: t[0] = S(); break; case 14: t.append(S()); break; case 15: t = S(); t = ""; break; case 16: t.append(x); t[0] = t; break; default: { T u = kind(j); if (i % 2) t = u; else t = std::move(u); } }
      T c(t); c["n"] = t; T m(std::move(t)); t = m; m = std::move(c); (void)t.dump();
    }
  }
  static T val(int v) {
    T t; if (v == 1) { t["key"] = L("text"); t["arr"] = JSONObject::Array(1, 2.5, L("in"), false); t["o"]["p"]["q"] = nullptr; }
    if (v == 2) { t[0] = JSONObject::Array(1, JSONObject::Array(L("x"), 3)); t[1] = L("s"); t[2]["k"] = 7; }
    if (v == 3) t = L("only a string");
    return t;
  }
  static T* make(int v) { return v == 3 ? new T(L("only a string")) : new T(val(v)); }
  static void mut(T& t, int v) { t["a"] = 1; t["b"]["c"] = L("deep"); t["a"] = L("was int"); t["l"].append(3); t["l"].append(L("s")); t["l"] = t["b"]; t = t["l"]; t = t; t = 5; t = L("s"); t = 2.5; t = true; T z(val(v)); T k(std::move(z)); if (v & 1) t = k; else t = std::move(k); }
  static int id(T& t) { for (int v = 0; v < 4; v++) if (t.dump() == val(v).dump()) return v; return 9; }
  static void tmp(T& x, T& y) { T z(x); z["n"] = y; z["m"] = z["n"]; T l = loadJSON(x.dump()); (void)l.dump(); const T& cx = x; try { (void)cx.at("absent"); } catch (...) {} for (auto& e : z.ObjectRange()) (void)e.first; T i = {"k", 1, "l", {"m", L("v")}}; T q = JSONObject::Array(x, y); for (auto& e : q.ArrayRange()) (void)e; if (x.getType() == JSONObject::Type::String) (void)x.toString(); small(x); (void)jsonEscape(L("\"")); }
};
template <> struct A<Trie> {
  static int up(char c) { return (unsigned char)c == 1 ? 1 : (int)(unsigned char)c; } static char down(int i) { return (char)i; }
  typedef Trie T;
  static VS w(int v) { return v == 0 ? VS() : v == 1 ? VS{"abcdefghijklmnopqrstuvwxyzabcdefgh"} : v == 2 ? VS{"ab", "abc", "b", "bachelor", "badge"} : VS{"baby", "bachelor", "badge", "jar", "jarabcdefghijklmnopqrstuvwxyzxyz", "z"}; }
  static T* make(int v) { T* t = new T; for (S s : w(v)) t->insert(s); return t; }
  static void mut(T& t, int v) { t.insert("zebra"); for (int u = 0; u < 4; u++) for (S s : w(u)) t.remove(s); t.remove("zebra"); for (S s : w(v)) t.insert(s); }
  static int id(T& t) { VS got; for (auto s : t) got.push_back(s); for (int v = 0; v < 4; v++) if (got == w(v) && t.size() == (int)got.size()) return v; return 9; }
  static void tmp(T& x, T& y) { (void)x.contain("badge"); T z(x); z.insert("new"); z.remove("badge"); for (auto s : y) (void)z.contain(s);
    T u(up, down), l; unsigned h = 7;        // a caller's alphabet of 254 letters; many words
    for (int i = 0; i < 60; i++) { S w, q; for (int j = 0; j < 1 + i % 5; j++) { h = h * 1103515245 + 12345; w += (char)(2 + (h >> 16) % 254); q += (char)('a' + (h >> 18) % 26); } u.insert(w); l.insert(q); (void)u.contain(q); if (i % 3 == 0) { T c(u); c.remove(w); u = c; } if (i % 7 == 0) l.remove(q); }
    for (auto s : u) (void)l.contain("a"); for (auto s : l) (void)u.contain(s); }
};
template <> struct A<SegmentTree<long>> {
  typedef SegmentTree<long> T;
  static std::vector<long> c(int v) { std::vector<long> r; for (int i = 0; i < (v == 0 ? 1 : v == 1 ? 2 : v == 2 ? 5 : 17); i++) r.push_back(i * 3 - v); return r; }
  static T* make(int v) { auto x = c(v); return new T(x); }
  static void mut(T& t, int v) { t.addInterval(0, t.getSize() - 1, 5); t.mulInterval(0, t.getSize() / 2, 3); auto x = c(v); t = T(x); t.addInterval(0, t.getSize() - 1, 4); t.addInterval(0, t.getSize() - 1, -4); }
  static int id(T& t) { for (int v = 0; v < 4; v++) { auto x = c(v); if ((int)x.size() != t.getSize()) continue; bool ok = true; for (size_t i = 0; i < x.size(); i++) ok = ok && t.querySum(i, i) == x[i]; if (ok) return v; } return 9; }
  static void tmp(T& x, T& y) { (void)x.queryMax(0, x.getSize() - 1); (void)y.queryMin(0, 0); T z(x); z.mulInterval(0, 0, 2); (void)z.querySum(0, z.getSize() - 1); }
};
template <> struct A<Random> {
  typedef Random T;
  static T* make(int v) { return new T(v + 10); }
  static void mut(T& t, int v) { t.nextInt(5); t.nextDouble(); t.setSeed(v + 10); }
  static int id(T& t) { for (int v = 0; v < 4; v++) { T c(t), f(v + 10); if (c.nextInt(1000000) == f.nextInt(1000000) && c.nextDouble() == f.nextDouble()) return v; } return 9; }
  static void tmp(T& x, T& y) { T z(x); z.nextBool(); NormalDistribution n(z, 1.0, 2.0); n.next(); PoissonDistribution p(3.0); p.next(); p.setRandomGenerator(z); p.next(); BinomialDistribution b(20, 0.5); b.next(); GammaDistribution g(2.0, 1.0); g.setRandomGenerator(z); g.next(); randomInt(0, 5); randomDouble(0, 1); randomBool(); }
};
// containers of library values
template <class C, class E> struct Nest {
  typedef C T;
  static void fill(T& t, int v) { for (int i = 0; i < v * 2; i++) { std::unique_ptr<E> e(A<E>::make((v + i) % 4)); t.push(*e); } }
  static T* make(int v) { T* t = new T; fill(*t, v); return t; }
  static void mut(T& t, int v) { std::unique_ptr<E> e(A<E>::make(2)); t.push(*e); t.insert(0, *e); t.erase(0); t[0] = *e; t.pop(); t.clear(); fill(t, v); }
  static int id(T& t) { if (t.size() % 2 || t.size() > 6) return 9; int v = t.size() / 2, i = 0; for (auto& e : t) { E c(e); if (A<E>::id(c) != (v + i) % 4) return 9; i++; } return v; }
  static void tmp(T& x, T& y) { T z(x); z = y; for (auto& e : z) { E c(e); (void)A<E>::id(c); } }
};
template <> struct A<Vector<JSONObject>> : Nest<Vector<JSONObject>, JSONObject> {};
template <> struct A<Vector<Matrix<int>>> : Nest<Vector<Matrix<int>>, Matrix<int>> {};
template <> struct A<List<BigNum<70>>> : Nest<List<BigNum<70>>, BigNum<70>> { };
template <> struct A<Vector<Vector<S>>> : Nest<Vector<Vector<S>>, Vector<S>> {};
template <> struct A<List<Trie>> : Nest<List<Trie>, Trie> {};
template <> struct A<Map<S, Vector<S>>> {
  typedef Map<S, Vector<S>> T; typedef Vector<S> E;
  static void fill(T& t, int v) { for (int i = 0; i < v; i++) { std::unique_ptr<E> e(A<E>::make(v)); t.set(L("m") + char('a' + i), *e); } }
  static T* make(int v) { T* t = new T; fill(*t, v); return t; }
  static void mut(T& t, int v) { std::unique_ptr<E> e(A<E>::make(2)); t.set(L("z"), *e); t.set(L("z"), *e); t.get(L("z")); t.erase(L("z")); t.clear(); fill(t, v); }
  static int id(T& t) { int v = t.size(); for (auto& e : t) { E c(e.second); if (A<E>::id(c) != v) return 9; } return v; }
  static void tmp(T& x, T& y) { T z(x); z = y; z.clear(); }
};
// objects that cannot be copied (a[1] >= 30): distributions and graphs
struct Dists {
  Random own; PoissonDistribution p; BinomialDistribution b; NegativeBinomialDistribution n; NormalDistribution g; GammaDistribution m; ChiSquaredDistribution c; StudentTDistribution t; ExponentialDistribution e; GeometricDistribution k; BernoulliDistribution q; UniformDistribution u; UniformIntDistribution i;
  int v;
  explicit Dists(int v) : own(5), p(v + 1.0), b(v * 10 + 1, 0.5), n(v + 1, 0.5), g(v, 1), m(v + 1, 1), c(v + 1), t(v + 1), e(v + 1), k(0.25), q(0.5), u(0, 1), i(0, 5), v(v) {}
  void draw() { p.next(); b.next(); n.next(); g.next(); m.next(); c.next(); t.next(); e.next(); k.next(); q.next(); u.next(); i.next(); }
};
template <> struct A<Dists> {
  typedef Dists T;
  static T* make(int v) { return new T(v); }
  static void mut(T& t, int v) { t.draw(); t.p.setRandomGenerator(t.own); t.b.setRandomGenerator(t.own); t.g.setRandomGenerator(t.own); t.m.setRandomGenerator(t.own); t.c.setRandomGenerator(t.own); t.t.setRandomGenerator(t.own); t.n.setRandomGenerator(t.own); t.draw(); t.v = v; }
  static int id(T& t) { return t.v; }
  static void tmp(T& x, T& y) { Random r(1); UniformDistribution u(r, 0, 2); u.next(); StudentTDistribution s(r, 3); s.next(); ChiSquaredDistribution c(r, 3); c.setRandomGenerator(x.own); c.next(); y.draw(); }
};
struct Graph {
  std::vector<std::unique_ptr<Vertex>> vs; std::vector<std::unique_ptr<Node>> ns; Tree t; std::vector<std::unique_ptr<BSTNode>> bs; BST b; int v;
  explicit Graph(int v) : v(v) { fill(); }
  void fill() {
    for (int i = 0; i <= v * 2; i++) vs.emplace_back(new Vertex(i));
    for (size_t i = 0; i < vs.size(); i++) for (size_t j = 0; j < vs.size(); j += i + 1) vs[i]->addEdge(*vs[j], 3);
    for (int i = 0; i <= v * 3; i++) { ns.emplace_back(new Node(i)); if (i == 0) t.setRoot(ns[0].get()); else t.addNode(ns[i].get(), ns[(i - 1) / 2].get()); }
    for (int i = 0; i <= v * 3; i++) { bs.emplace_back(new BSTNode((i * 7) % 11, i)); b.insert(bs[i].get()); }
  }
};
template <> struct A<Graph> {
  typedef Graph T;
  static T* make(int v) { return new T(v); }
  static void mut(T& t, int v) { if (t.vs.size() > 1) { t.vs.erase(t.vs.begin() + 1); t.vs[0]->addEdge(*t.vs.back(), 1); } for (size_t i = 0; i < t.bs.size(); i++) t.b.erase(t.bs[i].get()); t.vs.clear(); t.ns.clear(); t.bs.clear(); t.t = Tree(); t.b = BST(); t.v = v; t.fill(); }
  static int id(T& t) { int in = 0, out = 0; for (auto& x : t.vs) { in += x->getInDegree(); out += x->getOutDegree(); } return in == out && (int)t.vs.size() == 2 * t.v + 1 ? t.v : 9; }
  static void tmp(T& x, T& y) { Vertex a(1), b(2); a.addEdge(b, 1); b.addEdge(a, 2); a.addEdge(a, 3); { Vertex c(3), d(4), e(c); c.addEdge(a, 1); a.addEdge(c, 1); d.addEdge(c, 2); c.addEdge(d); d.addEdge(d); int n = 0; for (Edge* g : c.outEdges) if (n++ % 2) g->setInvalid(); for (Edge* g : d.inEdges) g->setInvalid(); for (Edge* g : a.outEdges) { g->setInvalid(); g->setVal(-5); } c.setInvalid(); a.setInvalid(); } (void)x.t.LCA(x.ns.back().get(), x.ns[0].get()); (void)y.b.find(3); }
};
// functions that return values
struct Funcs { int v; };
template <> struct A<Funcs> {
  typedef Funcs T;
  static T* make(int v) { return new T{v}; }
  static void mut(T& t, int v) { t.v = v; }
  static int id(T& t) { return t.v; }
  static void tmp(T& x, T&) {
    S s; for (int i = 0; i < 30 * x.v + 3; i++) s += char('a' + i * i % 5);
    (void)kmpSearch(s, "aba"); (void)editDistance(s, L("aba")); (void)base64Decode(base64Encode(s)); (void)urlDecode(urlEncode(s + " %&"));
    VS w = W(x.v); auto z = zip(w, w, w); auto m = mapAll(w, [](const S& q) { return q + q; }); auto f = filterContainer(w, [](const S& q) { return q[0] == 'a'; });
    stringCast<S> c(s); (void)c(); S t = stringCast<S>(L("12")); (void)(int)stringCast<int>(L("12"));
    std::vector<int> d{1, 2, 3}; (void)mean(d); (void)variance(d); (void)binomial(10, 3); (void)genericBinaryPow(Matrix<int>(std::vector<std::vector<int>>{{1, 1}, {1, 0}}), 9); (void)genericBinaryPow(BigNum<70>(S("3")), 20);
    std::istringstream in("{1,2,3}"); Vector<int> v; in >> v; std::ostringstream o; o << v; (void)loadJSON("{\"a\":[1,2,{\"b\":\"" + s + "\"}]}");
  }
};
// ---- slots -------------------------------------------------------------------------------
struct Box { int t; explicit Box(int t) : t(t) {} virtual ~Box() {} virtual Box* copy() = 0; virtual Box* move() = 0; virtual void asg(Box&) = 0; virtual void mova(Box&) = 0; virtual void mut(int) = 0; virtual void tmp(Box&) = 0; virtual int id() = 0; };
template <class T> struct BoxB : Box {
  std::unique_ptr<T> p; BoxB(int t, T* q) : Box(t), p(q) {}
  T& of(Box& b) { return *static_cast<BoxB<T>&>(b).p; }
  void mut(int v) { A<T>::mut(*p, v); } void tmp(Box& b) { A<T>::tmp(*p, of(b)); } int id() { return A<T>::id(*p); }
};
template <class T> struct BoxC : BoxB<T> {
  BoxC(int t, T* q) : BoxB<T>(t, q) {}
  Box* copy() { return new BoxC<T>(this->t, new T(*this->p)); } Box* move() { return new BoxC<T>(this->t, mv(*this->p, std::is_constructible<T, T&&>())); }
  static T* mv(T& x, std::true_type) { return new T(std::move(x)); } static T* mv(T& x, std::false_type) { return new T(x); }
  void asg(Box& b) { *this->p = this->of(b); } void mova(Box& b) { ma(*this->p, this->of(b), std::is_assignable<T&, T&&>()); }
  static void ma(T& x, T& y, std::true_type) { x = std::move(y); } static void ma(T& x, T& y, std::false_type) { x = y; }
};
template <class T> struct BoxU : BoxB<T> { BoxU(int t, T* q) : BoxB<T>(t, q) {} Box* copy() { abort(); } Box* move() { abort(); } void asg(Box&) { abort(); } void mova(Box&) { abort(); } };
static Box* make(int t, int v) {
#define C(n, ...) case n: return new BoxC<__VA_ARGS__>(n, A<__VA_ARGS__>::make(v));
#define N(n, ...) case n: return new BoxU<__VA_ARGS__>(n, A<__VA_ARGS__>::make(v));
  typedef Map<S, S> MSS; typedef MultiMap<S, S> MMS; typedef Map<S, Vector<S>> MSM;
  switch (t) {
    C(1, Vector<S>) C(2, List<S>) C(3, Stack<S>) C(4, Queue<S>) C(5, MSS) C(6, Set<S>) C(7, MultiSet<S>) C(8, MMS) C(9, BigNum<70>) C(10, Fraction)
    C(11, Matrix<int>) C(12, Matrix<double>) C(13, Point<2>) C(14, Point<4>) C(15, JSONObject) C(16, Trie) C(17, SegmentTree<long>) C(18, Random)
    C(19, Vector<JSONObject>) C(20, Vector<Matrix<int>>) C(21, List<BigNum<70>>) C(22, Vector<Vector<S>>) C(23, List<Trie>) C(24, MSM)
    N(30, Dists) N(31, Graph) N(32, Funcs)
  }
  abort();
}
static std::map<int, std::unique_ptr<Box>> objs;
static void doing(const Op& o, Ints& r) {
  const Ints& a = o.a; const S& op = o.op;
  if (op == "new") objs[a[0]].reset(make(a[1], a[2]));
  else if (op == "copy") { Box* b = objs.at(a[1])->copy(); objs[a[0]].reset(b); }
  else if (op == "movc") { Box* b = objs.at(a[1])->move(); objs.erase(a[1]); objs[a[0]].reset(b); }
  else if (op == "asg") objs.at(a[0])->asg(*objs.at(a[1]));
  else if (op == "mova") { objs.at(a[0])->mova(*objs.at(a[1])); objs.erase(a[1]); }
  else if (op == "mut") objs.at(a[0])->mut(a[1]);
  else if (op == "del") objs.erase(a[0]);
  else abort();
}
void vf_run(const Op& o, Ints& r) {
  static bool first = true;
  if (first) {          // what the C++ runtime and the library keep for the life of the program
    first = false;
    for (int t = 1; t <= 32; t++) if (t <= 24 || t >= 30) for (int v = 0; v < 4; v++) { std::unique_ptr<Box> x(make(t, v)), y(make(t, 3 - v)); x->mut(1); x->tmp(*y); (void)x->id(); }
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  }
  if (o.op == "use") { put(r, objs.at(o.a[0])->id()); return; }
  if (o.op == "live") { put(r, live); return; }
  if (o.op == "tmp") {      // temporaries: nothing remains of them
    long n = live; track = true; objs.at(o.a[0])->tmp(*objs.at(o.a[1])); track = false; n = live - n; put(r, n); return;
  }
  track = true; doing(o, r); track = false;
}
void vf_reset() { objs.clear(); live = 0; used = 0; memset((void*)tab, 0, sizeof tab); }
