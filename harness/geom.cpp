#include "common.h"
#include <map>
#include <memory>
#include <sstream>
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
using namespace cuhksz;
static const double U = 64;
struct PB { virtual ~PB() {} };
template <int N> struct PN : PB { Point<N> p; PN() {} PN(const Point<N>& q) : p(q) {} };
static std::map<int, std::pair<int, std::unique_ptr<PB>>> pts;
void vf_reset() { pts.clear(); }
static void real(Ints& r, double v) {
  if (!std::isfinite(v) || std::fabs(v) > 1e18) { r.push_back(9); r.push_back(0); return; }
  long double x = (long double)v * 1e9L; putBig(r, (__int128)(x < 0 ? x - .5L : x + .5L));
}
static void exact(Ints& r, double v) {
  double x = v * U; r.push_back(std::fabs(x) < 2e9 && x == std::floor(x) ? (ll)x : 2147483647LL);
}
template <int N> static Point<N>& at(int k) { return static_cast<PN<N>*>(pts[k].second.get())->p; }
template <int N> static void store(int k, const Point<N>& p) { pts[k].second.reset(new PN<N>(p)); pts[k].first = N; }
template <int N> struct Make { static Point<N> of(const Ints& b) { Point<N> p; for (int i = 0; i < N; i++) p[i] = b[i] / U; return p; } };
template <> struct Make<1> { static Point<1> of(const Ints& b) { return Point<1>(b[0] / U); } };
template <> struct Make<2> { static Point<2> of(const Ints& b) { return Point<2>(b[0] / U, b[1] / U); } };
template <> struct Make<3> { static Point<3> of(const Ints& b) { return Point<3>(b[0] / U, b[1] / U, b[2] / U); } };
template <int N> static double crossOf(const Point<N>&, const Point<N>&) { abort(); }
template <> double crossOf<2>(const Point<2>& x, const Point<2>& y) { return cross(x, y); }
// hint c: the factor is coordinate c[0] of the point itself
template <int N> static double& own(int k, double f, int i) { double& x = at<N>(k)[i]; if (x != f) abort(); return x; }
template <int N> static void run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op; int k = a[0];
  if (op == "new") { store<N>(k, Make<N>::of(o.b)); return; }
  if (op == "zero") { store<N>(k, Point<N>()); return; }
  if (op == "copy") { Point<N> q(at<N>(a[1])); store<N>(k, q); return; }
  if (op == "asg") { at<N>(k) = at<N>(a[1]); return; }
  if (op == "get") { const Point<N>& q = at<N>(k); for (int i = 0; i < N; i++) exact(r, q[i]); return; }
  if (op == "str") { std::ostringstream s; s << at<N>(k); putStr(r, s.str()); return; }
  if (op == "set") { at<N>(k)[a[1]] = a[2] / U; return; }
  if (op == "len") { real(r, at<N>(k).len()); return; }
  if (op == "norm") { Point<N> q(at<N>(k)); if (o.c.size()) for (int i = 0; i < N; i++) q[i] = std::ldexp(q[i], o.c[0]); q.normalize(); for (int i = 0; i < N; i++) real(r, q[i]); return; }
  if (op == "add") { Point<N> q = at<N>(a[1]) + at<N>(a[2]); store<N>(k, q); return; }
  if (op == "sub") { Point<N> q = at<N>(a[1]) - at<N>(a[2]); store<N>(k, q); return; }
  if (op == "adda") { Point<N>& q = at<N>(k) += at<N>(a[1]); if (&q != &at<N>(k)) abort(); return; }
  if (op == "suba") { Point<N>& q = at<N>(k) -= at<N>(a[1]); if (&q != &at<N>(k)) abort(); return; }
  if (op == "mul") { Point<N> q = at<N>(a[1]) * ((double)a[2] / a[3]); store<N>(k, q); return; }
  if (op == "rmul") { Point<N> q = ((double)a[2] / a[3]) * at<N>(a[1]); store<N>(k, q); return; }
  if (op == "div") { Point<N> q = at<N>(a[1]) / ((double)a[2] / a[3]); store<N>(k, q); return; }
  if (op == "mula") { if (o.c.size()) at<N>(k) *= own<N>(k, (double)a[1] / a[2], o.c[0]); else at<N>(k) *= (double)a[1] / a[2]; return; }
  if (op == "diva") { if (o.c.size()) at<N>(k) /= own<N>(k, (double)a[1] / a[2], o.c[0]); else at<N>(k) /= (double)a[1] / a[2]; return; }
  if (op == "dot") { real(r, at<N>(k) * at<N>(a[1])); real(r, dot(at<N>(k), at<N>(a[1]))); return; }
  if (op == "cross") { real(r, crossOf<N>(at<N>(k), at<N>(a[1]))); return; }
  if (op == "cmp") { const Point<N>&x = at<N>(k), &y = at<N>(a[1]); put(r, x == y); put(r, x != y); put(r, x < y); put(r, x <= y); put(r, x > y); put(r, x >= y); return; }
  if (op == "scale") {   // a[0]: 0 *, 1 c*, 2 *=, 3 /, 4 /=
    Point<N> x; double f = (double)a[1] / a[2]; for (int i = 0; i < N; i++) x[i] = o.b[i] / U;
    Point<N> y = a[0] == 0 ? x * f : a[0] == 1 ? f * x : a[0] == 2 ? (x *= f) : a[0] == 3 ? x / f : (x /= f);
    for (int i = 0; i < N; i++) real(r, y[i]);
    return;
  }
  if (op == "near") { Point<N> x, y; for (int i = 0; i < N; i++) { x[i] = a[i] / U; y[i] = a[i] / U + o.b[i] * 1e-8; } put(r, x == y); put(r, x != y); put(r, x < y); put(r, x <= y); put(r, x > y); put(r, x >= y); return; }
  abort();
}
// hint c: how a shape is made; the picture scaled by 2^c[1] and the result scaled back; directions scaled by 2^c[2]
static double S = 1;
static Line line(const Ints& a, int i, int how, double D = 1) {
  Line l(Point<2>(a[i] / U * S, a[i + 1] / U * S), GVector<2>(a[i + 2] / U * S * D, a[i + 3] / U * S * D));
  if (how == 1) { Line m(l); return m; }
  if (how == 2) { Line m(Point<2>(7, 8), GVector<2>(1, 3)); m = l; return m; }
  return l;
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op; int how = o.c.size() ? o.c[0] : 0; double D = 1; S = 1;
  if (o.c.size() > 2) { S = std::ldexp(1, o.c[1]); D = std::ldexp(1, o.c[2]); }
  if (op == "inter") { Line l = line(a, 0, how, D), m = line(a, 4, how, 1 / D); Point<2> p = getIntersection(l, m); real(r, p[0] / S); real(r, p[1] / S); return; }
  if (op == "dline") { real(r, disToLine(Point<2>(a[0] / U * S, a[1] / U * S), line(a, 2, how, D)) / S); return; }
  if (op == "dseg") { real(r, disToSegment(Point<2>(a[0] / U * S, a[1] / U * S), line(a, 2, how)) / S); return; }
  if (op == "llen") { Line l = line(a, 0, how); real(r, l.len() / S); return; }
  if (op == "area" || op == "peri" || op == "cpt") {
    Point<2> O(a[0] / U * S, a[1] / U * S); double rad = a[2] / U * S;
    Circle c = (a[0] == 0 && a[1] == 0 && how) ? (rad == 1 ? Circle() : Circle(rad)) : (rad == 1 && how) ? Circle(O) : Circle(O, rad);
    if (op == "area") real(r, c.getArea() / S / S); else if (op == "peri") real(r, c.getPerimeter() / S);
    else { Point<2> p = c.getPoint(a[3] * 3.14159265358979323846 / 12); real(r, p[0] / S); real(r, p[1] / S); }
    return;
  }
  int n = op == "new" || op == "near" || op == "scale" ? (int)o.b.size() : op == "zero" ? (int)a[1] : op == "copy" || op == "add" || op == "sub" || op == "mul" || op == "rmul" || op == "div" ? pts[a[1]].first : pts[a[0]].first;
  switch (n) { case 1: run<1>(o, r); return; case 2: run<2>(o, r); return; case 3: run<3>(o, r); return; case 4: run<4>(o, r); return; case 5: run<5>(o, r); return; }
  abort();
}
