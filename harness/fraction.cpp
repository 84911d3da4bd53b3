#include "common.h"
#include <map>
#include <memory>
#include <sstream>
#include "math_utils/Fraction.h"
using namespace cuhksz;
typedef Fraction F;
static std::map<int, std::unique_ptr<F>> objs;
void vf_reset() { objs.clear(); }
static void val(Ints& r, F& f) { put(r, f.getNumerator()); put(r, f.getDenominator()); }
void vf_run(const Op& o, Ints& r) {
  const std::string& op = o.op; const Ints& a = o.a;
  int k = a.size() ? a[0] : 0, v = a.size() > 1 ? a[1] : 0, c = o.b.size() ? o.b[0] : 0;
  if (op == "new") { objs[k].reset(new F(v, (int)a[2])); val(r, *objs[k]); return; }
  if (op == "newi") { objs[k].reset(new F(v)); val(r, *objs[k]); return; }
  if (op == "zero") { objs[k].reset(new F()); val(r, *objs[k]); return; }
  if (op == "del") { objs.erase(k); return; }
  F& x = *objs[k]; const F& cx = x;
  if (op == "asg") { x = *objs[v]; val(r, x); return; }
  if (op == "bin") { const F& y = *objs[v]; F* z = new F(c == 1 ? cx + y : c == 2 ? cx - y : c == 3 ? cx * y : cx / y); objs[a[2]].reset(z); val(r, *z); return; }
  if (op == "bini") { F* z = new F(c == 1 ? cx + v : c == 2 ? cx - v : c == 3 ? cx * v : cx / v); objs[a[2]].reset(z); val(r, *z); return; }
  if (op == "ibin") { F* z = new F(c == 1 ? v + cx : c == 2 ? v - cx : c == 3 ? v * cx : v / cx); objs[a[2]].reset(z); val(r, *z); return; }
  if (op == "cmpd") { const F& y = *objs[v]; if (c == 1) x += y; else if (c == 2) x -= y; else if (c == 3) x *= y; else x /= y; val(r, x); return; }
  if (op == "cmpi") { if (c == 1) x += v; else if (c == 2) x -= v; else if (c == 3) x *= v; else x /= v; val(r, x); return; }
  if (op == "cmp") { const F& y = *objs[v]; put(r, cx == y); put(r, cx != y); put(r, cx < y); put(r, cx <= y); put(r, cx > y); put(r, cx >= y); return; }
  if (op == "cmpn") { put(r, cx == v); put(r, cx != v); put(r, cx < v); put(r, cx <= v); put(r, cx > v); put(r, cx >= v); return; }
  if (op == "see") { val(r, x); std::ostringstream os; os << cx; putStr(r, os.str()); return; }
  abort();
}
