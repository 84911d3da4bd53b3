// -DELEM=int|double
#include "common.h"
#include <map>
#include <memory>
#include <sstream>
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
using namespace cuhksz;
typedef Matrix<ELEM> M;
struct Obj { std::unique_ptr<M> m; int n, k; };   // the shape is not observable through the API
static std::map<int, Obj> objs;
void vf_reset() { objs.clear(); }
// a failed assert prints its diagnostic and ends the program: make it an exit status
static void onabort(int) { _exit(3); }
static struct Setup { Setup() { signal(SIGABRT, onabort); } } setup_;
static void dump(Ints& r, const Obj& o) {
  put(r, o.n); put(r, o.k);
  for (int i = 0; i < o.n; i++) for (int j = 0; j < o.k; j++) put(r, (ll)(*o.m)[i][j]);
}
static std::vector<std::vector<int>> rows(const Ints& b) {
  std::vector<std::vector<int>> v(b[0], std::vector<int>(b[1]));
  for (ll i = 0; i < b[0]; i++) for (ll j = 0; j < b[1]; j++) v[i][j] = (int)b[2 + i * b[1] + j];
  return v;
}
static void store(Ints& r, int k, M* m, int n, int c) { Obj& o = objs[k]; o.m.reset(m); o.n = n; o.k = c; dump(r, o); }
void vf_run(const Op& o, Ints& r) {
  const std::string& op = o.op; const Ints &a = o.a, &b = o.b; int k = a.size() ? a[0] : 0;
  if (op == "reduce") {
#ifdef FRACTION
    Matrix<Fraction> m(rows(b));
    m.reduce();
    for (ll i = 0; i < b[0]; i++) for (ll j = 0; j < b[1]; j++) { put(r, m[i][j].getNumerator()); put(r, m[i][j].getDenominator()); }
#else
    // dyadic entries b * 2^-a[0], for which elimination is exact
    Matrix<double> m((int)b[0], (int)b[1]);
    for (ll i = 0; i < b[0]; i++) for (ll j = 0; j < b[1]; j++) m[i][j] = std::ldexp((double)b[2 + i * b[1] + j], -(int)a[0]);
    m.reduce();
    for (ll i = 0; i < b[0]; i++) for (ll j = 0; j < b[1]; j++) {
      double x = m[i][j]; ll den = 1;
      while (x != (double)(ll)x && den < (1 << 20)) { x *= 2; den *= 2; }
      put(r, x == (double)(ll)x ? (ll)x : 999983); put(r, den);
    }
#endif
    return;
  }
  if (op == "quart") {
    int n = b[0], m = b[1]; Matrix<double> x(n, m), y(n, m);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { x[i][j] = b[2 + i * m + j] / 4.0; y[i][j] = b[2 + n * m + i * m + j] / 4.0; }
    auto all = [&](const Matrix<double>& z, double f) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double v = z[i][j] * f; put(r, v == (double)(ll)v ? (ll)v : 999983); } };
    put(r, x == y); put(r, x != y); all(x + y, 4); all(x - y, 4); if (n == m) all(x * y, 16);
    return;
  }
  if (op == "new") { store(r, k, new M(rows(b)), b[0], b[1]); return; }
  if (op == "zeros") { store(r, k, a[1] == a[2] ? new M((int)a[1]) : new M((int)a[1], (int)a[2]), a[1], a[2]); return; }
  if (op == "ident") { store(r, k, new M(M::idMat((int)a[1])), a[1], a[1]); return; }
  if (op == "copy") { const Obj& s = objs[a[1]]; store(r, k, new M(*s.m), s.n, s.k); return; }
  if (op == "del") { objs.erase(k); return; }
  Obj& x = objs[k]; const M& cx = *x.m;
  if (op == "clear") { x.m->clear(); x.n = x.k = 0; dump(r, x); return; }
  if (op == "get") { dump(r, x); return; }
  if (op == "set") { (*x.m)[(int)a[1] - 1][(int)a[2] - 1] = (ELEM)a[3]; dump(r, x); return; }
  if (op == "str") { if (a[1]) { std::ostringstream os; os << cx; putStr(r, os.str()); } else putStr(r, cx.toString()); return; }
  if (op == "powb") { unsigned e = 0; for (ll c : b) e = e * 2 + (unsigned)c; M p = pow(cx, e); store(r, a[2], new M(p), x.n, x.k); return; }
  if (op == "pow") { M p = pow(cx, (unsigned)a[1]); store(r, a[2], new M(p), x.n, x.k); return; }
  Obj& y = objs[a[1]]; const M& cy = *y.m;
  if (op == "asg") { *x.m = cy; int n = y.n, c = y.k; x.n = n; x.k = c; dump(r, x); return; }
  if (op == "cmp") { put(r, cx == cy); put(r, cx != cy); return; }
  if (op == "add") { M z = cx + cy; store(r, a[2], new M(z), x.n, x.k); return; }
  if (op == "sub") { M z = cx - cy; store(r, a[2], new M(z), x.n, x.k); return; }
  if (op == "mul") { M z = cx * cy; int n = x.n, c = y.k; store(r, a[2], new M(z), n, c); return; }
  if (op == "addc") { M& z = (*x.m += cy); if (&z != x.m.get()) put(r, -1); dump(r, x); return; }
  if (op == "subc") { M& z = (*x.m -= cy); if (&z != x.m.get()) put(r, -1); dump(r, x); return; }
  if (op == "mulc") { int c = y.k; M& z = (*x.m *= cy); if (&z != x.m.get()) put(r, -1); x.k = c; dump(r, x); return; }
  abort();
}
