#include "common.h"
#include <map>
#include <memory>
#include <sstream>
#include "math_utils/BigNum.h"
using namespace cuhksz;
typedef BigNum<CAP> B;
// each object lives in the middle of poisoned-looking memory of its own
static std::map<int, std::unique_ptr<B>> objs;
void vf_reset() { objs.clear(); }
static ll intOf(const std::string& s) { return (ll)strtoll(s.c_str(), nullptr, 10); }
static void txt(Ints& r, const B& x, int how) {
  if (how % 3 == 0) putStr(r, x.toString());
  else if (how % 3 == 1) putStr(r, toString(x));
  else { std::ostringstream os; os << x; putStr(r, os.str()); }
}
template <class Y> static void cmps(Ints& r, const B& x, const Y& y) {
  put(r, x < y); put(r, x <= y); put(r, x > y); put(r, x >= y); put(r, x == y); put(r, x != y);
}
void vf_run(const Op& o, Ints& r) {
  const std::string& op = o.op; const Ints& a = o.a; std::string s = strOf(o.b);
  int k = a[0], how = a.size() > 3 ? a[3] : 0; bool i64 = !o.b.empty();
  if (op == "new") {
    if (!i64) objs[k].reset(new B()); 
    else if (how & 1) objs[k].reset(new B((int64_t)intOf(s)));
    else objs[k].reset(new B(s));
    txt(r, *objs[k], how); return;
  }
  if (op == "copy") { const B& y = *objs[a[1]]; objs[k].reset(new B(y)); txt(r, *objs[k], how); return; }
  if (op == "del") { objs.erase(k); return; }
  B& x = *objs[k]; const B& cx = x;
  if (op == "asg") { if (i64) { if (how & 1) x = (int64_t)intOf(s); else x = B(s); } else x = *objs[a[1]]; txt(r, x, how); return; }
  if (op == "add" || op == "sub" || op == "mul") {
    B* z;
    if (i64) { int64_t y = intOf(s); z = new B(op == "add" ? cx + y : op == "sub" ? cx - y : cx * y); }
    else { const B& y = *objs[a[1]]; z = new B(op == "add" ? cx + y : op == "sub" ? cx - y : cx * y); }
    objs[a[2]].reset(z); txt(r, *z, how); return;
  }
  if (op == "addc" || op == "subc" || op == "mulc") {
    B* z;
    if (i64) { int64_t y = intOf(s); z = op == "addc" ? &(x += y) : op == "subc" ? &(x -= y) : &(x *= y); }
    else { const B& y = *objs[a[1]]; z = op == "addc" ? &(x += y) : op == "subc" ? &(x -= y) : &(x *= y); }
    txt(r, *z, how); txt(r, x, how + 1); return;
  }
  if (op == "inc" || op == "dec") {
    if (a[1] == 1) { B old = op == "inc" ? x++ : x--; txt(r, old, how); }
    else { B& n = op == "inc" ? ++x : --x; txt(r, n, how); }
    txt(r, x, how + 1); return;
  }
  if (op == "neg") { objs[a[2]].reset(new B(-cx)); txt(r, *objs[a[2]], how); return; }
  if (op == "abs") { objs[a[2]].reset(new B(cx.abs())); txt(r, *objs[a[2]], how); txt(r, B(abs(cx)), how + 1); return; }
  if (op == "cmp") {
    if (i64) { int64_t y = intOf(s); cmps(r, cx, y); B yy(s); put(r, cmp(cx, yy)); put(r, cmp(cx, yy, true)); }
    else { const B& y = *objs[a[1]]; cmps(r, cx, y); put(r, cmp(cx, y)); put(r, cmp(cx, y, true)); }
    return;
  }
  if (op == "str") { txt(r, cx, how); return; }
  if (op == "dig") { put(r, x[(int)a[1]]); put(r, cx[(int)a[1]]); return; }
  abort();
}
