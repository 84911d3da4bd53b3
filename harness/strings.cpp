#include "common.h"
#include "algorithm.h"
using namespace cuhksz;
void vf_reset() {}
void vf_run(const Op& o, Ints& r) {
  std::string s, t;
  if (o.op == "kmpx") {
    int n = o.a[1], p = o.a[2], m = o.a[3], q = o.a[4];
    s.assign(n, 'x'); s[p] = 'y'; t.assign(m, 'x'); if (q >= 0) t += 'y' + std::string(q, 'x');
    put(r, kmpSearch(s, t, (size_t)o.a[0])); return;
  }
  if (o.op == "editx") {
    int k = o.a[0], n = o.a[1], m = o.a[2];
    if (k == 0) { s.assign(n, 'x'); t.assign(m, 'y'); }
    else if (k == 1) { s.assign(n, 'x'); t.assign(m, 'x'); }
    else if (k == 2) for (int i = 1; i <= n; i++) { s += (char)(i % 200); t += (char)((i + 1) % 200); }
    else { s = std::string(n, 'x') + std::string(m, 'z'); t = std::string(n, 'y') + std::string(m, 'z'); }
    put(r, editDistance(s, t)); return;
  }
  size_t n = o.b[0];
  for (size_t i = 1; i < o.b.size(); i++) (i <= n ? s : t).push_back((char)o.b[i]);
  s.shrink_to_fit(); t.shrink_to_fit();
  if (o.op == "edit") { put(r, editDistance(s, t)); return; }
  static const size_t far[] = {std::string::npos, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, 2147483647u, ((size_t)1 << 32) + 3};
  size_t st = o.a[0] >= 0 ? (size_t)o.a[0] : far[-o.a[0] - 1];
  if (st == 0 && o.a[1]) put(r, kmpSearch(s, t)); else put(r, kmpSearch(s, t, st));
}
