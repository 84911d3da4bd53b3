#include "common.h"
#include "math_utils.h"
using namespace cuhksz;
void vf_reset() {}
struct M2 {       // has *= but no unit made from int
  ll e[4];
  explicit M2(const Ints& b) { for (int i = 0; i < 4; i++) e[i] = b[i]; }
  M2& operator*=(const M2& o) {
    unsigned long long p[4] = {(unsigned long long)e[0], (unsigned long long)e[1], (unsigned long long)e[2], (unsigned long long)e[3]};
    unsigned long long q[4] = {(unsigned long long)o.e[0], (unsigned long long)o.e[1], (unsigned long long)o.e[2], (unsigned long long)o.e[3]};
    e[0] = p[0] * q[0] + p[1] * q[2]; e[1] = p[0] * q[1] + p[1] * q[3];
    e[2] = p[2] * q[0] + p[3] * q[2]; e[3] = p[2] * q[1] + p[3] * q[3];
    return *this;
  }
};
static __int128 mag(__int128 v) { return v < 0 ? -v : v; }
template <class T> static T pw(T b, ll e, int k) {      // exponent passed in different integer types
  if (k == 1 && e >= -30000 && e <= 30000) return genericBinaryPow(b, (short)e);
  if (k == 4) return genericBinaryPow(b, (long long)e + (1LL << 32));
  if (k == 5) return genericBinaryPow(b, (long long)e + (1LL << 62));
  if (k == 2) return genericBinaryPow(b, (long long)e);
  if (k == 3 && e >= 0) return genericBinaryPow(b, (unsigned)e);
  return genericBinaryPow(b, (int)e);
}
static void bigText(Ints& r, std::string s) {
  int sg = 1; if (s[0] == '-') { sg = -1; s = s.substr(1); }
  if (s == "0") { r.push_back(0); r.push_back(0); return; }
  Ints d; int n = s.size();
  for (int i = n; i > 0; i -= 4) d.push_back(atoi(s.substr(i < 4 ? 0 : i - 4, i < 4 ? i : 4).c_str()));
  r.push_back(sg); r.push_back(d.size()); for (ll x : d) r.push_back(x);
}
void vf_run(const Op& o, Ints& r) {
  const std::string& op = o.op; const Ints& a = o.a; size_t i = 0; int t = a[0];
  if (op == "gcd" || op == "lcm") {
    ll x = bigOf(o.b, i), y = bigOf(o.b, i); bool g = op == "gcd";
    __int128 v = 0;
    switch (t) {
      case 0: v = g ? gcd((int)x, (int)y) : lcm((int)x, (int)y); break;
      case 1: v = g ? gcd((int64_t)x, (int64_t)y) : lcm((int64_t)x, (int64_t)y); break;
      case 2: v = g ? gcd((int)x, (int64_t)y) : lcm((int)x, (int64_t)y); break;
      case 3: v = g ? gcd((int64_t)x, (int)y) : lcm((int64_t)x, (int)y); break;
      case 4: v = g ? gcd((unsigned)x, (unsigned)y) : lcm((unsigned)x, (unsigned)y); break;
      case 5: v = g ? gcd((short)x, (short)y) : lcm((short)x, (short)y); break;
      default: abort();
    }
    putBig(r, mag(v)); return;
  }
  if (op == "fact") { putBig(r, t == 0 ? (__int128)factorial((int)a[1]) : t == 5 ? factorial((short)a[1]) : t == 4 ? factorial((unsigned)a[1]) : factorial((int64_t)a[1])); return; }
  if (op == "perm") { putBig(r, t == 0 ? (__int128)permutation((int)a[1], (int)a[2]) : t == 5 ? permutation((short)a[1], (short)a[2]) : t == 4 ? permutation((unsigned)a[1], (unsigned)a[2]) : permutation((int64_t)a[1], (int64_t)a[2])); return; }
  if (op == "binom") { putBig(r, t == 0 ? (__int128)binomial((int)a[1], (int)a[2]) : t == 4 ? binomial((unsigned)a[1], (unsigned)a[2]) : binomial((int64_t)a[1], (int64_t)a[2])); return; }
  int e = a[1], k = a.size() > 2 ? a[2] : 0;
  if (op == "bpow") { putBig(r, binaryPow(bigOf(o.b, i), e)); return; }
  if (op == "gpow") {
    ll x = bigOf(o.b, i);
    if (t == 0) putBig(r, pw((int)x, e, k));
    else if (t == 1) putBig(r, pw((int64_t)x, e, k));
    else { double v = pw((double)x, e, k); putBig(r, std::fabs(v) < 9.3e18 && v == std::floor(v) ? (__int128)v : ((__int128)1 << 100)); }
    return;
  }
  if (op == "bigpow") { bigText(r, toString(pw(BigNum<120>((int64_t)bigOf(o.b, i)), e, k))); return; }
  if (op == "fpow") { Fraction f = pw(Fraction((int)o.b[0], (int)o.b[1]), e, k); putBig(r, f.getNumerator()); putBig(r, f.getDenominator()); return; }
  if (op == "mpow") {
    Matrix<ll> m(2, 2); for (int x = 0; x < 4; x++) m[x / 2][x % 2] = o.b[x];
    Matrix<ll> p = pw(m, e, k); for (int x = 0; x < 4; x++) putBig(r, p[x / 2][x % 2]); return;
  }
  if (op == "spow") { M2 p = pw(M2(o.b), e, k); for (int x = 0; x < 4; x++) putBig(r, p.e[x]); return; }
  abort();
}
