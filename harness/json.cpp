#include "common.h"
#include <map>
#include <memory>
#include <sstream>
#include "json/Json.h"
using namespace cuhksz;
typedef JSONObject J;
static std::map<int, std::unique_ptr<J>> objs;
void vf_reset() { objs.clear(); }

static double floatOf(ll s, ll m, ll e) {
  if (m == 0) return 0.0;
  char b[64]; snprintf(b, sizeof b, "%s%llde%lld", s < 0 ? "-" : "", m, e);
  return strtod(b, nullptr);
}
static void putFloat(Ints& r, double d) {
  char b[64];
  if (d == 0) { r.push_back(0); r.push_back(0); r.push_back(0); return; }
  if (!(std::fabs(d) < 1e305)) { r.push_back(9); r.push_back(9); r.push_back(9); return; }
  snprintf(b, sizeof b, "%.8e", std::fabs(d));
  ll m = b[0] - '0'; int i = 2;
  for (; i < 10; i++) m = m * 10 + (b[i] - '0');
  r.push_back(d < 0 ? -1 : 1); r.push_back(m); r.push_back(atoi(b + 11) - 8);
}
static std::string unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { o += s[i]; continue; }
    if (++i >= s.size()) return o + "<bad escape>";
    switch (s[i]) {
      case '"': o += '"'; break; case '\\': o += '\\'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
      case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
      default: return o + "<bad escape>";
    }
  }
  return o;
}
static int typeOf(const J& x) {
  switch (x.getType()) {
    case J::Type::Null: return 0; case J::Type::Boolean: return 1; case J::Type::Integral: return 2; case J::Type::Float: return 3;
    case J::Type::String: return 4; case J::Type::Array: return 5; default: return 6;
  }
}
static void enc(const J& x, Ints& r, bool six = false) {
  int t = typeOf(x); put(r, t);
  switch (t) {
    case 0: break;
    case 1: put(r, x.toBool()); break;
    case 2: put(r, x.toInt()); break;
    case 3: if (six) { char b[400]; int n = snprintf(b, sizeof b, "%.6f", x.toDouble()); for (int i = 0; i < n; i++) put(r, b[i]); } else putFloat(r, x.toDouble()); break;
    case 4: { std::string s = unescape(x.toString()); put(r, s.size()); putStr(r, s); break; }
    case 5: put(r, x.size()); for (const J& y : x.ArrayRange()) enc(y, r, six); break;
    default: put(r, x.size()); for (auto& p : x.ObjectRange()) { put(r, p.first.size()); putStr(r, p.first); enc(p.second, r, six); }
  }
}
// Build a value from its encoding. style: 0 element by element, 1 constructors,
// Array(...) and initializer lists where possible.
template <class T> static J as(T v, int style) { if (style == 1) return J(v); J x; x = v; return x; }
static J number(int v, int style) {   // through every integral type that holds it
  switch ((unsigned)v % 8) {
    case 0: if (v >= 0 && v < 128) return as((char)v, style); return as((long)v, style);
    case 1: if (v >= -128 && v < 128) return as((signed char)v, style); return as((long long)v, style);
    case 2: if (v >= 0 && v < 256) return as((unsigned char)v, style); return as(v, style);
    case 3: case 4: if (v == (short)v) return as((short)v, style); return as(v, style);
    case 5: if (v >= 0) return as((unsigned)v, style); return as(v, style);
    case 6: if (v >= 0) return as((unsigned long)v, style); return as((long)v, style);
    default: return as(v, style);
  }
}
static J dec(const Ints& f, size_t& i, int style) {
  int t = f[i++];
  switch (t) {
    case 0: return style == 1 ? J(nullptr) : J();
    case 1: { bool b = f[i++]; if (style == 1) return J(b); J x; x = b; return x; }
    case 2: { int v = f[i++]; return number(v, style); }
    case 3: { double d = floatOf(f[i], f[i + 1], f[i + 2]); i += 3;
              if ((double)(float)d == d) { if (style == 1) return J((float)d); J x; x = (float)d; return x; }
              if (style == 1) return f[i - 1] % 2 ? J(d) : J((long double)d);
              J x; if (f[i - 1] % 2) x = d; else x = (long double)d; return x; }
    case 4: { size_t n = f[i++]; std::string s; for (size_t k = 0; k < n; k++) s += (char)f[i++];
              bool plain = s.find('\0') == std::string::npos;
              if (style == 1) return plain ? J(s.c_str()) : J(s);
              J x; if (plain && n % 2) x = s.c_str(); else if (plain && n % 4 == 2) x = &s[0]; else x = s; return x; }
    case 5: {
      int n = f[i++];
      if (style == 1 && n == 0) return J::Array();
      if (style == 1 && n == 1) { J a = dec(f, i, style); return J::Array(a); }
      if (style == 1 && n == 2) { J a = dec(f, i, style); J b = dec(f, i, style); return J::Array(a, b); }
      J x = J::Build(J::Type::Array);
      for (int k = 0; k < n; k++) { if (style == 1) x.append(dec(f, i, style)); else x[k] = dec(f, i, style); }
      return x;
    }
    default: {
      int n = f[i++];
      std::vector<std::string> ks; std::vector<J> vs;
      for (int k = 0; k < n; k++) {
        size_t m = f[i++]; std::string s; for (size_t q = 0; q < m; q++) s += (char)f[i++];
        ks.push_back(s); vs.push_back(dec(f, i, style));
      }
      if (style == 1 && n == 0) return J::Object();
      if (style == 1 && n == 1) return J({J(ks[0]), vs[0]});
      if (style == 1 && n == 2) { std::initializer_list<J> l = {J(ks[0]), vs[0], J(ks[1]), vs[1]}; return J(l); }
      if (style == 1 && n == 3) { std::initializer_list<J> l = {J(ks[0]), vs[0], J(ks[1]), vs[1], J(ks[2]), vs[2]}; return J(l); }
      if (style == 1 && n == 5) { std::initializer_list<J> l = {J(ks[0]), vs[0], J(ks[1]), vs[1], J(ks[2]), vs[2], J(ks[3]), vs[3], J(ks[4]), vs[4]}; return J(l); }
      J x = J::Build(J::Type::Object);
      for (int k = 0; k < n; k++) { if (k % 2 && ks[k].find('\0') == std::string::npos) x[ks[k].c_str()] = vs[k]; else x[ks[k]] = vs[k]; }
      return x;
    }
  }
}
struct Step { int idx; std::string key; };
typedef std::vector<Step> Path;
static Path path(const Ints& f, size_t& i) {
  Path p; int n = f[i++];
  for (int k = 0; k < n; k++) {
    Step s; s.idx = -1;
    if (f[i++] == 0) s.idx = f[i++];
    else { int m = f[i++]; for (int q = 0; q < m; q++) s.key += (char)f[i++]; }
    p.push_back(s);
  }
  return p;
}
static J& nav(J& o, const Path& p, int how) {
  J* x = &o;
  for (auto& s : p) {
    if (s.idx >= 0) x = how ? &x->at((unsigned)s.idx) : &(*x)[s.idx];
    else if (how) x = &x->at(s.key);
    else if (s.key.find('\0') == std::string::npos && s.key.size() % 2) x = &(*x)[s.key.c_str()];
    else x = &(*x)[s.key];
  }
  return *x;
}
static const J& cnav(const J& o, const Path& p) {
  const J* x = &o;
  for (auto& s : p) x = s.idx >= 0 ? &x->at((unsigned)s.idx) : &x->at(s.key);
  return *x;
}
template <class T> static void assignScalar(J& x, const Ints& f, size_t i) {}
void vf_run(const Op& o, Ints& r) {
  const Ints &a = o.a, &b = o.b; const std::string& op = o.op;
  size_t i = 0;
  if (op == "load") { J x = loadJSON(strOf(b)); enc(x, r); return; }
  if (op == "dump") {
    J x = dec(b, i, a[0] & 1);
    std::string s;
    if (a[1] == 0) s = x.dump();
    else if (a[1] == 1) { std::ostringstream os; os << x; s = os.str(); }
    else if (a[1] == 2) s = x.dump(0);
    else if (a[1] == 3) s = x.dump(2, "\t");
    else s = x.dump(1, "");
    putStr(r, s); return;
  }
  if (op == "again") {
    J x = dec(b, i, a[0] & 1);
    std::string s = x.dump();
    J y = loadJSON(s);
    std::string s2 = y.dump();
    J z = loadJSON(s2);
    Ints e1, e2, e3; enc(x, e1, true); enc(y, e2, true); enc(z, e3, true);
    put(r, s == s2); put(r, e1 == e2); put(r, e2 == e3); return;
  }
  if (op == "rep") {   // a large document given by a formula (RepText)
    int kind = a[0], n = a[1]; std::string t;
    if (kind == 0 || kind == 5) { t = "["; for (int q = 0; q < n; q++) { if (q) t += ','; t += (char)('0' + q % 10); } if (kind == 0) t += ']'; }
    else if (kind == 1) { t = "{"; for (int q = 0; q < n; q++) { char z[24]; snprintf(z, sizeof z, "%s\"%05d\":%d", q ? "," : "", q, q % 10); t += z; } t += '}'; }
    else if (kind == 2) t = std::string(n, ' ') + "7" + std::string(n, '\n');
    else if (kind == 3 || kind == 6) { t = "\""; for (int q = 0; q < n; q++) t += (char)('a' + q % 26); if (kind == 3) t += '"'; }
    else t = std::string(n, '[') + std::string(kind == 4 ? n : n - 1, ']');
    J x = loadJSON(t); enc(x, r); return;
  }
  if (op == "repd") {  // the same value built through the interface, written and read
    int kind = a[0], n = a[1]; J x;
    if (kind == 0) { x = J::Array(); for (int q = 0; q < n; q++) x.append(q % 10); }
    else if (kind == 1) { x = J::Object(); for (int q = 0; q < n; q++) { char z[8]; snprintf(z, sizeof z, "%05d", q); x[std::string(z)] = q % 10; } }
    else if (kind == 2) x = 7;
    else if (kind == 3) { std::string t; for (int q = 0; q < n; q++) t += (char)('a' + q % 26); x = t; }
    else { x = J::Array(); for (int q = 1; q < n; q++) { J y = J::Array(); y.append(std::move(x)); x = std::move(y); } }
    J y = loadJSON(x.dump()); enc(y, r); return;
  }
  if (op == "esc") { putStr(r, jsonEscape(strOf(b))); return; }
  int k = a[0], how = a.size() > 2 ? a[2] : 0;
  if (op == "mk") { objs[k].reset(new J(dec(b, i, a[1]))); return; }
  if (op == "build") {
    static const J::Type T[] = {J::Type::Null, J::Type::Boolean, J::Type::Integral, J::Type::Float, J::Type::String, J::Type::Array, J::Type::Object};
    objs[k].reset(new J(J::Build(T[a[1]]))); return;
  }
  if (op == "copy") { const J& s = *objs[a[1]]; objs[k].reset(new J(s)); return; }
  if (op == "move") { J* n = new J(std::move(*objs[a[1]])); objs[k].reset(n); return; }
  if (op == "del") { objs.erase(k); return; }
  J& x = *objs[k];
  if (op == "see") { enc(x, r); return; }
  Path p = path(b, i);
  if (op == "set") {
    int st = a[1];
    if (st == 2) { J v = dec(b, i, 0); nav(x, p, how) = v; return; }          // copy assignment
    if (st == 1 || b[i] > 4) { J v = dec(b, i, 1); nav(x, p, how) = std::move(v); return; }
    J& n = nav(x, p, how);
    switch (b[i]) {
      case 0: n = nullptr; break;
      case 1: n = (bool)b[i + 1]; break;
      case 2: { int v = b[i + 1]; if (v == (signed char)v) n = (signed char)v; else if (v % 2) n = (long)v; else n = v; break; }
      case 3: { double d = floatOf(b[i + 1], b[i + 2], b[i + 3]); if (d == (double)(float)d) n = (float)d; else n = d; break; }
      default: { std::string s; for (ll q = 0; q < b[i + 1]; q++) s += (char)b[i + 2 + q];
                 if (s.find('\0') == std::string::npos && s.size() % 2) n = s.c_str(); else n = s; }
    }
    return;
  }
  if (op == "app") {
    i++; int n = b[i++];
    std::vector<J> v; for (int q = 0; q < n; q++) v.push_back(dec(b, i, 1));
    J& y = nav(x, p, how);
    if (n == 2) y.append(v[0], v[1]);
    else if (n == 3) y.append(v[0], v[1], v[2]);
    else if (n == 1 && v[0].getType() == J::Type::Integral) y.append((int)v[0].toInt());
    else if (n == 1 && v[0].getType() == J::Type::Boolean) y.append(v[0].toBool());
    else for (auto& z : v) y.append(z);
    return;
  }
  if (op == "asg" || op == "mva" || op == "apn") {
    Path q = path(b, i);
    J& d = nav(x, p, how); J& s = nav(*objs[a[1]], q, how);
    if (op == "asg") { const J& cs = s; d = cs; }
    else if (op == "mva") d = std::move(s);
    else d.append(s);
    return;
  }
  if (op == "rasg" || op == "rmva" || op == "rapn") {      // the source first: the reference has to survive the way to d
    Path q = path(b, i);
    J& s = nav(*objs[a[1]], q, how); J& d = nav(x, p, how);
    if (op == "rasg") d = s; else if (op == "rmva") d = std::move(s); else d.append(s);
    return;
  }
  if (op == "fill") {
    J& d = nav(x, p, how); J w = dec(b, i, 0);
    for (auto& y : d.ArrayRange()) y = w;
    for (auto& y : d.ObjectRange()) y.second = w;
    return;
  }
  if (op == "touch") { enc(nav(x, p, how), r); return; }
  const J& cx = x;
  const J& n = cnav(cx, p);
  if (op == "cget") {
    enc(n, r);
    // the same children through the non-const ranges and const range objects
    J& m = nav(x, p, 0);
    size_t c1 = 0, c2 = 0;
    for (J& y : m.ArrayRange()) { (void)y; c1++; }
    for (auto& y : m.ObjectRange()) { (void)y; c1++; }
    const auto ar = m.ArrayRange(); const auto orr = m.ObjectRange();
    for (auto it = ar.begin(); it != ar.end(); ++it) c2++;
    for (auto it = orr.begin(); it != orr.end(); ++it) c2++;
    ll want = n.size() < 0 ? 0 : n.size();
    if ((ll)c1 != want || (ll)c2 != want) put(r, -1);
  }
  else if (op == "info") {
    put(r, typeOf(n)); put(r, n.isNull()); put(r, n.size()); put(r, n.length());
    put(r, n.toInt()); put(r, n.toBool()); putFloat(r, n.toDouble());
    std::string s = n.toString();
    putStr(r, s);
    if ((int)n != n.toInt() || (bool)n != n.toBool() || (double)n != n.toDouble() || (float)n != (float)n.toDouble() || n.toFloat() != (float)n.toDouble() || (std::string)n != s) put(r, -1);
  }
  else if (op == "key") { put(r, n.hasKey(std::string(strOf(b, i)))); }
  else if (op == "cat") { try { const J& y = n.at(strOf(b, i)); enc(y, r); } catch (const std::exception&) { r.clear(); put(r, -1); } }
  else if (op == "cai") { try { const J& y = n.at((unsigned)a[1]); enc(y, r); } catch (const std::exception&) { r.clear(); put(r, -1); } }
  else abort();
}
