#include "common.h"
#include <map>
#include "string_utils/Trie.h"
using namespace cuhksz;
// Alphabets: code (2..) <-> character, kept apart from the library's default mapping.
static const char* L52 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static char chOf(int al, int code) {
  switch (al) {
    case 0: return 'a' + (code - 2);
    case 1: return 'A' + (code - 2);
    case 2: return L52[code - 2];
    case 3: return (char)code;
    case 4: return 'z' - (code - 2);
    default: return '0' + (code - 2);
  }
}
template <int AL> int toInt(char ch) {
  if (ch == '\001') return 1;
  for (int c = 2; c < 256; c++) {
    if (AL != 3 && AL != 2 && c > 27) break;
    if (AL == 2 && c > 53) break;
    if (AL == 5 && c > 11) break;
    if (chOf(AL, c) == ch) return c;
  }
  fprintf(stderr, "character outside the alphabet\n"); exit(1);
}
template <int AL> char toChar(int n) { return n == 1 ? '\001' : chOf(AL, n); }
static std::map<int, Trie*> t;
static std::map<int, int> al;
void vf_reset() { for (auto& p : t) delete p.second; t.clear(); al.clear(); }
static std::string wordOf(int a, const Ints& b, size_t i, size_t n) {
  std::string s; for (; i < n; i++) s.push_back(chOf(a, b[i])); return s;
}
static int codeOf(int a, char ch) {
  for (int c = 2; c < 256; c++) if (chOf(a, c) == ch) { return c; }
  return 0;
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op; int k = a[0];
  if (op == "new") {
    Trie* p = nullptr;
    switch (a[1]) {
      case 0: p = new Trie(); break;
      case 1: p = new Trie(toInt<1>, toChar<1>); break;
      case 2: p = new Trie(toInt<2>, toChar<2>); break;
      case 3: p = new Trie(toInt<3>, toChar<3>); break;
      case 4: p = new Trie(toInt<4>, toChar<4>); break;
      default: p = new Trie(toInt<5>, toChar<5>); break;
    }
    t[k] = p; al[k] = a[1]; put(r, p->size());
    return;
  }
  if (op == "copy") { t[k] = new Trie(*t[a[1]]); al[k] = al[a[1]]; return; }
  if (op == "asg") { *t[k] = *t[a[1]]; al[k] = al[a[1]]; return; }
  if (op == "del") { delete t[k]; t.erase(k); al.erase(k); return; }
  Trie& x = *t[k];
  int A = al[k];
  if (op == "ins") { x.insert(wordOf(A, o.b, 0, o.b.size())); put(r, x.size()); }
  else if (op == "rem") { x.remove(wordOf(A, o.b, 0, o.b.size())); put(r, x.size()); }
  else if (op == "has") put(r, x.contain(wordOf(A, o.b, 0, o.b.size())));
  else if (op == "hasall") {
    size_t i = 0;
    for (size_t j = 0; j < o.b.size(); j++) if (o.b[j] == 0) { put(r, x.contain(wordOf(A, o.b, i, j))); i = j + 1; }
  }
  else if (op == "iter") {
    put(r, x.size());
    size_t n = 0, bad = 0;
    Trie::iterator end = x.end();
    for (Trie::iterator it = x.begin(); it != end; ++it) {
      Trie::iterator c = it;
      std::string s = *it;
      if (!(c == it) || *c != s || it == end) bad++;
      for (char ch : s) put(r, codeOf(A, ch));
      put(r, 0);
      ++c;
      if (c == it) bad++;
      if (++n > 100000) break;
    }
    if (bad) put(r, -1);
  }
  else abort();
}
