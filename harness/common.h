// Script interpreter shared by every harness.
//
// A script line is   op|a|b|c|flag   (a, b, c: blank separated integers).
// One ndjson event is written (and flushed) per script line:
//   {"op":..,"a":[..],"b":[..],"c":[..],"out":"ok|error|crash|hang|exit0","r":[..]}
// "reset" starts an episode. Lines flagged '?' are first tried in a forked
// child, so that a call the library rejects by ending the program can be
// observed without ending the episode.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef long long ll;
typedef std::vector<ll> Ints;
struct Op {
  std::string op;
  Ints a, b, c;
  bool may;
};

void vf_reset();                          // drop every live object
void vf_run(const Op& o, Ints& r);        // perform the call, append results

// ---- result helpers --------------------------------------------------------
static inline void put(Ints& r, ll v) {   // clamp: TLC integers are 32 bit
  if (v > 2147483647LL) v = 2147483647LL;
  if (v < -2147483648LL) v = -2147483648LL;
  r.push_back(v);
}
// sign, then base-10^4 limbs, least significant first (sign 0 => no limbs)
static inline void putBig(Ints& r, __int128 v) {
  r.push_back(v < 0 ? -1 : v > 0 ? 1 : 0);
  unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
  Ints d;
  while (u) { d.push_back((ll)(u % 10000)); u /= 10000; }
  r.push_back((ll)d.size());
  for (ll x : d) r.push_back(x);
}
static inline ll bigOf(const Ints& a, size_t& i) {  // inverse of putBig
  ll s = a[i++]; ll n = a[i++]; unsigned long long u = 0, m = 1;
  for (ll k = 0; k < n; k++) { u += m * (unsigned long long)a[i++]; m *= 10000; }
  return s < 0 ? (ll)(0ULL - u) : (ll)u;
}
static inline void putStr(Ints& r, const std::string& s) {
  for (unsigned char ch : s) r.push_back(ch);
}
static inline std::string strOf(const Ints& a, size_t from = 0) {
  std::string s;
  for (size_t i = from; i < a.size(); i++) s.push_back((char)a[i]);
  return s;
}
// fixed point: <<1, round(v*scale)>> or <<0,0>> when it is not representable
static inline void putFix(Ints& r, double v, double scale) {
  double x = v * scale;
  if (!(std::fabs(x) < 2.0e9)) { r.push_back(0); r.push_back(0); return; }
  r.push_back(1); r.push_back(std::llround(x));
}

// ---- driver ------------------------------------------------------------------
static FILE* vf_out;
static const Op* vf_cur = nullptr;
static pid_t vf_main_pid;

static void vf_ints(const char* k, const Ints& v) {
  fprintf(vf_out, ",\"%s\":[", k);
  for (size_t i = 0; i < v.size(); i++) fprintf(vf_out, i ? ",%lld" : "%lld", v[i]);
  fputc(']', vf_out);
}
static void vf_emit(const Op& o, const char* out, const Ints& r) {
  fprintf(vf_out, "{\"op\":\"%s\"", o.op.c_str());
  vf_ints("a", o.a); vf_ints("b", o.b); vf_ints("c", o.c);
  fprintf(vf_out, ",\"out\":\"%s\"", out);
  vf_ints("r", r);
  fputs("}\n", vf_out);
  fflush(vf_out);
}
static void vf_onexit(int status, void*) {
  if (vf_cur && getpid() == vf_main_pid) {
    const Op* o = vf_cur; vf_cur = nullptr;
    vf_emit(*o, status ? "error" : "exit0", Ints());
  }
}
static void vf_timer() {
  static const char* lim = getenv("VF_OP_CPU");
  struct itimerval t; memset(&t, 0, sizeof t);
  t.it_value.tv_sec = lim ? atoi(lim) : 10;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static Ints vf_parse(const std::string& s) {
  Ints v; const char* p = s.c_str(); char* e;
  for (;;) { ll x = strtoll(p, &e, 10); if (e == p) break; v.push_back(x); p = e; }
  return v;
}
static bool vf_read(FILE* f, Op& o) {
  static char* buf = nullptr; static size_t cap = 0;
  ssize_t n = getline(&buf, &cap, f);
  if (n <= 0) return false;
  std::string s(buf, n);
  while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
  std::vector<std::string> p; size_t i = 0;
  for (;;) { size_t j = s.find('|', i); p.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
  p.resize(5);
  o.op = p[0]; o.a = vf_parse(p[1]); o.b = vf_parse(p[2]); o.c = vf_parse(p[3]); o.may = p[4] == "?";
  return true;
}
// Try the call in a child. "" = it returned, otherwise the outcome.
static const char* vf_probe(const Op& o) {
  int fd[2]; if (pipe(fd)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); dup2(fd[1], 2);
    vf_timer();
    Ints r; vf_run(o, r); _exit(0);
  }
  close(fd[1]);
  char buf[4096]; ssize_t n, tot = 0;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) tot += n;
  close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGPROF ? "hang" : "crash";
  if (WEXITSTATUS(st) == 0) return "";
  if (WEXITSTATUS(st) == 99) return "crash";      // sanitizer report
  return tot > 0 ? "error" : "silent";
}
int main(int argc, char** argv) {
  // argv: script trace first-line-to-run (0 based)
  FILE* f = fopen(argv[1], "r"); vf_out = fopen(argv[2], "a");
  if (!f || !vf_out) return 98;
  long start = argc > 3 ? atol(argv[3]) : 0;
  fcntl(fileno(vf_out), F_SETFD, FD_CLOEXEC);
  vf_main_pid = getpid();
  on_exit(vf_onexit, nullptr);
  // The script is read completely first: a forked child that ends through
  // exit() would otherwise move the file offset it shares with this process.
  std::vector<Op> ops;
  { Op o; while (vf_read(f, o)) ops.push_back(o); }
  fclose(f);
  int bad = 0;
  for (size_t i = start; i < ops.size(); i++) {
    const Op& o = ops[i];
    Ints r;
    if (o.op == "reset") { vf_cur = &o; vf_timer(); vf_reset(); vf_cur = nullptr; vf_emit(o, "ok", r); continue; }
    if (o.may) {
      const char* w = vf_probe(o);
      if (*w) {
        vf_emit(o, w, r);
        if (strcmp(w, "error") && ++bad >= 2) _exit(97);   // enough to reject the trace
        continue;
      }
    }
    vf_cur = &o; vf_timer();
    vf_run(o, r);
    vf_cur = nullptr;
    vf_emit(o, "ok", r);
  }
  vf_reset();
  fclose(vf_out); vf_out = stderr;
  _exit(0);
}
#endif
