// Contract replay harness: runs the real code from /repo against a dense / definitional oracle.
// Each test runs cases k = 0..N-1 deterministically from (seed, test name, k) in a forked child;
// crashes, sanitizer reports, hangs and escaped exceptions are failures of the current case.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#ifdef H_GCOV
extern "C" void __gcov_dump(void);
#define H_EXIT(x) (__gcov_dump(), _exit(x))
#else
#define H_EXIT(x) _exit(x)
#endif
namespace h {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) { for (int i = 0; i < 3; i++) next(); }
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
  int range(int a, int b) { return a + int(below(size_t(b - a + 1))); }   // inclusive
  bool chance(int num, int den) { return int(below(size_t(den))) < num; }
};
struct Fail : std::exception { std::string m; Fail(std::string s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } };
struct Shared { volatile uint64_t cur; volatile uint64_t done; volatile uint64_t nontriv; volatile int failed; volatile double t0; char desc[60000]; char msg[8000]; char sample[2000]; };
struct Ctx {
  uint64_t k = 0; Rng g; Shared* sh = nullptr; bool verbose = false; bool thorough = false;
  // describe the input before running the code under test
  void in(const std::string& s) { if (sh) { size_t n = std::min(s.size(), sizeof(sh->desc) - 1); memcpy(sh->desc, s.data(), n); sh->desc[n] = 0; } if (verbose) fprintf(stderr, "input: %s\n", s.c_str()); }
  void nontrivial() { if (sh) { nt = true; } }
  bool nt = false;
};
using Fn = void (*)(Ctx&);
struct Test { const char* name; size_t n; Fn f; const char* fns; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, size_t c, Fn f, const char* fns) { tests().push_back({n, c, f, fns}); } };
// TEST(name, cases, "contracts it replays")
#define TEST(NAME, N, FNS) static void NAME(h::Ctx& c); static h::Reg reg_##NAME(#NAME, N, NAME, FNS); static void NAME(h::Ctx& c)
#define CHECK(COND, MSG) do { if (!(COND)) { std::ostringstream o__; o__ << "check failed: " #COND " | " << MSG; throw h::Fail(o__.str()); } } while (0)
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline uint64_t hash(const std::string& s) { uint64_t x = 1469598103934665603ULL; for (unsigned char ch : s) { x ^= ch; x *= 1099511628211ULL; } return x; }
template <class T> std::string show(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; } o << "]"; return o.str(); }
template <class T> std::string show(const std::vector<std::vector<T>>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << show(v[i]); } o << "]"; return o.str(); }
inline std::string esc(const std::string& s) { std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o; }
inline void run_case(const Test& t, Ctx& c, uint64_t seed, uint64_t k) {
  c.k = k; c.nt = false; c.g = Rng(hash(t.name) ^ (seed * 0x9e3779b97f4a7c15ULL) ^ (k * 0xd1342543de82ef95ULL + 7));
  t.f(c);
}
// usage: prog [--seed S] [--scale F] [--time SECONDS] [--jobs N] [--test NAME [--case K]] [--out FILE] [--thorough]
inline int main_(int argc, char** argv) {
  uint64_t seed = 1; double scale = 1, budget = 120; int jobs = 8; std::string only; long long kase = -1; std::string out; bool th = false; double casetime = 25;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--time") budget = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--test") only = nx(); else if (a == "--case") kase = atoll(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--thorough") th = true; }
  auto& T = tests();
  if (kase >= 0) {
    for (auto& t : T) if (only == t.name) { Ctx c; c.verbose = true; c.thorough = th; try { run_case(t, c, seed, kase); } catch (std::exception& e) { fprintf(stderr, "FAILED %s case %lld: %s\n", t.name, kase, e.what()); return 1; } fprintf(stderr, "ok\n"); return 0; }
    return 2;
  }
  struct Run { const Test* t; uint64_t lo, hi; Shared* sh; pid_t pid; double start; uint64_t last; double lastt; int state; };
  std::vector<Run> runs;
  for (auto& t : T) if (only.empty() || only == t.name) {
    uint64_t N = uint64_t(t.n * scale); if (N < 1) N = 1;
    int parts = N >= 400 ? 4 : 1;
    for (int p = 0; p < parts; p++) { Run r; r.t = &t; r.lo = N * p / parts; r.hi = N * (p + 1) / parts; r.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)r.sh, 0, 4096); r.pid = 0; r.state = 0; runs.push_back(r); }
  }
  double T0 = now(); size_t active = 0; bool bad = false; bool capped = false;
  auto reap = [&](Run& r, int st) {
    r.state = 2; active--;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (!r.sh->failed) { r.sh->failed = 1; 
        if (WIFSIGNALED(st)) snprintf(r.sh->msg, sizeof r.sh->msg, "%s%s", r.state == 2 && r.sh->msg[0] ? r.sh->msg : "", strsignal(WTERMSIG(st)));
        else snprintf(r.sh->msg, sizeof r.sh->msg, "child exit status %d (sanitizer report / abort / assertion)", WEXITSTATUS(st)); }
      bad = true; } };
  size_t nexti = 0;
  while (nexti < runs.size() || active) {
    while (nexti < runs.size() && (int)active < jobs) {
      Run& r = runs[nexti++];
      if (now() - T0 > budget) { r.state = 3; capped = true; continue; }
      fflush(0);
      r.start = r.lastt = now(); r.last = ~0ULL;
      r.pid = fork();
      if (r.pid == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        std::string ef = out.empty() ? "/dev/null" : out + "." + r.t->name + "." + std::to_string(r.lo) + ".err"; int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) dup2(e, 2);
        Ctx c; c.sh = r.sh; c.thorough = th;
        for (uint64_t k = r.lo; k < r.hi; k++) {
          r.sh->cur = k;
          if ((k & 7) == 0 && now() - T0 > budget) { H_EXIT(0); }
          try { run_case(*r.t, c, seed, k); }
          catch (Fail& f) { snprintf(r.sh->msg, sizeof r.sh->msg, "%s", f.what()); r.sh->failed = 1; H_EXIT(1); }
          catch (std::exception& f) { snprintf(r.sh->msg, sizeof r.sh->msg, "unexpected exception: %s", f.what()); r.sh->failed = 1; H_EXIT(1); }
          if (c.nt) { r.sh->nontriv++; if (!r.sh->sample[0] && k > r.lo + 3) { strncpy(r.sh->sample, r.sh->desc, sizeof r.sh->sample - 1); } }
          r.sh->done++;
        }
        H_EXIT(0);
      }
      r.state = 1; active++;
    }
    int st; pid_t p;
    while ((p = waitpid(-1, &st, WNOHANG)) > 0) for (auto& r : runs) if (r.pid == p && r.state == 1) reap(r, st);
    for (auto& r : runs) if (r.state == 1) {
      if (r.sh->cur != r.last) { r.last = r.sh->cur; r.lastt = now(); }
      else if (now() - r.lastt > casetime) { kill(r.pid, SIGKILL); snprintf(r.sh->msg, sizeof r.sh->msg, "case did not finish in %.0f s (hang): ", casetime); waitpid(r.pid, &st, 0); r.sh->failed = 1; r.state = 2; active--; bad = true; }
    }
    usleep(3000);
  }
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"failed\": %s, \"capped\": %s, \"seconds\": %.2f, \"tests\": [", bad ? "true" : "false", capped ? "true" : "false", now() - T0);
  bool first = true;
  for (auto& t : T) { uint64_t d = 0, nt = 0; std::string sm; bool any = false; const Run* fr = nullptr;
    for (auto& r : runs) if (r.t == &t) { any = true; d += r.sh->done; nt += r.sh->nontriv; if (sm.empty()) sm = r.sh->sample; if (r.sh->failed && (!fr || r.sh->cur < fr->sh->cur)) fr = &r; }
    if (!any) continue;
    fprintf(o, "%s\n {\"name\": \"%s\", \"contracts\": \"%s\", \"done\": %llu, \"nontrivial\": %llu, \"sample\": \"%s\"", first ? "" : ",", t.name, t.fns, (unsigned long long)d, (unsigned long long)nt, esc(sm.substr(0, 600)).c_str()); first = false;
    if (fr) { fprintf(o, ", \"fail\": {\"case\": %llu, \"msg\": \"%s\", \"input\": \"%s\"", (unsigned long long)fr->sh->cur, esc(fr->sh->msg).c_str(), esc(std::string(fr->sh->desc).substr(0, 8000)).c_str());
      std::string ef = out + "." + t.name + "." + std::to_string(fr->lo) + ".err"; std::ifstream in(ef); std::string s((std::istreambuf_iterator<char>(in)), {}); if (s.size() > 3000) s.resize(3000);
      fprintf(o, ", \"stderr\": \"%s\"}", esc(s).c_str()); }
    fprintf(o, "}"); }
  fprintf(o, "\n]}\n"); if (!out.empty()) fclose(o);
  if (!out.empty()) for (auto& r : runs) { std::string ef = out + "." + r.t->name + "." + std::to_string(r.lo) + ".err"; unlink(ef.c_str()); }
  return bad ? 1 : 0;
}
}
int main(int argc, char** argv) { return h::main_(argc, argv); }
