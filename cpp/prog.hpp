// Standalone check programs: bookkeeping shared by all of them.
// usage: prog seed iters out.json [-r replay-file] [extra args]
#ifndef VP_PROG_HPP
#define VP_PROG_HPP
#include "common.hpp"
#include <csetjmp>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <unistd.h>
namespace vp {
struct Failure { std::string key, desc, rep; };
static u64t evals = 0, seed = 1, iters = 1;
static Distinct dist;
static std::vector<std::string> samples;
static std::vector<Failure> fails;
static std::string out, replay, extname;
static std::vector<std::string> args;
static std::string current; // described case, reported if the program dies
static inline void eval(u64t hash, bool nontrivial) { evals++; if (nontrivial) dist.add(hash); }
static inline void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
static inline bool failed(const std::string &key) { for (auto &f : fails) if (f.key == key) return true; return false; }
static inline void fail(const std::string &key, const std::string &desc, const std::string &rep) {
  if (failed(key) || fails.size() > 60) return;
  fails.push_back({key, desc, "prog " + extname + "\nkey " + key + "\n" + rep + "# " + desc + "\n"});
}
static inline void dump() {
  FILE *f = fopen(out.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"samples\":[", (unsigned long long)evals, (unsigned long long)dist.count);
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < fails.size(); i++) fprintf(f, "%s{\"key\":\"%s\",\"desc\":\"%s\",\"replay\":\"%s\"}", i ? "," : "", jesc(fails[i].key).c_str(), jesc(fails[i].desc).c_str(), jesc(fails[i].rep).c_str());
  fprintf(f, "]}\n"); fclose(f);
}
static void on_crash(int s) {
  char b[64]; snprintf(b, 64, "signal %d", s);
  fail("crash:" + extname, std::string(b) + " during " + current.substr(0, 400), current + "\n"); dump(); _exit(0);
}
// reads the arguments; returns the text of the replay file, if any
static inline bool init(int argc, char **argv) {
  if (argc < 5) { fprintf(stderr, "usage\n"); exit(2); }
  extname = argv[1]; seed = strtoull(argv[2], 0, 10); iters = strtoull(argv[3], 0, 10); out = argv[4];
  bool rp = false;
  for (int i = 5; i < argc; i++) {
    if (!strcmp(argv[i], "-r") && i + 1 < argc) { FILE *f = fopen(argv[++i], "r"); if (!f) exit(2); char b[4096]; size_t n; while ((n = fread(b, 1, 4096, f)) > 0) replay.append(b, n); fclose(f); rp = true; }
    else args.push_back(argv[i]);
  }
  static char stk[1 << 16]; stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
  return rp;
}
static inline std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
static inline std::string field(const std::string &name) { for (auto &l : lines(replay)) if (!l.compare(0, name.size() + 1, name + " ")) return l.substr(name.size() + 1); return ""; }
static inline std::vector<long long> nums(const std::string &s) { std::vector<long long> r; const char *p = s.c_str(); char *q; for (;;) { long long v = strtoll(p, &q, 0); if (q == p) break; r.push_back(v); p = q; } return r; }
static inline std::string num_list(const std::vector<long long> &v) { std::string s; for (auto x : v) s += " " + std::to_string(x); return s; }
static inline int finish() { // exit status of a replay: 1 if it failed
  if (replay.size()) { for (auto &f : fails) printf("replay FAILS %s: %s\n", f.key.c_str(), f.desc.c_str()); if (fails.empty()) printf("replay passes\n"); return fails.empty() ? 0 : 1; }
  dump(); return 0;
}
}
#endif
