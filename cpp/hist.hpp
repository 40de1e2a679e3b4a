// Histories of operations run in child processes, with shrinking.
#ifndef VP_HIST_HPP
#define VP_HIST_HPP
#include "prog.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
namespace vp {
struct Op { int k; long long a, b, c; };
typedef std::vector<Op> Hist;
struct Shared { volatile int step; char msg[512]; };
static Shared *g_sh = 0;
static std::string show(const Hist &h) { std::string s; for (auto &o : h) s += "op " + std::to_string(o.k) + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + std::to_string(o.c) + "\n"; return s; }
// body(h, step) returns "" or what is wrong; called in a child process
typedef std::function<std::string(const Hist &, volatile int *)> Body;
static bool g_hung = false;
static std::string run_child(const Body &body, const Hist &h) {
  int tmo = g_hung ? 2 : 60;
  if (!g_sh) g_sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_sh->step = -1; g_sh->msg[0] = 0; fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
    if (!freopen("/dev/null", "w", stderr)) _exit(3);
    alarm(tmo); std::string w = body(h, &g_sh->step);
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", w.c_str()); _exit(w.empty() ? 0 : 1);
  }
  int st; while (waitpid(p, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  std::string at = " at operation " + std::to_string(g_sh->step);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && g_sh->msg[0]) return g_sh->msg + at;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) g_hung = true;
  if (WIFSIGNALED(st)) return "killed by signal " + std::to_string(WTERMSIG(st)) + at;
  return "exit status " + std::to_string(WEXITSTATUS(st)) + at;
}
static Hist shrink_hist(const Body &body, Hist h) {
  int budget = g_hung ? 20 : 400; bool again = true;
  for (size_t ch = h.size() / 2; ch >= 1 && budget > 0; ch = again ? ch : ch / 2) {
    again = false;
    for (size_t i = 0; i + ch <= h.size() && budget > 0;) { Hist t = h; t.erase(t.begin() + i, t.begin() + i + ch); budget--; if (!run_child(body, t).empty()) { h = t; again = true; } else i += ch; }
    if (ch == 1 && !again) break;
  }
  for (auto &o : h) for (long long *f : {&o.b, &o.c}) for (int k = 0; k < 12 && *f > 1 && budget-- > 0; k++) { long long old = *f; *f /= 2; if (run_child(body, h).empty()) { *f = old; break; } }
  return h;
}
static Hist parse_hist() { Hist h; for (auto &l : lines(replay)) if (!l.compare(0, 3, "op ")) { auto v = nums(l.substr(3)); if (v.size() == 4) h.push_back({(int)v[0], v[1], v[2], v[3]}); } return h; }
}
#endif
