// Generated SPMD kernels against the same program run element by element.
#ifndef VP_C22_HPP
#define VP_C22_HPP
#include "prog.hpp"
#include "oracle.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/spmd.hpp>
#include <sys/mman.h>
#include <sys/time.h>
namespace c22 {
struct Arr { int k; Ty t; };
static const int NA = 9;
struct Mem {
  unsigned char *p[NA]; std::vector<u64t> m[NA]; // real memory and model
  u64t ld(Arr a, int i) const { return m[a.k][i]; }
  void st(Arr a, int i, u64t v) { m[a.k][i] = v & ty_mask(a.t); }
};
static inline u64t rop(Op o, Ty t, u64t a, u64t b = 0, u64t c = 0, int p = 0) { return lane(o, t, t, a, b, c, p, 0).exp & ty_mask(t); }
template <typename T> static inline u64t bitsof(T v) { u64t r = 0; memcpy(&r, &v, sizeof v); return r; }
struct Ker { const char *name, *text; int bits, arrays, len; void (*run)(Mem &, int); void (*ref)(Mem &, int); };
struct Case { int n; std::vector<u64t> d[NA]; };
static Ty aty(const Ker &k, int j) { Ty i = k.bits == 8 ? I8 : k.bits == 16 ? I16 : k.bits == 32 ? I32 : I64; Ty u = k.bits == 8 ? U8 : k.bits == 16 ? U16 : k.bits == 32 ? U32 : U64; return j < 3 ? i : j < 6 ? u : k.bits == 32 ? F32 : F64; }
struct Guard { unsigned char *m; size_t cap; Guard() : cap(8192) { m = (unsigned char *)mmap(0, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + cap, 4096, PROT_NONE); } unsigned char *beg() { return m + 4096; } unsigned char *end(size_t b) { return m + 4096 + cap - b; } };
static Guard *G[NA];
static std::string check(const Ker &k, const Case &c) {
  Mem M; int s = k.bits / 8;
  for (int j = 0; j < k.arrays; j++) { if (!G[j]) G[j] = new Guard; memset(G[j]->beg(), 0xa7, G[j]->cap); M.p[j] = G[j]->end((size_t)s * c.n); M.m[j] = c.d[j]; for (int i = 0; i < c.n; i++) wr(M.p[j], i, s, c.d[j][i]); }
  k.run(M, c.n); k.ref(M, c.n);
  static const char *nm[NA] = {"ai0", "ai1", "di", "au0", "au1", "du", "af0", "af1", "df"};
  for (int j = 0; j < k.arrays; j++) {
    Ty t = aty(k, j);
    for (unsigned char *q = G[j]->beg(); q < M.p[j]; q++) if (*q != 0xa7) return std::string("wrote before the start of ") + nm[j];
    for (int i = 0; i < c.n; i++) { u64t got = rd(M.p[j], i, s), e = M.m[j][i]; bool ok = is_float(t) ? feqz(t, got, e) : got == e; if (!ok) return std::string(nm[j]) + "[" + std::to_string(i) + "] of " + std::to_string(c.n) + ": got " + lane_str(t, got) + ", expected " + lane_str(t, e); }
  }
  return "";
}
static sigjmp_buf g_jb; static bool g_jmp = false;
static void on_sig(int s) { if (g_jmp) siglongjmp(g_jb, s); vp::on_crash(s); }
static void timer(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, 0); }
static bool g_hang = false;
static std::string safe(const Ker &k, const Case &c) {
  std::string w; g_jmp = true; timer(g_hang ? 1 : 8); int s = sigsetjmp(g_jb, 1);
  if (s == 0) w = check(k, c); else if (s == SIGVTALRM) { w = "the kernel does not end"; g_hang = true; } else { char b[60]; snprintf(b, 60, "signal %d in the kernel", s); w = b; }
  timer(0); g_jmp = false; return w;
}
static u64t gen(Rng &r, Ty t) {
  if (is_float(t)) return r.chance(1, 2) ? enc_double(t, (double)r.below(17) - 8) : enc_double(t, ((double)r.below(4001) - 2000) / 8);
  if (r.chance(1, 2)) return (u64t)((i64t)r.below(16) - (is_signed(t) ? 8 : 0)) & ty_mask(t);
  return gen_int(r, t);
}
static Case make(Rng &r, const Ker &k) {
  Case c; int L = k.len; switch (r.below(6)) { case 0: c.n = (int)r.below(3); break; case 1: case 2: c.n = L * (int)(1 + r.below(2)) + (int)r.below(3) - 1; break; default: c.n = (int)r.below(3 * L + 3); }
  if (c.n < 0) c.n = 0; bool uni = r.chance(1, 8); // all elements alike
  for (int j = 0; j < NA; j++) { c.d[j].resize(c.n); for (int i = 0; i < c.n; i++) c.d[j][i] = j >= k.arrays ? 0 : uni && i ? c.d[j][0] : gen(r, aty(k, j)); }
  return c;
}
static Case shrink(const Ker &k, Case c) {
  int budget = 600; auto bad = [&](const Case &q) { if (g_hang && budget > 10) budget = 10; if (budget-- <= 0) return false; return !safe(k, q).empty(); };
  for (bool again = true; again && budget > 0;) { again = false; for (int i = c.n - 1; i >= 0; i--) { Case t = c; t.n--; for (int j = 0; j < NA; j++) t.d[j].erase(t.d[j].begin() + i); if (bad(t)) { c = t; again = true; } } if (g_hang && budget > 10) budget = 10; }
  for (int j = 0; j < k.arrays; j++) for (int i = 0; i < c.n; i++) if (c.d[j][i]) { Case t = c; t.d[j][i] = 0; if (bad(t)) c = t; }
  return c;
}
static std::string text(const Ker &k, const Case &c) { std::string s = std::string("kernel ") + k.name + "\nn " + std::to_string(c.n) + "\n"; for (int j = 0; j < k.arrays; j++) { s += "data" + std::to_string(j); char b[24]; for (auto x : c.d[j]) { snprintf(b, 24, " %llx", (unsigned long long)x); s += b; } s += "\n"; } s += "# "; for (const char *p = k.text; *p; p++) { s += *p; if (*p == '\n') s += "# "; } return s + "\n"; }
static std::vector<Ker> &table() { static std::vector<Ker> t; return t; }
static int main_(int argc, char **argv, const char *gseed) {
  bool rp = vp::init(argc, argv); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, 0); }
  for (auto &k : table()) {
    if (rp) {
      if (vp::field("kernel") != k.name) continue; Case c; c.n = atoi(vp::field("n").c_str());
      for (int j = 0; j < NA; j++) { std::string f = vp::field("data" + std::to_string(j)); const char *p = f.c_str(); char *q; for (;;) { u64t v = strtoull(p, &q, 16); if (q == p) break; c.d[j].push_back(v); p = q; } c.d[j].resize(c.n); }
      std::string w = safe(k, c); if (!w.empty()) vp::fail(k.name, w, ""); continue;
    }
    Rng r(vp::seed * 7919 + hash_str(k.name)); if (vp::samples.size() < 2) vp::sample(std::string(k.text).substr(0, 600)); g_hang = false;
    for (u64t it = 0; it < vp::iters; it++) {
      Case c = make(r, k); u64t h = hash_str(k.text); for (int j = 0; j < k.arrays; j++) if (c.n) h = hash_bytes(c.d[j].data(), 8 * c.n, h);
      vp::eval(h, c.n > 0); vp::current = std::string("kernel ") + k.name; std::string w = safe(k, c);
      if (!w.empty()) { c = shrink(k, c); w = safe(k, c); vp::fail(k.name, std::string(k.name) + ": " + w, std::string("gseed ") + gseed + "\n" + text(k, c)); if (g_hang) return vp::finish(); break; }
    }
  }
  return vp::finish();
}
}
#endif
