// Operators keep no state: the result of a call depends on its operands only,
// whatever was called before and whatever other threads are calling, and the
// floating-point control registers are left as they were.
// usage: drv_pure lib.so ext seed iters out.json [replay-file]
#define main drv_elem_main
#include "drv_elem.cpp"
#undef main
#include <atomic>
#include <memory>
#include <thread>
#include <xmmintrin.h>
enum { NT = 8, NC = 16, OB = 4096 };
static unsigned fpcw() { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); return cw; }
struct Out { alignas(64) u8t b[OB]; };
static void pcall(const Ent &e, const Case &c, u8t *out) {
  void *p[8]; p[0] = out; for (size_t i = 0; i < c.in.size(); i++) p[i + 1] = (void *)c.in[i].data();
  e.e.fn(p, c.q.data());
}
// fills the stack below the caller and the vector registers
static __attribute__((noinline, noclone)) void dirty(unsigned k) {
  volatile u8t b[12288]; memset((void *)b, (int)(k * 0x55), sizeof b); __asm__ volatile("" ::"r"(b) : "memory");
}
static void gcase(const Ent &e, Rng &r, Case &c) {
  gen_case(e, r, c);
  // finite, moderate arguments half of the time: they reach the kernels
  if (e.o == O_none && r.chance(1, 2)) for (auto &v : c.in) for (int i = 0; i < e.e.lanes; i++) wr(v.data(), i, ty_size(e.t), enc_double(e.t, (double)r.range(-400000, 400000) / 65536.0));
}
static std::string prep(const Ent &e, const Case &a, const Case &b) { std::string s = rep_of(e, a); for (auto &v : b.in) s += "other " + hex(v.data(), v.size()) + "\n"; s += "oq"; for (auto v : b.q) s += " " + std::to_string(v); return s + "\n"; }
struct Set { std::vector<Case> c; std::vector<Out> ref; };
static Set make(const Ent &e, u64t seed) {
  Set s; s.c.resize(NC); s.ref.resize(NC); Rng r(seed);
  for (int i = 0; i < NC; i++) { s.c[i] = blank(e); gcase(e, r, s.c[i]); }
  return s;
}
static bool first_pass(const Ent &e, Set &s) {
  for (int i = 0; i < NC; i++) {
    memset(s.ref[i].b, 0xA5, OB); unsigned m0 = _mm_getcsr() & ~0x3fu, w0 = fpcw();
    g_cur = &e; g_curcase = &s.c[i]; pcall(e, s.c[i], s.ref[i].b); g_cur = 0; g_evals++;
    unsigned m1 = _mm_getcsr() & ~0x3fu, w1 = fpcw();
    if (m0 != m1 || w0 != w1) {
      _mm_setcsr(m0 | 0x1f80 & m0); Failure f; f.key = "fpcontrol:" + key_of(e); char b[128]; snprintf(b, 128, "MXCSR control bits %#x became %#x, x87 control word %#x became %#x", m0, m1, w0, w1); f.desc = b; f.rep = prep(e, s.c[i], s.c[i]) + "# " + f.desc + "\n"; g_fail.push_back(f); _mm_setcsr(m0); return false;
    }
  }
  return true;
}
// all threads call the same operator at the same time on different operands
static std::atomic<int> g_go, g_done, g_quit; static const Ent *g_pe; static const Set *g_ps; static u64t g_rounds; static std::atomic<long> g_badcase;
static void worker(int id) {
  std::unique_ptr<Out> o(new Out); int seen = 0;
  for (;;) {
    for (int spin = 0; g_go.load(std::memory_order_acquire) == seen; spin++) { if (g_quit.load()) return; if (spin < 500) __builtin_ia32_pause(); else std::this_thread::yield(); }
    seen = g_go.load(std::memory_order_acquire); const Ent &e = *g_pe; const Set &s = *g_ps; u64t n = g_rounds; int outb = std::min<int>(OB, e.outb + 64); /* what a call may write, and a margin */
    for (u64t k = 0; k < n; k++) { int i = (int)((k * 5 + (u64t)id * 2) % NC); if (k % 64 == 0) dirty((unsigned)(k / 64 + (u64t)id)); memset(o->b, 0xA5, outb); pcall(e, s.c[i], o->b); if (memcmp(o->b, s.ref[i].b, outb)) g_badcase.store(i); }
    g_done.fetch_add(1, std::memory_order_acq_rel);
  }
}
static std::vector<std::thread> g_th;
static long race(const Ent &e, const Set &s, u64t rounds) {
  if (g_th.empty()) for (int i = 0; i < NT; i++) g_th.emplace_back(worker, i);
  g_pe = &e; g_ps = &s; g_rounds = rounds; g_badcase.store(-1); g_done.store(0); g_cur = &e; g_curcase = &s.c[0];
  g_go.fetch_add(1, std::memory_order_acq_rel); while (g_done.load(std::memory_order_acquire) < NT) std::this_thread::yield();
  g_cur = 0; g_evals += rounds * NT; return g_badcase.load();
}
static void stop() { g_quit.store(1); for (auto &t : g_th) t.join(); }
static std::string diff_at(const u8t *a, const u8t *b) { for (int i = 0; i < OB; i++) if (a[i] != b[i]) { char s[80]; snprintf(s, 80, "byte %d is %02x instead of %02x", i, b[i], a[i]); return s; } return "transient difference"; }
int main(int argc, char **argv) {
  if (argc < 6) return 2;
  g_ext = argv[2]; u64t seed = strtoull(argv[3], 0, 10), iters = strtoull(argv[4], 0, 10); g_out = argv[5];
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  std::vector<Ent> es;
  for (const char *nm : {"vp_table_cpp", "vp_table_c"}) {
    typedef const vp_entry *(*tf)(void); tf f = (tf)dlsym(h, nm); if (!f) continue;
    for (const vp_entry *e = f(); e->op; e++) {
      Ent x; x.e = *e; x.o = op_of(e->op); x.t = ty_of(e->t); x.to = ty_of(e->to); std::string n = e->op;
      if (x.o == O_none) x.sig = !n.compare(0, 3, "pow") || !n.compare(0, 5, "atan2") || !n.compare(0, 5, "hypot") || n == "fmod" || n == "remainder" ? "vvv" : "vv"; else x.sig = op_sig(x.o);
      x.nin = (int)strlen(x.sig) - 1; x.outb = std::min(4096 - 64, 4 * e->lanes * ty_size(x.t) + 64); es.push_back(x);
    }
  }
  g_outbuf = (u8t *)aligned_alloc(4096, OUTSZ); for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, on_sig);
  if (argc > 6) {
    FILE *f = fopen(argv[6], "r"); if (!f) return 2; char *line = 0; size_t cap = 0; const Ent *e = 0; Case a, b; int k = 0, k2 = 0;
    while (getline(&line, &cap, f) > 0) {
      std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
      if (!s.compare(0, 6, "entry ")) { for (auto &x : es) if (key_of(x) == s.substr(6)) e = &x; if (!e) return 4; a = b = blank(*e); }
      else if (!s.compare(0, 3, "in ") && e) { auto v = unhex(s.substr(3)); for (size_t i = 0; i < v.size() && i < a.in[k].size(); i++) a.in[k][i] = v[i]; k++; }
      else if (!s.compare(0, 6, "other ") && e) { auto v = unhex(s.substr(6)); for (size_t i = 0; i < v.size() && i < b.in[k2].size(); i++) b.in[k2][i] = v[i]; k2++; }
      else if ((!s.compare(0, 2, "q ") || !s.compare(0, 3, "oq ")) && e) { Case &d = s[0] == 'q' ? a : b; char *p = line + (s[0] == 'q' ? 1 : 2); for (size_t i = 0; i < d.q.size(); i++) d.q[i] = strtoll(p, &p, 10); }
    }
    if (!e) return 2; Set s; s.c.resize(NC); s.ref.resize(NC); for (int i = 0; i < NC; i++) s.c[i] = i % 2 ? b : a;
    bool bad = !first_pass(*e, s); Out o;
    for (int i = 0; i < NC && !bad; i++) { memset(o.b, 0xA5, OB); pcall(*e, s.c[i], o.b); bad = memcmp(o.b, s.ref[i % 2].b, OB) != 0; }
    if (!bad) bad = race(*e, s, 200000) >= 0;
    printf("replay %s: %s\n", key_of(*e).c_str(), bad ? "FAILS" : "passes"); stop(); return bad;
  }
  Rng r(seed * 77 + 5); std::vector<size_t> ord(es.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
  for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  std::vector<u64t> hs(es.size() * NC), seeds(es.size()); std::vector<char> skip(es.size());
  for (size_t x : ord) {
    const Ent &e = es[x]; set_cur(key_of(e)); seeds[x] = seed * 1000003 + hash_str(key_of(e).c_str()); Set s = make(e, seeds[x]);
    if (!first_pass(e, s)) { skip[x] = 1; continue; }
    for (int i = 0; i < NC; i++) { hs[x * NC + i] = hash_bytes(s.ref[i].b, OB, 1); g_dist.add(case_hash(e, s.c[i], hash_str(key_of(e).c_str()))); }
    if (g_samples.size() < 6 && r.chance(1, 50)) g_samples.push_back(key_of(e) + ": " + std::to_string(NC) + " operand sets, " + std::to_string(NT) + " threads x " + std::to_string(iters) + " calls, then again in another order");
    long b = race(e, s, iters);
    if (b >= 0) b = race(e, s, iters * 20) >= 0 ? b : -1; // must come back
    if (b >= 0) { Failure f; f.key = "threads:" + key_of(e); f.desc = "the result changes when other threads call the same operator"; f.rep = prep(e, s.c[b], s.c[(b + 2) % NC]) + "# " + f.desc + "\n"; g_fail.push_back(f); skip[x] = 1; }
    if (g_fail.size() > g_maxfail) break;
  }
  if (g_fail.size() <= g_maxfail) { // the same calls after another history
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    Out o;
    for (size_t x : ord) if (!skip[x]) {
      const Ent &e = es[x]; Set s = make(e, seeds[x]);
      for (int i = NC - 1; i >= 0; i--) { memset(o.b, 0xA5, OB); dirty((unsigned)i); g_cur = &e; g_curcase = &s.c[i]; pcall(e, s.c[i], o.b); g_cur = 0; g_evals++; if (hash_bytes(o.b, OB, 1) != hs[x * NC + i]) { Failure f; f.key = "history:" + key_of(e); f.desc = "the result depends on earlier calls"; f.rep = prep(e, s.c[i], s.c[(i + 1) % NC]) + "# " + f.desc + "\n"; g_fail.push_back(f); break; } }
      if (g_fail.size() > g_maxfail) break;
    }
  }
  stop(); dump(); return 0;
}
