// Memory-access driver: loads, stores, structure loads/stores, masked accesses,
// gathers and scatters, checked against the documented addressing with memory
// blocks placed against unmapped pages.
// usage: drv_mem - lib.so ext seed iters out.json [replay-file]
#include "common.hpp"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>

enum Kind { LOAD, LOADL, STORE, STOREL, MASKO, MASKZ, MSTORE, GATHER, SCATTER, GLIN, SLIN, SET1, SET1L, LEN, IOTA, TAIL };
struct Ent { vp_entry e; Kind kd; int k; bool al; Ty t; int sz, n; int regb; };
struct Case {
  int cut = 0;                  // placement of the block, see place()
  long off = 0;                 // element (or register) offset for placement 2
  std::vector<u8t> mem;         // contents of the memory block
  std::vector<std::vector<u8t>> reg; // register operands
  std::vector<u8t> mask;        // lane activity
  std::vector<long long> idx;   // indices
  long long q0 = 0, q1 = 0;
};
static std::string g_ext, g_out;
static u64t g_evals = 0; static Distinct g_dist; static std::vector<std::string> g_samples;
struct Failure { std::string key, desc, rep; };
static std::vector<Failure> g_fail;
static const size_t PG = 4096, NPG = 34, RW = NPG * PG;
static u8t *g_base; // first mapped byte
static u8t *g_snap, *g_pool;
static const size_t POOL = 1 << 20;
static sigjmp_buf g_jb; static volatile int g_injb = 0; static volatile size_t g_fault = 0;

static void on_sig(int s, siginfo_t *si, void *) {
  if (g_injb) { g_fault = (size_t)si->si_addr; siglongjmp(g_jb, s); }
  _exit(3);
}
static std::string key_of(const Ent &e) { return std::string(e.e.op) + ":" + e.e.t + ":" + g_ext + ":" + e.e.layer; }
static bool eqv(Ty t, u64t a, u64t b) { return a == b || (t == F16 && isnan_bits(t, a) && isnan_bits(t, b)); }
static int blk_elems(const Ent &e, const Case &c) {
  switch (e.kd) {
  case LOAD: case STORE: return e.k * e.n;
  case LOADL: case STOREL: case MASKO: case MASKZ: case MSTORE: return e.n;
  case GATHER: case SCATTER: case GLIN: case SLIN: return (int)(c.mem.size() / e.sz);
  default: return 0;
  }
}
// address of the first element of the block
static u8t *place(const Ent &e, const Case &c) {
  long bytes = (long)blk_elems(e, c) * e.sz; u8t *b = g_base, *en = g_base + RW;
  long unit = e.al ? e.regb : e.sz;
  switch (c.cut) {
  case 0: return en - bytes;                 // ends at the unmapped page
  case 1: return b;                          // starts after the unmapped page
  case 3: return en - c.off * unit;          // only the first off units are mapped
  case 4: return b - (bytes - c.off * unit); // only the last off units are mapped
  default: return b + 4 * PG + c.off * unit;
  }
}
static bool mapped(const u8t *p, int n) { return p >= g_base && p + n <= g_base + RW; }
// structure held by each lane of a register for structure accesses of degree
// k; the same for every register, alignment, layer, load and store
static std::map<std::pair<int, int>, std::vector<int>> g_perm;
static int lane_struct(const Ent &e, int lane) {
  auto it = g_perm.find({(int)e.t, e.k}); if (e.k == 1 || it == g_perm.end()) return lane;
  int rl = e.regb / e.sz; return lane / rl * rl + it->second[lane % rl];
}
static u64t lane_one(Ty t) { return is_float(t) ? enc_double(t, 1.0) : 1; }

// Far accesses: lanes spread over a reserved region of address space in which
// only the pages of the accessed elements are mapped.
static u8t *g_far; static const size_t FARH = (size_t)64 << 30; // half of the region
static std::string run_far(const Ent &e, const Case &c) {
  static u8t *outb = 0; if (!outb) outb = (u8t *)aligned_alloc(4096, 1 << 16);
  if (!g_far) return "";
  u8t *gb = g_far + FARH + c.q1 * e.sz; bool lin = e.kd == GLIN || e.kd == SLIN; std::vector<u8t *> a(e.n); std::map<u8t *, std::vector<u8t>> pages;
  for (int i = 0; i < e.n; i++) { a[i] = gb + (lin ? c.q0 * i : c.idx[i]) * (long long)e.sz; pages[(u8t *)((size_t)a[i] & ~(PG - 1))]; }
  for (auto &p : pages) { mprotect(p.first, PG, PROT_READ | PROT_WRITE); memset(p.first, 0x5a, PG); }
  for (int i = 0; i < e.n; i++) memcpy(a[i], &c.mem[(size_t)i * e.sz], e.sz);
  for (auto &p : pages) p.second.assign(p.first, p.first + PG);
  std::vector<u8t> ireg((size_t)e.n * e.sz), reg; if (!c.reg.empty()) reg = c.reg[0];
  if (!lin) for (int i = 0; i < e.n; i++) wr(ireg.data(), i, e.sz, (u64t)c.idx[i]);
  void *p[8] = {outb, gb, ireg.data(), reg.data()}; long long q[8] = {0, c.q0}; memset(outb, 0xC3, 4 * e.n * e.sz + 64);
  g_evals++; char b[300]; std::string res;
  int sig = sigsetjmp(g_jb, 1);
  if (sig) { g_injb = 0; snprintf(b, 300, "signal %d at base pointer %+ld bytes", sig, (long)(g_fault - (size_t)gb)); res = b; }
  else {
    g_injb = 1; e.e.fn(p, q); g_injb = 0;
    for (int i = 0; i < e.n && res.empty(); i++) {
      u64t m = 0, ex; memcpy(&m, a[i], e.sz);
      if (e.kd == SCATTER || e.kd == SLIN) { ex = rd(reg.data(), i, e.sz); memcpy(&pages[(u8t *)((size_t)a[i] & ~(PG - 1))][(size_t)a[i] & (PG - 1)], &m, e.sz); }
      else { ex = m; m = rd(outb, i, e.sz); }
      if (!eqv(e.t, m, ex)) { snprintf(b, 300, "lane %d (element %lld of the base pointer): %s, expected %s", i, lin ? c.q0 * i : c.idx[i], lane_str(e.t, m).c_str(), lane_str(e.t, ex).c_str()); res = b; }
    }
    if (res.empty()) for (auto &pg : pages) if (memcmp(pg.first, pg.second.data(), PG)) { res = "an element that is not part of the access was modified"; break; }
  }
  for (auto &pg : pages) { madvise(pg.first, PG, MADV_DONTNEED); mprotect(pg.first, PG, PROT_NONE); }
  return res;
}
static void gen_far(const Ent &e, Rng &r, Case &c) {
  c.cut = 5; c.mem.resize((size_t)e.n * e.sz); for (auto &x : c.mem) x = (u8t)r.next();
  long long lim = e.sz == 4 ? 0x7fffffffLL : (long long)(FARH / 8) - 4096; c.q1 = (long long)r.below(64);
  if (e.kd == GATHER || e.kd == SCATTER) {
    c.idx.resize(e.n); std::map<long long, int> used;
    for (int i = 0; i < e.n; i++) { long long x; do {
        switch (r.below(5)) {
        case 0: x = r.range(-300, 300); break;
        case 1: x = (1LL << r.below(e.sz == 4 ? 31 : 33)) + r.range(-40, 40); break;
        case 2: x = lim - (long long)r.below(40); break;
        default: x = (long long)(r.next() >> (e.sz == 4 ? 33 : 31)); break;
        }
        if (x > lim) x = lim; if (r.chance(1, 2)) x = -x; } while (used[x]++); c.idx[i] = x; }
  } else {
    long long ms = 0x7fffffffLL / std::max(1, e.n - 1); // all lane offsets fit an int
    long long x = r.chance(1, 3) ? ms - (long long)r.below(5) : (long long)r.below((u64t)ms) + 1; c.q0 = r.chance(1, 2) ? -x : x;
  }
  if (e.kd == SCATTER || e.kd == SLIN) { c.reg.resize(1); c.reg[0].resize((size_t)e.n * e.sz); for (auto &x : c.reg[0]) x = (u8t)r.next(); }
}
// runs the case; returns the empty string or what is wrong
static const Ent *g_ce = 0; static const Case *g_cc = 0;
static std::string run(const Ent &e, const Case &c, bool *nontriv) {
  g_ce = &e; g_cc = &c;
  if (c.cut == 5) { if (nontriv) *nontriv = true; return run_far(e, c); }
  static u8t *outb = 0; if (!outb) outb = (u8t *)aligned_alloc(4096, 1 << 16);
  u8t *blk = place(e, c); int nb = blk_elems(e, c);
  bool big = e.kd >= GATHER && e.kd <= SLIN;
  // window of the arena that is filled and compared
  u8t *w0, *w1;
  if (big) { w0 = g_base; w1 = g_base + RW; }
  else { w0 = std::max(g_base, blk - 256); w1 = std::min(g_base + RW, blk + (long)nb * e.sz + 256); if (w0 > w1) w0 = w1 = g_base; }
  size_t ph = (size_t)(hash_bytes(c.mem.data(), std::min<size_t>(c.mem.size(), 64), 77) % (POOL - RW));
  memcpy(w0, g_pool + ph, w1 - w0);
  for (int i = 0; i < nb && (size_t)(i + 1) * e.sz <= c.mem.size(); i++) if (mapped(blk + (long)i * e.sz, e.sz)) memcpy(blk + (long)i * e.sz, &c.mem[(size_t)i * e.sz], e.sz);
  memcpy(g_snap, w0, w1 - w0);
  void *p[8]; long long q[8] = {0}; std::vector<u8t> mreg, ireg; u8t *ptr = blk + c.off * 0;
  std::vector<std::vector<u8t>> regs = c.reg;
  if (e.kd == MASKO || e.kd == MASKZ || e.kd == MSTORE || e.kd == STOREL) { mreg.assign((size_t)e.n * e.sz, 0); for (int i = 0; i < e.n; i++) if (c.mask[i]) wr(mreg.data(), i, e.sz, lane_one(e.t)); }
  if (e.kd == GATHER || e.kd == SCATTER) { ireg.assign((size_t)e.n * e.sz, 0); for (int i = 0; i < e.n; i++) wr(ireg.data(), i, e.sz, (u64t)c.idx[i]); }
  u8t *gb = blk + c.q1 * e.sz; // base pointer of gathers: element q1 of the block
  p[0] = outb; memset(outb, 0xC3, 4 * e.n * e.sz + 64);
  switch (e.kd) {
  case LOAD: case LOADL: p[1] = ptr; break;
  case STORE: p[1] = ptr; for (int i = 0; i < e.k; i++) p[2 + i] = regs[i].data(); break;
  case STOREL: p[1] = ptr; p[2] = mreg.data(); break;
  case MASKO: p[1] = mreg.data(); p[2] = ptr; p[3] = regs[0].data(); break;
  case MASKZ: p[1] = mreg.data(); p[2] = ptr; break;
  case MSTORE: p[1] = mreg.data(); p[2] = ptr; p[3] = regs[0].data(); break;
  case GATHER: p[1] = gb; p[2] = ireg.data(); break;
  case SCATTER: p[1] = gb; p[2] = ireg.data(); p[3] = regs[0].data(); break;
  case GLIN: p[1] = gb; q[1] = c.q0; break;
  case SLIN: p[1] = gb; q[1] = c.q0; p[3] = regs[0].data(); break;
  case SET1: p[1] = regs[0].data(); break;
  case SET1L: q[0] = c.q0; break;
  case TAIL: q[0] = c.q0; q[1] = c.q1; break;
  default: break;
  }
  g_evals++; if (nontriv) *nontriv = true;
  int sig = sigsetjmp(g_jb, 1);
  if (sig) {
    g_injb = 0; char b[160]; snprintf(b, 160, "signal %d; fault address is block start %+ld bytes (block of %d elements of %d bytes)", sig, (long)(g_fault - (size_t)blk), nb, e.sz);
    return b;
  }
  g_injb = 1; e.e.fn(p, q); g_injb = 0;
  // expected memory and result
  char b[300];
  auto elem = [&](long i) { u64t v = 0; u8t *a = blk + i * e.sz; if (a >= w0 && a + e.sz <= w1) memcpy(&v, g_snap + (a - w0), e.sz); return v; };
  auto chk = [&](int i, u64t ex, const char *what) -> bool {
    u64t g = rd(outb, i, e.sz); if (eqv(e.t, g, ex)) return true;
    snprintf(b, 300, "%s %d = %s, expected %s", what, i, lane_str(e.t, g).c_str(), lane_str(e.t, ex).c_str()); return false;
  };
  std::map<long, u64t> st; // expected stores: element -> value
  switch (e.kd) {
  case LOAD: for (int r = 0; r < e.k; r++) for (int i = 0; i < e.n; i++) if (!chk(r * e.n + i, elem((long)e.k * lane_struct(e, i) + r), "register*len+lane")) return b; break;
  case LOADL: for (int i = 0; i < e.n; i++) if (!chk(i, iszero_bits(e.t, elem(i)) ? 0 : lane_one(e.t), "lane")) return b; break;
  case STORE: for (int r = 0; r < e.k; r++) for (int i = 0; i < e.n; i++) st[(long)e.k * lane_struct(e, i) + r] = rd(regs[r].data(), i, e.sz); break;
  case STOREL: for (int i = 0; i < e.n; i++) st[i] = c.mask[i] ? lane_one(e.t) : 0; break;
  case MASKO: for (int i = 0; i < e.n; i++) if (!chk(i, c.mask[i] ? elem(i) : rd(regs[0].data(), i, e.sz), "lane")) return b; break;
  case MASKZ: for (int i = 0; i < e.n; i++) if (!chk(i, c.mask[i] ? elem(i) : 0, "lane")) return b; break;
  case MSTORE: for (int i = 0; i < e.n; i++) if (c.mask[i]) st[i] = rd(regs[0].data(), i, e.sz); break;
  case GATHER: for (int i = 0; i < e.n; i++) if (!chk(i, elem(c.q1 + c.idx[i]), "lane")) return b; break;
  case GLIN: for (int i = 0; i < e.n; i++) if (!chk(i, elem(c.q1 + c.q0 * i), "lane")) return b; break;
  case SCATTER: for (int i = 0; i < e.n; i++) st[c.q1 + c.idx[i]] = rd(regs[0].data(), i, e.sz); break;
  case SLIN: for (int i = 0; i < e.n; i++) st[c.q1 + c.q0 * i] = rd(regs[0].data(), i, e.sz); break;
  case SET1: for (int i = 0; i < e.n; i++) if (!chk(i, rd(regs[0].data(), 0, e.sz), "lane")) return b; break;
  case SET1L: for (int i = 0; i < e.n; i++) if (!chk(i, c.q0 ? lane_one(e.t) : 0, "lane")) return b; break;
  case LEN: { int v; memcpy(&v, outb, 4); if (v != e.n) { snprintf(b, 300, "len = %d, expected %d", v, e.n); return b; } break; }
  case IOTA: for (int i = 0; i < e.n; i++) if (!chk(i, is_float(e.t) ? enc_double(e.t, i) : ((u64t)i & ty_mask(e.t)), "lane")) return b; break;
  case TAIL: for (int i = 0; i < e.n; i++) if (!chk(i, (long long)c.q0 + i < (long long)c.q1 ? lane_one(e.t) : 0, "lane")) return b; break;
  }
  for (auto &s : st) {
    u8t *a = blk + s.first * e.sz; u64t g = 0; memcpy(&g, a, e.sz);
    if (!eqv(e.t, g, s.second)) { snprintf(b, 300, "stored element %ld = %s, expected %s", s.first, lane_str(e.t, g).c_str(), lane_str(e.t, s.second).c_str()); return b; }
    memcpy(g_snap + (a - w0), &g, e.sz);
  }
  if (memcmp(g_snap, w0, w1 - w0)) {
    long i = 0; while (g_snap[i] == w0[i]) i++;
    snprintf(b, 300, "byte at block start %+ld was modified but is not part of the access", (long)(w0 + i - blk)); return b;
  }
  return "";
}
static void gen_reg(Rng &r, const Ent &e, std::vector<u8t> &v) {
  v.assign((size_t)e.n * e.sz, 0); int m = (int)r.below(4);
  for (int i = 0; i < e.n; i++) wr(v.data(), i, e.sz, m == 0 ? (u64t)(i + 1) : m == 1 ? r.next() : gen_val(r, e.t));
}
static void gen_elems(Rng &r, const Ent &e, std::vector<u8t> &v, int n) {
  v.assign((size_t)n * e.sz, 0); int m = (int)r.below(4);
  for (int i = 0; i < n; i++) wr(v.data(), i, e.sz, m == 0 ? (u64t)(i + 1) : m == 1 ? r.next() : gen_val(r, e.t));
}
static void gen(const Ent &e, Rng &r, Case &c) {
  c = Case(); int nb = blk_elems(e, c); bool masked = e.kd == MASKO || e.kd == MASKZ || e.kd == MSTORE;
  c.cut = (int)r.below(3); c.off = c.cut == 2 ? (long)r.below(e.al ? 16 : 200) : 0;
  if (e.kd <= MSTORE) gen_elems(r, e, c.mem, nb);
  if (e.kd == LOADL) for (int i = 0; i < nb; i++) {
    u64t v = r.chance(1, 3) ? 0 : r.chance(1, 3) ? lane_one(e.t) : gen_val(r, e.t);
    if (is_float(e.t) && r.chance(1, 6)) v = (ty_mask(e.t) >> 1) + 1; // -0.0 is zero
    if (isnan_bits(e.t, v)) v = lane_one(e.t);
    wr(c.mem.data(), i, e.sz, v);
  }
  if (e.kd == STORE) { c.reg.resize(e.k); for (auto &v : c.reg) gen_reg(r, e, v); }
  if (masked || e.kd == STOREL) {
    c.mask.assign(e.n, 0); int d = (int)r.below(7), sp = (int)r.below(e.n);
    for (int i = 0; i < e.n; i++) c.mask[i] = d == 0 ? 0 : d == 1 ? 1 : d == 2 ? i == sp : d == 3 ? i != sp : d == 4 ? i < sp : r.chance(1, 2);
    if (masked) {
      c.reg.resize(1); gen_reg(r, e, c.reg[0]);
      if (r.chance(2, 3)) { // part of the block is unmapped and inactive
        int unit = e.al ? e.regb / e.sz : 1; c.cut = 3 + (int)r.below(2); c.off = (long)r.below(nb / unit + 1);
        for (int i = 0; i < e.n; i++) { bool un = c.cut == 3 ? i >= c.off * unit : i < e.n - c.off * unit; if (un) c.mask[i] = 0; }
      }
    }
  }
  if (e.kd >= GATHER && e.kd <= SLIN && e.sz >= 4 && g_far && r.chance(1, 6)) { gen_far(e, r, c); return; }
  if (e.kd >= GATHER && e.kd <= SLIN) {
    int cap = (int)(RW / e.sz); c.cut = (int)r.below(2);
    long span; // number of elements of the block
    if (e.kd == GATHER || e.kd == SCATTER) {
      long mx = e.sz == 2 ? std::min(cap, 32768) : cap; span = r.chance(1, 3) ? mx : e.n + (long)r.below(std::min<long>(mx - e.n, 200)); if (span > mx) span = mx;
      long lo = e.sz == 2 && span > 32767 ? 1 : 0; c.q1 = r.chance(1, 3) ? 0 : lo + (long)r.below(span - lo);
      c.idx.resize(e.n); std::vector<char> used; 
      for (int i = 0; i < e.n; i++) {
        long x; int tries = 0;
        do { x = r.chance(1, 6) ? (r.chance(1, 2) ? 0 : span - 1) : r.chance(1, 3) && i ? c.idx[i - 1] + c.q1 + 1 : (long)r.below(span); if (x >= span) x = 0; if (x < 0) x = span - 1; if (++tries > 50) { x = (long)r.below(span); }
          bool dup = false; if (e.kd == SCATTER) for (int j = 0; j < i; j++) if (c.idx[j] + c.q1 == x) dup = true; if (!dup) break; } while (1);
        c.idx[i] = x - c.q1;
      }
    } else {
      long ms = e.n > 1 ? (cap - 1) / (e.n - 1) : 100; long step = r.chance(1, 3) ? (long)r.range(-4, 4) : r.chance(1, 4) ? (r.chance(1, 2) ? ms : -ms) : (long)r.range(-ms, ms);
      if (e.kd == SLIN && !step) step = 1;
      if (e.sz == 2 && e.kd >= 0) { long lim = 32767 / std::max(1, e.n - 1); if (step > lim) step = lim; if (step < -lim) step = -lim; }
      if (e.sz == 1) { long lim = 127; if (step > lim) step = lim; if (step < -lim) step = -lim; }
      c.q0 = step; span = labs(step) * (e.n - 1) + 1; c.q1 = step < 0 ? span - 1 : 0;
    }
    c.mem.resize((size_t)span * e.sz); size_t o = r.below(POOL - RW); memcpy(c.mem.data(), g_pool + o, c.mem.size());
    if (e.kd == SCATTER || e.kd == SLIN) { c.reg.resize(1); gen_reg(r, e, c.reg[0]); }
  }
  if (e.kd == SET1) { c.reg.resize(1); c.reg[0].assign(8, 0); wr(c.reg[0].data(), 0, e.sz, gen_val(r, e.t)); }
  if (e.kd == SET1L) c.q0 = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 1 : (int)gen_int(r, I32);
  if (e.kd == TAIL) {
    switch (r.below(5)) {
    case 0: c.q0 = r.below(1000); c.q1 = c.q0 + r.range(-3, e.n + 3); if (c.q1 < 0) c.q1 = 0; break;
    case 1: c.q1 = r.below(1u << 31); c.q0 = c.q1 - r.range(0, 2 * e.n); if (c.q0 < 0) c.q0 = 0; break;
    case 2: c.q0 = r.below(1u << 31); c.q1 = r.below(1u << 31); break;
    case 3: c.q0 = 0; c.q1 = r.below(300); break;
    default: c.q1 = 0x7fffffff - (long)r.below(3); c.q0 = c.q1 - (long)r.below(2 * e.n + 2); break;
    }
    // a loop stepping by the pack length must not overflow its own int index
    if (c.q0 > 0x7fffffffLL - e.n) c.q0 = 0x7fffffffLL - e.n;
  }
}
static std::string rep_of(const Ent &e, const Case &c) {
  std::string s = "entry " + key_of(e) + "\nplace " + std::to_string(c.cut) + " " + std::to_string(c.off) + "\nq " + std::to_string(c.q0) + " " + std::to_string(c.q1) + "\n";
  s += "mem " + hex(c.mem.data(), c.mem.size()) + "\n"; for (auto &v : c.reg) s += "reg " + hex(v.data(), v.size()) + "\n";
  s += "mask " + hex(c.mask.data(), c.mask.size()) + "\nidx"; for (auto v : c.idx) s += " " + std::to_string(v); return s + "\n";
}
static void shrink(const Ent &e, Case &c) {
  auto bad = [&](const Case &d) { return !run(e, d, 0).empty(); };
  int budget = 4000;
  for (auto *v : {&c.mem}) if (v->size() <= 4096) for (size_t i = 0; i < v->size() && budget > 0; i += e.sz) { auto keep = *v; bool z = true; for (int k = 0; k < e.sz; k++) { z &= (*v)[i + k] == 0; (*v)[i + k] = 0; } if (z) continue; budget--; if (!bad(c)) *v = keep; }
  for (auto &v : c.reg) for (size_t i = 0; i + e.sz <= v.size() && budget > 0; i += e.sz) { auto keep = v; bool z = true; for (int k = 0; k < e.sz; k++) { z &= v[i + k] == 0; v[i + k] = 0; } if (z) continue; budget--; if (!bad(c)) v = keep; }
  for (size_t i = 0; i < c.mask.size() && budget > 0; i++) if (c.mask[i]) { c.mask[i] = 0; budget--; if (!bad(c)) c.mask[i] = 1; }
  if (e.kd == GATHER) for (size_t i = 0; i < c.idx.size(); i++) { long long k = c.idx[i]; c.idx[i] = 0; if (!bad(c)) c.idx[i] = k; }
}
static void dump() {
  FILE *f = fopen(g_out.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"samples\":[", (unsigned long long)g_evals, (unsigned long long)g_dist.count);
  for (size_t i = 0; i < g_samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_samples[i]).c_str());
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < g_fail.size(); i++) fprintf(f, "%s{\"key\":\"%s\",\"desc\":\"%s\",\"replay\":\"%s\"}", i ? "," : "", jesc(g_fail[i].key).c_str(), jesc(g_fail[i].desc).c_str(), jesc(g_fail[i].rep).c_str());
  fprintf(f, "]}\n"); fclose(f);
}
#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_set_death_callback(void (*)(void));
static void on_asan() {
  static bool once = false; if (once) return; once = true;
  if (g_ce && g_cc) { Failure f; f.key = "asan:" + key_of(*g_ce); f.desc = "AddressSanitizer: the operator accesses memory it does not own"; f.rep = rep_of(*g_ce, *g_cc) + "# " + f.desc + "\n"; g_fail.push_back(f); }
  dump(); _exit(1);
}
#endif
static bool classify(const char *op, Ent &x) {
  std::string s = op; x.k = 1; x.al = false;
  auto tail = [&](const char *pre, Kind kd, int k) { std::string p = pre; if (s == p + "u" || s == p + "a") { x.kd = kd; x.k = k; x.al = s.back() == 'a'; return true; } return false; };
  if (tail("load", LOAD, 1) || tail("load2", LOAD, 2) || tail("load3", LOAD, 3) || tail("load4", LOAD, 4) || tail("loadl", LOADL, 1)) return true;
  if (tail("store", STORE, 1) || tail("store2", STORE, 2) || tail("store3", STORE, 3) || tail("store4", STORE, 4) || tail("storel", STOREL, 1)) return true;
  struct { const char *n; Kind k; bool a; } T[] = {{"masko_loadu1", MASKO, 0}, {"masko_loada1", MASKO, 1}, {"maskz_loadu1", MASKZ, 0}, {"maskz_loada1", MASKZ, 1}, {"mask_storeu1", MSTORE, 0}, {"mask_storea1", MSTORE, 1}, {"gather", GATHER, 0}, {"scatter", SCATTER, 0}, {"gather_linear", GLIN, 0}, {"scatter_linear", SLIN, 0}, {"set1", SET1, 0}, {"set1l", SET1L, 0}, {"len", LEN, 0}, {"iota", IOTA, 0}, {"mask_for_loop_tail", TAIL, 0}};
  for (auto &t : T) if (s == t.n) { x.kd = t.k; x.al = t.a; return true; }
  return false;
}
int main(int argc, char **argv) {
  if (argc < 7) return 2;
#ifdef __SANITIZE_ADDRESS__
  __asan_set_death_callback(on_asan);
#endif
  g_ext = argv[3]; u64t seed = strtoull(argv[4], 0, 10), iters = strtoull(argv[5], 0, 10); g_out = argv[6];
  void *h = dlopen(argv[2], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  u8t *m = (u8t *)mmap(0, RW + 128 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return 2;
  g_base = m + 64 * PG; if (mprotect(g_base, RW, PROT_READ | PROT_WRITE)) return 2;
  g_far = (u8t *)mmap(0, 2 * FARH, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_far == MAP_FAILED) g_far = 0;
  g_snap = (u8t *)malloc(RW); g_pool = (u8t *)malloc(POOL); { Rng r(seed + 5); for (size_t i = 0; i < POOL; i += 8) { u64t v = r.next(); memcpy(g_pool + i, &v, 8); } }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
  std::vector<Ent> es;
  for (const char *nm : {"vp_table_cpp", "vp_table_c"}) {
    typedef const vp_entry *(*tf)(void); tf f = (tf)dlsym(h, nm); if (!f) continue;
    for (const vp_entry *e = f(); e->op; e++) { Ent x; x.e = *e; if (!classify(e->op, x)) { fprintf(stderr, "op %s\n", e->op); return 2; } x.t = ty_of(e->t); x.sz = ty_size(x.t); x.n = e->lanes; x.regb = e->reglanes * x.sz; es.push_back(x); }
  }
  // The lane order of the structure accesses of degree 2 and 4 on AVX and
  // AVX-512 is not specified: learn it from the unaligned C load.
  if (g_ext.find("avx") == 0)
    for (auto &e : es) if (e.kd == LOAD && (e.k == 2 || e.k == 4) && !e.al && !strcmp(e.e.layer, "c")) {
      static u8t *ob = (u8t *)aligned_alloc(4096, 1 << 16); u8t *blk = g_base + 4 * PG;
      for (int i = 0; i < e.k * e.n; i++) wr(blk, i, e.sz, (u64t)i); // f16: subnormals and small values, exact
      void *p[8] = {ob, blk}; long long q[8] = {0}; e.e.fn(p, q);
      std::vector<int> pi(e.n), seen(e.n); bool ok = true;
      for (int j = 0; j < e.n; j++) { long v = (long)rd(ob, j, e.sz); if (v % e.k || v / e.k >= e.n || seen[v / e.k]++) { ok = false; break; } pi[j] = (int)(v / e.k); }
      if (ok) g_perm[{(int)e.t, e.k}] = pi;
    }
  if (argc > 7) {
    FILE *f = fopen(argv[7], "r"); if (!f) return 2; char *line = 0; size_t cap = 0; const Ent *e = 0; Case c;
    while (getline(&line, &cap, f) > 0) {
      std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
      if (!s.compare(0, 6, "entry ")) { for (auto &x : es) if (key_of(x) == s.substr(6)) e = &x; if (!e) return 4; }
      else if (!s.compare(0, 6, "place ")) sscanf(line, "place %d %ld", &c.cut, &c.off);
      else if (!s.compare(0, 2, "q ")) sscanf(line, "q %lld %lld", &c.q0, &c.q1);
      else if (!s.compare(0, 4, "mem ")) c.mem = unhex(s.substr(4));
      else if (!s.compare(0, 4, "reg ")) c.reg.push_back(unhex(s.substr(4)));
      else if (!s.compare(0, 5, "mask ")) c.mask = unhex(s.substr(5));
      else if (!s.compare(0, 4, "idx ")) { char *p = line + 4, *q; for (;;) { long long v = strtoll(p, &q, 10); if (q == p) break; c.idx.push_back(v); p = q; } }
    }
    if (!e) return 2; std::string w = run(*e, c, 0); printf("replay %s: %s %s\n", key_of(*e).c_str(), w.empty() ? "passes" : "FAILS", w.c_str()); return w.empty() ? 0 : 1;
  }
  size_t maxfail = getenv("VP_MAXV") ? 5000 : 30;
  for (auto &e : es) {
    std::string key = key_of(e); set_cur(key); u64t kh = hash_str(key.c_str()); Rng r(seed * 1000003 + kh);
    u64t n = iters * (!strcmp(e.e.layer, "c") ? 4 : 1); if (e.kd >= GATHER && e.kd <= SLIN) n = n / 6 + 1; if (e.kd == LEN || e.kd == IOTA) n = 3;
    for (u64t i = 0; i < n; i++) {
      Case c; gen(e, r, c); bool nt = false; std::string w = run(e, c, &nt);
      bool triv = (e.kd == MASKO || e.kd == MASKZ || e.kd == MSTORE) && std::find(c.mask.begin(), c.mask.end(), 1) == c.mask.end();
      if (nt && !triv) { u64t hh = kh ^ (u64t)(c.cut * 131 + c.off) ^ ((u64t)c.q0 << 20) ^ ((u64t)c.q1 << 3); hh = hash_bytes(c.mem.data(), std::min<size_t>(c.mem.size(), 2048), hh); for (auto &v : c.reg) hh = hash_bytes(v.data(), v.size(), hh); hh = hash_bytes(c.mask.data(), c.mask.size(), hh); hh = hash_bytes(c.idx.data(), c.idx.size() * 8, hh); g_dist.add(hh); }
      if (!w.empty()) {
        if (run(e, c, 0).empty() || run(e, c, 0).empty()) continue;
        shrink(e, c); w = run(e, c, 0); Failure f; f.key = key; f.desc = w; f.rep = rep_of(e, c) + "# " + w + "\n"; g_fail.push_back(f); break;
      }
      if (i == 5 && g_samples.size() < 6 && r.chance(1, 6)) g_samples.push_back(key + " placement " + std::to_string(c.cut) + " offset " + std::to_string(c.off) + (c.idx.empty() ? "" : " idx0 " + std::to_string(c.idx[0])) + " block of " + std::to_string(blk_elems(e, c)) + " elements");
    }
    if (g_fail.size() > maxfail) break;
  }
  dump(); return 0;
}
