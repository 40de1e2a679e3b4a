// Generated tet1d expressions against an element-by-element reference.
#ifndef VP_C21_HPP
#define VP_C21_HPP
#include "prog.hpp"
#include "oracle.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/tet1d.hpp>
#include <sys/mman.h>
namespace c21 {
using vp::fail;
template <typename T> struct tyid;
#define X(c, t) template <> struct tyid<c> { static const Ty v = t; };
X(i8, I8) X(i16, I16) X(i32, I32) X(i64, I64) X(u8, U8) X(u16, U16) X(u32, U32) X(u64, U64) X(f16, F16) X(f32, F32) X(f64, F64)
#undef X
static const int NL = 4; // leaves: 3 of the main type, 1 of another type
struct Case { int n; Ty t, u; int mode[NL], pre[NL], post[NL]; std::vector<u64t> bits[NL]; std::vector<u64t> old; };
struct RV { u64t v; bool ok; };
// memory ending (or starting) at a guard page
struct Guard {
  unsigned char *m; size_t cap;
  Guard() : cap(4096) { m = (unsigned char *)mmap(0, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + cap, 4096, PROT_NONE); }
  unsigned char *end(size_t b) { return m + 4096 + cap - b; }
  unsigned char *beg() { return m + 4096; }
};
struct Env {
  const Case *c; unsigned char *p[NL]; // start of the whole leaf
  template <typename T> TET1D_IN(T) leaf(int k) const {
    const T *d = (const T *)p[k]; int n = c->n, a = c->pre[k], b = c->post[k], s = n + a + b; 
    if (n < 1 || c->mode[k] == 0) return tet1d::in(d + a, n);
    TET1D_IN(T) x = tet1d::in(d, s);
    switch (c->mode[k]) {
    case 1: return x(a, a + n - 1);
    case 2: return x(a - s, a + n - 1 - s);
    case 3: return x(a, tet1d::end - b);
    case 4: { int h = a / 2; return x(h, tet1d::end)(a - h, a - h + n - 1); }
    default: return x((unsigned char)a, (long)(a + n - 1));
    }
  }
  RV ref(int k, int i) const { RV r; r.v = c->bits[k][i]; r.ok = true; return r; }
};
static inline RV bad() { RV r; r.v = 0; r.ok = false; return r; }
static inline RV val(u64t v) { RV r; r.v = v; r.ok = true; return r; }
static inline RV lit(Ty t, double d) { return val(is_float(t) ? enc_double(t, d) : (u64t)(i64t)d & ty_mask(t)); }
static inline bool nanv(Ty t, u64t v) { return is_float(t) && isnan_bits(t, v); }
static inline bool f16_exact(Op o, u64t a, u64t b, u64t c, u64t e) {
  double x = h2d(a), y = h2d(b), z = h2d(c), r;
  switch (o) { case O_add: case O_adds: r = x + y; break; case O_sub: case O_subs: r = x - y; break; case O_mul: r = x * y; break;
  case O_fma: r = x * y + z; break; case O_fms: r = x * y - z; break; case O_fnma: r = -x * y + z; break; case O_fnms: r = -x * y - z; break;
  case O_div: return y != 0 && h2d(e) * y == x; case O_sqrt: return h2d(e) * h2d(e) == x; default: return true; }
  return r == h2d(e);
}
// value of an inner operation; not ok where the result is not unique
static inline RV op(Op o, Ty t, Ty to, RV a, RV b, RV c, int p) {
  if (!a.ok || !b.ok || !c.ok) return bad();
  u64t M = ty_mask(t);
  if (is_float(t)) {
    bool nan = nanv(t, a.v) || nanv(t, b.v) || nanv(t, c.v);
    switch (o) {
    case O_min: case O_max: if (nan || fval(t, a.v) == fval(t, b.v)) return bad(); break;
    case O_orb: case O_andb: case O_xorb: case O_andnotb: case O_notb: case O_reinterpret: case O_cvt: if (nan) return bad(); break;
    case O_neg: case O_abs: if (nan) return bad(); break;
    default: break;
    }
    if (o == O_cvt && !conv_domain(t, to, a.v)) return bad();
  } else {
    if (o == O_abs && is_signed(t) && ival(t, a.v) == imin(t)) return bad();
    if (o == O_div && (b.v == 0 || ival(t, a.v) / ival(t, b.v) > imax(t))) return bad();
    if (o == O_cvt && is_float(to)) { bool d; u64t alt = 0, e = int_to_float(to, ival(t, a.v), &d, &alt); if (d && alt != e) return bad(); }
    if (o == O_reinterpret && nanv(to, a.v)) return bad();
  }
  u64t e = lane(o, t, to, a.v, b.v, c.v, p, 0).exp;
  if (is_float(t)) {
    switch (o) {
    case O_ceil: case O_floor: case O_trunc: case O_round_to_even: if (iszero_bits(t, e) && a.v != 0) return bad(); break;
    case O_fma: case O_fms: case O_fnma: case O_fnms: {
      if (iszero_bits(t, e)) return bad();
      if (!nanv(t, e) && !lane(o, t, to, a.v, b.v, c.v, p, e).ok) return bad();
      // fused and unfused must agree
      RV m = op(O_mul, t, t, a, b, val(0), 0); if (!m.ok) return bad();
      u64t sb = (M >> 1) + 1; if (o == O_fnma || o == O_fnms) m.v ^= sb; u64t cc = (o == O_fms || o == O_fnms) ? c.v ^ sb : c.v;
      RV s = op(O_add, t, t, m, val(cc), val(0), 0); if (!s.ok || !feq(t, s.v, e)) return bad(); break; }
    default: break;
    }
    if (t == F16 && !nanv(t, e) && !f16_exact(o, a.v, b.v, c.v, e)) return bad();
    if (o != O_cvt && o != O_reinterpret && nanv(t, e)) e = t == F16 ? 0x7e00 : t == F32 ? 0x7fc00000u : 0x7ff8000000000000ull;
  }
  return val(e & ty_mask(to));
}
static inline RV cmp(Op o, Ty t, RV a, RV b) { if (!a.ok || !b.ok) return bad(); return val(lane(o, t, t, a.v, b.v, 0, 0, 0).exp != 0); }
static inline RV lg(Op o, RV a, RV b) {
  if (!a.ok || !b.ok) return bad();
  switch (o) { case O_andl: return val(a.v && b.v); case O_orl: return val(a.v || b.v); case O_xorl: return val(a.v != b.v); case O_andnotl: return val(a.v && !b.v); default: return val(!a.v); }
}
static inline RV tolog(Ty t, RV a) { if (!a.ok || nanv(t, a.v) || (is_float(t) && a.v == (ty_mask(t) >> 1) + 1)) return bad(); return val((a.v & ty_mask(t)) != 0); }
static inline RV selm(Ty t, RV l, RV x) { if (!l.ok || !x.ok) return bad(); (void)t; return val(l.v ? x.v : 0); } // andb(to_mask(l), x)
// verdict of the root operation on what was stored
struct Root { Op o; Ty t, to; RV a, b, c; int p; };
static inline bool root_ok(const Root &r, u64t got, u64t *exp) {
  *exp = 0;
  if (!r.a.ok || !r.b.ok || !r.c.ok) return true;
  if (r.o == O_none) { *exp = r.a.v; return got == r.a.v || (is_float(r.to) && feq(r.to, got, r.a.v)); }
  if (r.o == O_cvt && !conv_domain(r.t, r.to, r.a.v)) return true;
  if (is_float(r.t) && (r.o == O_orb || r.o == O_andb || r.o == O_xorb || r.o == O_andnotb || r.o == O_notb || r.o == O_reinterpret) && (r.t == F16 || nanv(r.t, r.a.v) || nanv(r.t, r.b.v))) return true;
  Verdict v = lane(r.o, r.t, r.to, r.a.v, r.b.v, r.c.v, r.p, got); *exp = v.exp;
  if (!v.ok && is_float(r.to) && isnan_bits(r.to, v.exp) && isnan_bits(r.to, got)) return true;
  return v.ok;
}
struct Expr {
  const char *name, *text; Ty t, u, ot; int len; bool masked;
  void (*run)(const Env &, void *); Root (*ref)(const Env &, int); RV (*mask)(const Env &, int);
};
static Guard *G[NL + 1];
static std::string check(const Expr &e, const Case &c) {
  Env v; v.c = &c; int so = ty_size(e.ot);
  for (int k = 0; k < NL; k++) {
    if (!G[k]) G[k] = new Guard; Ty t = k < 3 ? c.t : c.u; int s = ty_size(t), tot = c.n + c.pre[k] + c.post[k];
    v.p[k] = (c.pre[k] == 0 && c.post[k] % 2) ? G[k]->beg() : G[k]->end((size_t)s * tot); memset(v.p[k], 0x5a, (size_t)s * tot);
    for (int i = 0; i < c.n; i++) wr(v.p[k], c.pre[k] + i, s, c.bits[k][i]);
  }
  if (!G[NL]) G[NL] = new Guard;
  unsigned char *o = (c.pre[0] & 1) ? G[NL]->end((size_t)so * c.n) : G[NL]->end((size_t)so * (c.n + 40)); 
  memset(G[NL]->beg(), 0xa7, G[NL]->cap); for (int i = 0; i < c.n; i++) wr(o, i, so, c.old[i]);
  std::vector<unsigned char> in[NL]; for (int k = 0; k < NL; k++) in[k].assign(G[k]->beg(), G[k]->beg() + G[k]->cap);
  e.run(v, o);
  for (unsigned char *q = G[NL]->beg(); q < G[NL]->beg() + G[NL]->cap; q++) if ((q < o || q >= o + (size_t)so * c.n) && *q != 0xa7) return "wrote outside the output, at byte " + std::to_string((long)(q - o));
  for (int k = 0; k < NL; k++) if (memcmp(in[k].data(), G[k]->beg(), G[k]->cap)) return "an input changed";
  for (int i = 0; i < c.n; i++) {
    u64t got = rd(o, i, so), exp; RV m = val(1);
    if (e.masked) m = e.mask(v, i);
    if (!m.ok) continue;
    if (!m.v) { if (got != c.old[i] && !(e.ot == F16 && isnan_bits(F16, got) && isnan_bits(F16, c.old[i]))) return "element " + std::to_string(i) + " of " + std::to_string(c.n) + " is not selected but changed from " + lane_str(e.ot, c.old[i]) + " to " + lane_str(e.ot, got); continue; }
    Root r = e.ref(v, i);
    if (!root_ok(r, got, &exp)) return "element " + std::to_string(i) + " of " + std::to_string(c.n) + ": got " + lane_str(e.ot, got) + ", expected " + lane_str(e.ot, exp);
  }
  return "";
}
static u64t gen(Rng &r, Ty t, int mode) {
  if (!is_float(t)) { if (mode == 1) return (u64t)((i64t)r.below(is_signed(t) ? 17 : 9) - (is_signed(t) ? 8 : 0)) & ty_mask(t); return gen_int(r, t); }
  if (mode == 1) return enc_double(t, (double)r.below(33) - 16);
  if (mode == 2) return enc_double(t, ((double)r.below(4001) - 2000) / 8);
  return gen_flt(r, t);
}
static std::string text(const Expr &e, const Case &c) {
  std::string s = std::string("expr ") + e.name + "\ntext " + e.text + "\nn " + std::to_string(c.n) + "\n";
  for (int k = 0; k < NL; k++) s += "leaf" + std::to_string(k) + " " + std::to_string(c.mode[k]) + " " + std::to_string(c.pre[k]) + " " + std::to_string(c.post[k]) + "\n";
  for (int k = 0; k <= NL; k++) { s += "data" + std::to_string(k); const std::vector<u64t> &d = k < NL ? c.bits[k] : c.old; char b[24]; for (auto x : d) { snprintf(b, 24, " %llx", (unsigned long long)x); s += b; } s += "\n"; }
  return s;
}
static Case make(Rng &r, const Expr &e) {
  Case c; c.t = e.t; c.u = e.u; int L = e.len;
  switch (r.below(6)) { case 0: c.n = (int)r.below(3); break; case 1: c.n = (int)(L * (1 + r.below(3)) + r.below(3)) - 1; break; case 2: c.n = (int)r.below(2 * L + 2); break; default: c.n = (int)r.below(4 * L + 5); }
  if (c.n < 0) c.n = 0;
  int mode = (int)r.below(4); if (mode == 3) mode = 0; 
  for (int k = 0; k < NL; k++) { c.mode[k] = r.chance(1, 2) ? 0 : (int)r.below(6); c.pre[k] = r.chance(1, 3) ? 0 : (int)r.below(9); c.post[k] = r.chance(1, 3) ? 0 : (int)r.below(9); c.bits[k].resize(c.n); for (int i = 0; i < c.n; i++) { c.bits[k][i] = gen(r, k < 3 ? e.t : e.u, mode); if (k && k < 3 && r.chance(1, 5)) c.bits[k][i] = c.bits[k - 1][i]; } }
  c.old.resize(c.n); for (int i = 0; i < c.n; i++) c.old[i] = gen(r, e.ot, 0) ;
  return c;
}
static bool g_jmp = false; static sigjmp_buf g_jb;
static void on_sig(int s) { if (g_jmp) siglongjmp(g_jb, s); vp::on_crash(s); }
static std::string safe(const Expr &e, const Case &c) {
  std::string w; g_jmp = true; int s = sigsetjmp(g_jb, 1);
  if (s == 0) w = check(e, c); else { char b[80]; snprintf(b, 80, "signal %d while the expression was evaluated", s); w = b; }
  g_jmp = false; return w;
}
static Case shrink(const Expr &e, Case c) {
  auto badc = [&](const Case &q) { return !safe(e, q).empty(); };
  for (bool again = true; again;) { again = false;
    for (int i = c.n - 1; i >= 0; i--) { Case t = c; t.n--; for (int k = 0; k < NL; k++) t.bits[k].erase(t.bits[k].begin() + i); t.old.erase(t.old.begin() + i); if (badc(t)) { c = t; again = true; } } }
  for (int k = 0; k < NL; k++) { Case t = c; t.mode[k] = 0; t.pre[k] = t.post[k] = 0; if (badc(t)) c = t; for (int i = 0; i < c.n; i++) { t = c; if (t.bits[k][i]) { t.bits[k][i] = 0; if (badc(t)) c = t; } } }
  for (int i = 0; i < c.n; i++) { Case t = c; t.old[i] = 0; if (badc(t)) c = t; }
  return c;
}
static std::vector<Expr> &table() { static std::vector<Expr> t; return t; }
static int main_(int argc, char **argv, const char *gseed) {
  bool rp = vp::init(argc, argv); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, 0); }
  if (!freopen("/dev/null", "w", stderr)) return 2;
  u64t skipped = 0; (void)skipped;
  for (auto &e : table()) {
    auto run = [&](const Case &c) { std::string w = safe(e, c); return w; };
    if (rp) {
      if (vp::field("expr") != e.name) continue; Case c; c.t = e.t; c.u = e.u; c.n = atoi(vp::field("n").c_str());
      for (int k = 0; k < NL; k++) { auto m = vp::nums(vp::field("leaf" + std::to_string(k))); c.mode[k] = (int)m[0]; c.pre[k] = (int)m[1]; c.post[k] = (int)m[2]; }
      for (int k = 0; k <= NL; k++) { std::string f = vp::field("data" + std::to_string(k)); const char *p = f.c_str(); char *q; std::vector<u64t> d; for (;;) { u64t v = strtoull(p, &q, 16); if (q == p) break; d.push_back(v); p = q; } d.resize(c.n); if (k < NL) c.bits[k] = d; else c.old = d; }
      std::string w = run(c); if (!w.empty()) fail(std::string(e.name), w, ""); continue;
    }
    Rng r(vp::seed * 7919 + hash_str(e.name));
    if (&e - &table()[0] < 200 && (&e - &table()[0]) % 37 == 5) vp::sample(std::string(e.name) + ": " + e.text);
    for (u64t it = 0; it < vp::iters; it++) {
      Case c = make(r, e); u64t h = hash_str(e.text); h = hash_bytes(&c.n, sizeof c.n, h); for (int k = 0; k < NL; k++) if (c.n) h = hash_bytes(c.bits[k].data(), 8 * c.n, h);
      vp::eval(h, c.n > 0); vp::current = std::string("expr ") + e.name;
      std::string w = run(c);
      if (!w.empty()) { c = shrink(e, c); w = safe(e, c); fail(e.name, std::string(e.text) + ": " + w, std::string("gseed ") + gseed + "\n" + text(e, c)); break; }
    }
  }
  return vp::finish();
}
}
#endif
