// Generated register programs: every intermediate is compared with the
// reference meaning of the instruction that produced it.
#ifndef VP_REGPROG_HPP
#define VP_REGPROG_HPP
#include "prog.hpp"
#include "oracle.hpp"
namespace rp {
using vp::fail;
enum Code { K_LANE, K_BITW, K_LOGIC, K_SELECT, K_ZIPLO, K_ZIPHI, K_UNZIPLO, K_UNZIPHI, K_ZIP2, K_UNZIP2, K_UP, K_DOWN, K_SET1, K_SET1L, K_IOTA,
  K_TAIL, K_RED, K_MASKO, K_MASKZ, K_MSTORE, K_GATHER, K_SCATTER, K_GLIN, K_SLIN, K_COPY, K_INTERLEAVE, K_SDIV, K_TOLOG, K_LEN, K_ADDV, K_SCAL };
enum PK { P_SHIFT, P_SCALAR, P_BOOL, P_INT, P_STEP, P_XOR, P_SMALL };
struct Ins { const char *text; Code code; Op o; Ty t, to; int in[4], d[4], p[2]; };
struct Param { PK k; Ty t; int arg; };
struct Reg { char k; Ty t; };
typedef void (*Fn)(const unsigned char *, unsigned char *, unsigned char *, const long long *);
struct Prog { const char *name; int n, bytes, nin; std::vector<Reg> reg; std::vector<Param> par; std::vector<Ins> ins; Fn run; };
struct RV { u64t v; bool ok; };
typedef std::vector<RV> Lanes;
struct Case { std::vector<std::vector<u64t> > in; std::vector<long long> q; };
static unsigned char *g_in, *g_out, *g_scr;
static inline int lanes(const Prog &p, Ty t) { return p.n * p.bytes / ty_size(t); }
static inline bool f16_exact(Op o, u64t a, u64t b, u64t c, u64t e) {
  double x = h2d(a), y = h2d(b), z = h2d(c), r;
  switch (o) {
  case O_add: case O_adds: r = x + y; break; case O_sub: case O_subs: r = x - y; break; case O_mul: r = x * y; break;
  case O_fma: r = x * y + z; break; case O_fms: r = x * y - z; break; case O_fnma: r = -x * y + z; break; case O_fnms: r = -x * y - z; break;
  case O_div: return y != 0 && h2d(e) * y == x; case O_sqrt: return h2d(e) * h2d(e) == x;
  case O_rec: case O_rec8: case O_rec11: case O_rsqrt8: case O_rsqrt11: return false;
  default: return true; }
  return r == h2d(e) || (std::isnan(r) && std::isnan(h2d(e)));
}
static inline bool same(Ty t, u64t a, u64t b) { return a == b || (is_float(t) && feq(t, a, b)); }
// one instruction: expected lanes given operand lanes and what was stored;
// returns the first wrong lane or -1. `got` becomes the new register contents.
struct Bad { int out, lane; u64t got, exp; };
static Bad step(const Prog &p, const Ins &I, const Case &c, const std::vector<Lanes> &R, std::vector<Lanes> &out) {
  Bad b; b.out = -1; b.lane = -1; b.got = b.exp = 0;
  auto in = [&](int k, int i) { return R[I.in[k]][i]; };
  auto put = [&](int k, int i, u64t exp, bool ok, Ty t) { // exact result
    RV &g = out[k][i]; g.ok = ok; if (ok && b.out < 0 && !same(t, g.v, exp)) { b.out = k; b.lane = i; b.got = g.v; b.exp = exp; } };
  int L = lanes(p, I.t), l = p.bytes / ty_size(I.t); u64t one = one_of(I.t); (void)one;
  auto q = [&](int k) { return c.q[I.p[k]]; };
  switch (I.code) {
  case K_LANE: case K_SDIV: case K_BITW: case K_SCAL:
    for (int i = 0; i < L; i++) {
      RV z = {0, true}, A = I.in[0] >= 0 ? in(0, i) : z, B = I.in[1] >= 0 ? in(1, i) : z, C = I.in[2] >= 0 ? in(2, i) : z;
      if (I.code == K_SCAL) { RV s = {(u64t)q(0) & ty_mask(I.t), true}; if (I.p[1] == 0) B = s; else { B = A; A = s; } }
      if (I.code == K_SDIV) B.v = (B.v & 6) | 1;
      int sh = (I.o == O_shl || I.o == O_shr || I.o == O_shra) ? (int)q(0) : 0;
      bool ok = A.ok && B.ok && C.ok; RV &g = out[0][i]; bool cmp = I.o >= O_eq && I.o <= O_le;
      if (ok) {
        Verdict v = lane(I.o, I.t, I.to, A.v, B.v, C.v, sh, g.v);
        if (!v.ok && b.out < 0) { b.out = 0; b.lane = i; b.got = g.v; b.exp = v.exp; }
      }
      g.ok = ok; if (I.o == O_cvt && !conv_domain(I.t, I.to, A.v)) g.ok = false;
      if (I.to == F16 && !cmp) {
        if (I.o == O_cvt) g.ok = is_int(I.t) ? ok && conv_domain(F16, I.t, g.v) && (u64t)((i64t)h2d(g.v) & (i64t)ty_mask(I.t)) == A.v : ok;
        else g.ok = ok && (I.t == F16 ? f16_exact(I.o, A.v, B.v, C.v, g.v) : true);
        if (I.o == O_to_mask) g.ok = false;
      }
    }
    break;
  case K_TOLOG:
    for (int i = 0; i < L; i++) { RV A = in(0, i); bool sp = !A.ok || (is_float(I.t) && (isnan_bits(I.t, A.v) || A.v == (ty_mask(I.t) >> 1) + 1)); if (!sp) put(0, i, A.v ? one : 0, true, I.t); out[0][i].ok = A.ok; }
    break;
  case K_LOGIC:
    for (int i = 0; i < L; i++) {
      bool x = in(0, i).v != 0, y = I.in[1] >= 0 ? in(1, i).v != 0 : false, r = false, ok = in(0, i).ok && (I.in[1] < 0 || in(1, i).ok);
      if (!ok) { out[0][i].ok = false; continue; }
      if (I.p[0] >= 0) y = q(0) != 0;
      if (I.p[1] == 1) std::swap(x, y);
      switch (I.o) { case O_andl: r = x && y; break; case O_orl: r = x || y; break; case O_xorl: r = x != y; break; case O_andnotl: r = x && !y; break; case O_notl: r = !x; break; default: r = x; }
      put(0, i, r ? one_of(I.to) : 0, true, I.to);
    }
    break;
  case K_SELECT: for (int i = 0; i < L; i++) { RV v = in(0, i).v ? in(1, i) : in(2, i); if (!in(0, i).ok || !v.ok) out[0][i].ok = false; else put(0, i, v.v, v.ok, I.to); } break;
  case K_MASKO: for (int i = 0; i < L; i++) { RV v = in(0, i).v ? in(1, i) : in(2, i); if (!in(0, i).ok || !v.ok) out[0][i].ok = false; else put(0, i, v.v, v.ok, I.t); } break;
  case K_MASKZ: for (int i = 0; i < L; i++) { RV z = {0, true}, v = in(0, i).v ? in(1, i) : z; if (!in(0, i).ok || !v.ok) out[0][i].ok = false; else put(0, i, v.v, v.ok, I.t); } break;
  case K_MSTORE: for (int i = 0; i < L; i++) { RV v = in(0, i).v ? in(1, i) : in(2, i); if (!in(0, i).ok || !v.ok) out[0][i].ok = false; else put(0, i, v.v, v.ok, I.t); } break;
  case K_ZIPLO: case K_ZIPHI: case K_ZIP2: case K_UNZIPLO: case K_UNZIPHI: case K_UNZIP2:
    for (int r = 0; r < p.n; r++) for (int h = 0; h < 2; h++) {
      bool two = I.code == K_ZIP2 || I.code == K_UNZIP2; if (!two && h != (I.code == K_ZIPHI || I.code == K_UNZIPHI)) continue;
      bool zip = I.code == K_ZIPLO || I.code == K_ZIPHI || I.code == K_ZIP2;
      for (int i = 0; i < l; i++) {
        RV v;
        if (zip) { int j = h * (l / 2) + i / 2; v = in(i & 1, r * l + j); }
        else v = i < l / 2 ? in(0, r * l + 2 * i + h) : in(1, r * l + 2 * (i - l / 2) + h);
        put(two ? h : 0, r * l + i, v.v, v.ok, I.t);
      }
    }
    break;
  case K_UP:
    for (int r = 0; r < p.n; r++) for (int i = 0; i < l; i++) {
      int k = i >= l / 2; int j = r * (l / 2) + (k ? i - l / 2 : i); RV A = in(0, r * l + i), &g = out[k][j];
      if (A.ok && conv_domain(I.t, I.to, A.v)) { Verdict v = lane(O_upcvt, I.t, I.to, A.v, 0, 0, 0, g.v); if (!v.ok && !(is_float(I.to) && isnan_bits(I.to, v.exp) && isnan_bits(I.to, g.v)) && b.out < 0) { b.out = k; b.lane = j; b.got = g.v; b.exp = v.exp; } }
      g.ok = A.ok && conv_domain(I.t, I.to, A.v);
    }
    break;
  case K_DOWN:
    for (int r = 0; r < p.n; r++) for (int k = 0; k < 2; k++) for (int i = 0; i < l; i++) {
      int j = r * 2 * l + k * l + i; RV A = in(k, r * l + i), &g = out[0][j];
      Verdict v = lane(O_downcvt, I.t, I.to, A.v, 0, 0, 0, g.v); if (A.ok && !v.ok && !(is_float(I.to) && isnan_bits(I.to, v.exp) && isnan_bits(I.to, g.v)) && b.out < 0) { b.out = 0; b.lane = j; b.got = g.v; b.exp = v.exp; }
      g.ok = A.ok && conv_domain(I.t, I.to, A.v); if (I.to == F16) g.ok = A.ok && (is_float(I.t) ? (std::isnan(h2d(g.v)) || h2d(g.v) == fval(I.t, A.v)) : h2d(g.v) == (double)ival(I.t, A.v));
    }
    break;
  case K_SET1: for (int i = 0; i < L; i++) put(0, i, (u64t)q(0) & ty_mask(I.t), true, I.t); break;
  case K_SET1L: for (int i = 0; i < L; i++) put(0, i, q(0) ? one : 0, true, I.t); break;
  case K_IOTA: for (int i = 0; i < L; i++) put(0, i, is_float(I.t) ? enc_double(I.t, i) : (u64t)i & ty_mask(I.t), true, I.t); break;
  case K_LEN: for (int i = 0; i < L; i++) put(0, i, is_float(I.t) ? enc_double(I.t, L) : (u64t)L & ty_mask(I.t), true, I.t); break;
  case K_TAIL: for (int i = 0; i < L; i++) put(0, i, q(0) + i < q(1) ? one : 0, true, I.t); break;
  case K_RED: {
    int nb = 0; bool ok = true; for (int i = 0; i < L; i++) { nb += in(0, i).v != 0; ok = ok && in(0, i).ok; }
    if (!ok) { for (int i = 0; i < L; i++) out[0][i].ok = false; break; }
    long long r = I.o == O_all ? nb == L : I.o == O_any ? nb > 0 : nb; // all/any: any non-zero int is true
    for (int i = 0; i < L; i++) put(0, i, (u64t)r & ty_mask(I.t), true, I.t);
    break; }
  case K_GATHER: { int m = I.p[1]; for (int i = 0; i < L; i++) { int x = (int)(R[I.in[1]][i].v & (u64t)(m - 1)); if (!in(1, i).ok || !in(0, x).ok) out[0][i].ok = false; else put(0, i, in(0, x).v, in(0, x).ok, I.t); } break; }
  case K_SCATTER: { int k = (int)q(0); for (int i = 0; i < L; i++) put(0, i ^ k, in(0, i).v, in(0, i).ok, I.t); break; }
  case K_GLIN: for (int i = 0; i < L; i++) { int x = (int)q(0) * i; RV v = x < L ? in(0, x) : in(1, x - L); put(0, i, v.v, v.ok, I.t); } break;
  case K_SLIN: {
    int s = (int)q(0); for (int i = 0; i < 2 * L; i++) { RV v = i < L ? in(0, i) : in(1, i - L); if (i % s == 0 && i / s < L) v = in(2, i / s); put(i < L ? 0 : 1, i % L, v.v, v.ok, I.t); }
    break; }
  case K_COPY: for (int k = 0; k < 4; k++) if (I.d[k] >= 0) for (int i = 0; i < L; i++) put(k, i, in(k, i).v, in(k, i).ok, I.t); break;
  case K_INTERLEAVE: {
    int D = 0; while (D < 4 && I.d[D] >= 0) D++;
    for (int s = 0; s < D * p.n; s++) for (int i = 0; i < l; i++) { RV v = in(s % D, (s / D) * l + i); put(s / p.n, (s % p.n) * l + i, v.v, v.ok, I.t); }
    break; }
  case K_ADDV: { // exact when every partial sum is
    bool ok = true, fin = true; double s = 0, sa = 0; for (int i = 0; i < L; i++) fin = fin && in(0, i).ok; for (int i = 0; i < L; i++) { RV A = in(0, i); double x = fval(I.t, A.v); if (!A.ok || !std::isfinite(x) || x != std::floor(x)) { ok = false; break; } s += x; sa += std::fabs(x); }
    if (sa > (I.t == F16 ? 1024 : I.t == F32 ? 1 << 22 : 1 << 30)) ok = false;
    for (int i = 0; i < L; i++) { if (ok) { u64t e = enc_double(I.t, s); if (!(iszero_bits(I.t, e) && iszero_bits(I.t, out[0][i].v))) put(0, i, e, true, I.t); } out[0][i].ok = fin; } break; }
  }
  return b;
}
struct Out { int ins; std::string what, key; };
static Out check(const Prog &p, const Case &c) {
  Out r; r.ins = -1; int RB = p.n * p.bytes;
  std::vector<Lanes> R(p.reg.size());
  for (int k = 0; k < p.nin; k++) { int s = ty_size(p.reg[k].t), L = lanes(p, p.reg[k].t); R[k].resize(L); for (int i = 0; i < L; i++) { u64t v = c.in[k][i]; if (p.reg[k].k == 'l') v = v ? one_of(p.reg[k].t) : 0; wr(g_in + k * RB, i, s, v); R[k][i].v = v; R[k][i].ok = true; } }
  memset(g_out, 0xcd, (p.reg.size() - p.nin) * (size_t)RB); memset(g_scr, 0x11, 16 * RB);
  p.run(g_in, g_out, g_scr, c.q.data());
  for (size_t k = p.nin; k < p.reg.size(); k++) { int s = ty_size(p.reg[k].t), L = lanes(p, p.reg[k].t); R[k].resize(L); for (int i = 0; i < L; i++) { R[k][i].v = rd(g_out + (k - p.nin) * RB, i, s); R[k][i].ok = true; } }
  for (size_t n = 0; n < p.ins.size(); n++) {
    const Ins &I = p.ins[n]; std::vector<Lanes> out(4); for (int k = 0; k < 4; k++) if (I.d[k] >= 0) out[k] = R[I.d[k]];
    Bad b = step(p, I, c, R, out);
    if (b.out >= 0) {
      Ty t = p.reg[I.d[b.out]].t; r.ins = (int)n;
      r.what = std::string("instruction ") + std::to_string(n) + " `" + I.text + "`, lane " + std::to_string(b.lane) + " of r" + std::to_string(I.d[b.out]) + ": got " + lane_str(t, b.got) + ", expected " + lane_str(t, b.exp);
      return r;
    }
    for (int k = 0; k < 4; k++) if (I.d[k] >= 0) R[I.d[k]] = out[k];
  }
  return r;
}
static u64t gen(Rng &r, Ty t, int mode) {
  if (!is_float(t)) { if (mode == 1) return (u64t)((i64t)r.below(is_signed(t) ? 17 : 9) - (is_signed(t) ? 8 : 0)) & ty_mask(t); return gen_int(r, t); }
  if (mode == 1) return enc_double(t, (double)r.below(33) - 16);
  if (mode == 2) return enc_double(t, ((double)r.below(4001) - 2000) / 8);
  return gen_flt(r, t);
}
static Case make(Rng &r, const Prog &p) {
  Case c; int mode = (int)r.below(5); c.in.resize(p.nin);
  for (int k = 0; k < p.nin; k++) {
    int L = lanes(p, p.reg[k].t); c.in[k].resize(L); int m = mode >= 3 ? (int)r.below(3) : mode; bool uni = r.chance(1, 8); int dens = (int)r.below(4);
    for (int i = 0; i < L; i++) {
      if (p.reg[k].k == 'l') c.in[k][i] = dens == 0 ? r.chance(1, 16) : dens == 1 ? !r.chance(1, 16) : r.chance(1, 2);
      else { c.in[k][i] = gen(r, p.reg[k].t, m); if (uni && i) c.in[k][i] = c.in[k][0]; if (k && p.reg[k - 1].t == p.reg[k].t && p.reg[k - 1].k == 'v' && r.chance(1, 5)) c.in[k][i] = c.in[k - 1][i]; }
    }
  }
  for (auto &q : p.par) {
    long long v = 0;
    switch (q.k) {
    case P_SHIFT: v = (long long)r.below(8 * ty_size(q.t)); break;
    case P_SCALAR: v = (long long)gen(r, q.t, mode >= 3 ? (int)r.below(3) : mode); break;
    case P_SMALL: v = (long long)enc_double(q.t, 0); v = is_float(q.t) ? (long long)enc_double(q.t, 1 + (double)r.below(7)) : (long long)(1 + r.below(7)); break;
    case P_BOOL: v = (long long)r.below(2) * (1 + (long long)r.below(5)); break;
    case P_INT: v = (long long)r.below(3 * lanes(p, q.t) + 3) ; if (q.arg) v += (long long)r.below(100); break;
    case P_STEP: v = 1 + (long long)r.below(q.arg); break;
    case P_XOR: v = (long long)r.below(q.arg); break;
    }
    c.q.push_back(v);
  }
  return c;
}
static std::string text(const Prog &p, const Case &c) {
  std::string s = std::string("program ") + p.name + "\n";
  for (auto &I : p.ins) s += std::string("# ") + I.text + "\n";
  for (size_t k = 0; k < c.in.size(); k++) { s += "r" + std::to_string(k); char b[24]; for (auto x : c.in[k]) { snprintf(b, 24, " %llx", (unsigned long long)x); s += b; } s += "\n"; }
  s += "q"; for (auto x : c.q) s += " " + std::to_string(x); return s + "\n";
}
static bool g_jmp = false; static sigjmp_buf g_jb;
static void on_sig(int s) { if (g_jmp) siglongjmp(g_jb, s); vp::on_crash(s); }
static Out safe(const Prog &p, const Case &c) {
  Out w; w.ins = -1; g_jmp = true; int s = sigsetjmp(g_jb, 1);
  if (s == 0) w = check(p, c); else { w.ins = 9999; w.what = "signal " + std::to_string(s) + " while the program ran"; }
  g_jmp = false; return w;
}
static Case shrink(const Prog &p, Case c, int ins) {
  auto badc = [&](const Case &t) { return safe(p, t).ins == ins; };
  for (size_t k = 0; k < c.in.size(); k++) { Case t = c; for (auto &x : t.in[k]) x = 0; if (badc(t)) { c = t; continue; } for (size_t i = 0; i < c.in[k].size(); i++) if (c.in[k][i]) { t = c; t.in[k][i] = 0; if (badc(t)) c = t; } }
  for (size_t k = 0; k < c.q.size(); k++) for (long long v : {0LL, 1LL}) if (c.q[k] > v && p.par[k].k != P_STEP) { Case t = c; t.q[k] = v; if (badc(t)) { c = t; break; } }
  return c;
}
static std::string key(const Prog &p, const Out &o) {
  if (o.ins >= (int)p.ins.size()) return std::string("crash:") + p.name;
  const Ins &I = p.ins[o.ins]; std::string t = I.text; size_t e = t.find("= "); if (e != std::string::npos) t = t.substr(e + 2); e = t.find('('); std::string f = t.substr(0, e);
  if (f.empty()) { f = t; for (auto &ch : f) if (ch == ' ') ch = '_'; }
  return vp::extname + ":" + f + ":" + ty_name[I.t] + (I.to != I.t ? std::string("_") + ty_name[I.to] : "");
}
static std::vector<Prog> &table() { static std::vector<Prog> t; return t; }
static void add(const char *name, int n, int bytes, int nin, const Reg *r, int nr, const Param *q, int nq, const Ins *i, int ni, Fn f) {
  Prog p; p.name = name; p.n = n; p.bytes = bytes; p.nin = nin; p.reg.assign(r, r + nr); p.par.assign(q, q + nq); p.ins.assign(i, i + ni); p.run = f; table().push_back(p);
}
static int main_(int argc, char **argv, const char *gseed) {
  bool rpl = vp::init(argc, argv); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, 0); }
  g_in = (unsigned char *)aligned_alloc(4096, 1 << 18); g_out = (unsigned char *)aligned_alloc(4096, 1 << 20); g_scr = (unsigned char *)aligned_alloc(4096, 1 << 18);
  int np = 0;
  for (auto &p : table()) {
    if (rpl) {
      if (vp::field("program") != p.name) continue; Case c; c.in.resize(p.nin);
      for (int k = 0; k < p.nin; k++) { std::string f = vp::field("r" + std::to_string(k)); const char *s = f.c_str(); char *e; for (;;) { u64t v = strtoull(s, &e, 16); if (e == s) break; c.in[k].push_back(v); s = e; } c.in[k].resize(lanes(p, p.reg[k].t)); }
      c.q = vp::nums(vp::field("q")); c.q.resize(p.par.size());
      Out w = safe(p, c); if (w.ins >= 0) fail(key(p, w), w.what, ""); continue;
    }
    Rng r(vp::seed * 7919 + hash_str(p.name)); u64t h0 = 0; for (auto &I : p.ins) h0 = h0 * 31 + hash_str(I.text);
    if (np++ % 9 == 2) { std::string s = std::string(p.name) + ":"; for (size_t i = 0; i < p.ins.size() && i < 6; i++) s += std::string(" ") + p.ins[i].text + ";"; vp::sample(s + " ..."); }
    for (u64t it = 0; it < vp::iters; it++) {
      Case c = make(r, p); u64t h = h0; for (auto &x : c.in) h = hash_bytes(x.data(), 8 * x.size(), h);
      vp::evals += p.ins.size() - 1; vp::eval(h, true); vp::current = std::string("program ") + p.name;
      Out w = safe(p, c);
      if (w.ins >= 0) { c = shrink(p, c, w.ins); w = safe(p, c); fail(key(p, w), std::string(p.name) + ": " + w.what, std::string("gseed ") + gseed + "\n" + text(p, c)); break; }
    }
  }
  return vp::finish();
}
}
#endif
