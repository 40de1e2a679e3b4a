// Value-semantics driver: runs every wrapper of a library on generated
// registers and checks each lane against the reference model (mode "oracle")
// or all API layers against each other (mode "diff").
// usage: drv_elem MODE lib.so ext seed iters out.json [replay-file]
#include "oracle.hpp"
#include <csignal>
#include <dlfcn.h>
#include <map>
#include <unistd.h>
#include <algorithm>

struct Case { std::vector<std::vector<u8t>> in; std::vector<long long> q; };
struct Ent { vp_entry e; Op o; Ty t, to; const char *sig; int nin; int outb; };

static std::string g_ext, g_out;
static size_t g_maxfail = getenv("VP_MAXV") ? 5000 : 30;
static u64t g_evals = 0, g_nontriv_evals = 0;
static Distinct g_dist;
static std::vector<std::string> g_samples;
struct Failure { std::string key, desc, rep; };
static std::vector<Failure> g_fail;
static const Ent *g_cur = 0; static const Case *g_curcase = 0;
static u8t *g_outbuf; static const size_t OUTSZ = 1 << 16;

static std::string key_of(const Ent &e) {
  std::string s = std::string(e.e.op) + ":" + e.e.t;
  if (e.to != TNONE) s += std::string(":") + e.e.to;
  return s + ":" + g_ext + ":" + e.e.layer;
}
static std::string rep_of(const Ent &e, const Case &c) {
  std::string s = "entry " + key_of(e) + "\n";
  for (auto &v : c.in) s += "in " + hex(v.data(), v.size()) + "\n";
  s += "q"; for (auto v : c.q) s += " " + std::to_string(v); s += "\n";
  return s;
}
static void dump() {
  FILE *f = fopen(g_out.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"samples\":[", (unsigned long long)g_evals, (unsigned long long)g_dist.count);
  for (size_t i = 0; i < g_samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_samples[i]).c_str());
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < g_fail.size(); i++)
    fprintf(f, "%s{\"key\":\"%s\",\"desc\":\"%s\",\"replay\":\"%s\"}", i ? "," : "", jesc(g_fail[i].key).c_str(), jesc(g_fail[i].desc).c_str(), jesc(g_fail[i].rep).c_str());
  fprintf(f, "]}\n"); fclose(f);
}
static void on_sig(int s) {
  if (g_cur && g_curcase) {
    Failure f; f.key = key_of(*g_cur); f.desc = "signal " + std::to_string(s) + " raised by the operator";
    f.rep = rep_of(*g_cur, *g_curcase); g_fail.push_back(f);
  }
  dump(); _exit(0);
}
#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_set_death_callback(void (*)(void));
static void on_asan() {
  static bool once = false; if (once) return; once = true;
  if (g_cur && g_curcase) { Failure f; f.key = "asan:" + key_of(*g_cur); f.desc = "AddressSanitizer: the operator accesses memory it does not own"; f.rep = rep_of(*g_cur, *g_curcase) + "# " + f.desc + "\n"; g_fail.push_back(f); }
  dump(); _exit(1);
}
#endif
static void call(const Ent &e, const Case &c, u8t *out) {
  void *p[8]; p[0] = out;
  for (size_t i = 0; i < c.in.size(); i++) p[i + 1] = (void *)c.in[i].data();
  g_cur = &e; g_curcase = &c;
  e.e.fn(p, c.q.data());
  g_cur = 0;
}
static std::string describe(const Ent &e, const Case &c, int ln, u64t got, u64t exp, Ty rt) {
  std::string s = "lane " + std::to_string(ln) + ": " + e.e.op + "(";
  int sz = ty_size(e.t);
  for (int i = 0; i < e.nin; i++) {
    if (i) s += ", ";
    if (e.sig[i + 1] == 'p') s += std::to_string(c.q[i]);
    else s += lane_str(e.t, rd(c.in[i].data(), ln, sz));
  }
  return s + ") = " + lane_str(rt, got) + ", expected " + lane_str(rt, exp);
}
// Checks a finished call. Returns failing lane or -1.
static int check(const Ent &e, const Case &c, const u8t *out, std::string *msg, bool *nontriv) {
  int sz = ty_size(e.t), n = e.e.lanes, L = e.e.reglanes; Ty rt = e.to == TNONE ? e.t : e.to; int rs = ty_size(rt);
  const void *A = e.nin > 0 ? c.in[0].data() : 0, *B = e.nin > 1 ? c.in[1].data() : 0, *C = e.nin > 2 ? c.in[2].data() : 0;
  auto bad = [&](int ln, u64t got, u64t exp) { if (msg) *msg = describe(e, c, ln, got, exp, rt); return ln; };
  auto eqv = [&](u64t a, u64t b) { return is_float(rt) ? feq(rt, a, b) : a == b; };
  if (nontriv) *nontriv = false;
  switch (e.o) {
  case O_all: case O_any: case O_nbtrue: {
    int cnt = 0; for (int i = 0; i < n; i++) cnt += truth(e.t, rd(A, i, sz));
    int got; memcpy(&got, out, 4); bool ok;
    if (e.o == O_all) ok = (got != 0) == (cnt == n); else if (e.o == O_any) ok = (got != 0) == (cnt > 0); else ok = got == cnt;
    if (nontriv) *nontriv = cnt > 0;
    if (!ok && msg) *msg = std::string(e.e.op) + " = " + std::to_string(got) + " with " + std::to_string(cnt) + "/" + std::to_string(n) + " true lanes";
    return ok ? -1 : 0;
  }
  case O_addv: {
    long double s = 0, sa = 0; bool nan = false, pinf = false, ninf = false;
    for (int i = 0; i < n; i++) { double x = fval(e.t, rd(A, i, sz)); if (std::isnan(x)) nan = true; else if (std::isinf(x)) (x > 0 ? pinf : ninf) = true; else { s += x; sa += std::fabs(x); } }
    u64t gb = rd(out, 0, sz); double g = fval(e.t, gb); bool ok = true;
    double mx = e.t == F16 ? 65504.0 : e.t == F32 ? (double)FLT_MAX : DBL_MAX;
    double eps = ldexp(1.0, -f_mant(e.t));
    if (nan) ok = std::isnan(g);
    else if (sa >= mx / 2) ok = true; // partial sums may overflow either way
    else if (pinf && ninf) ok = std::isnan(g);
    else if (pinf) ok = std::isinf(g) && g > 0;
    else if (ninf) ok = std::isinf(g) && g < 0;
    else {
      // every partial sum of small integers is exact
      bool exact = sa <= ldexp(1.0, f_mant(e.t)); 
      for (int i = 0; i < n && exact; i++) { double x = fval(e.t, rd(A, i, sz)); if (x != std::floor(x)) exact = false; }
      double mn = e.t == F16 ? ldexp(1, -24) : e.t == F32 ? ldexp(1, -149) : ldexp(1, -1074);
      ok = exact ? (long double)g == s : std::fabs((double)(g - s)) <= (double)(n * eps * sa) + mn;
    }
    if (nontriv) *nontriv = true;
    if (!ok && msg) { char b[200]; snprintf(b, 200, "addv = %.17g, sum of lanes = %.17Lg", g, s); *msg = b; }
    return ok ? -1 : 0;
  }
  case O_ziplo: case O_ziphi: case O_unziplo: case O_unziphi: case O_zip: case O_unzip: {
    int parts = (e.o == O_zip || e.o == O_unzip) ? 2 : 1;
    for (int part = 0; part < parts; part++) for (int r = 0; r < n / L; r++) for (int i = 0; i < L; i++) {
      bool hi = parts == 2 ? part == 1 : (e.o == O_ziphi || e.o == O_unziphi); u64t ex;
      if (e.o == O_ziplo || e.o == O_ziphi || e.o == O_zip) { int k = (hi ? L / 2 : 0) + i / 2; ex = rd(i & 1 ? B : A, r * L + k, sz); }
      else { int k = 2 * i + (hi ? 1 : 0); ex = k < L ? rd(A, r * L + k, sz) : rd(B, r * L + k - L, sz); }
      u64t got = rd(out, part * n + r * L + i, sz);
      if (!eqv(got, ex)) { if (msg) *msg = std::string(e.e.op) + " part " + std::to_string(part) + " lane " + std::to_string(r * L + i) + " = " + lane_str(rt, got) + ", expected " + lane_str(rt, ex); return r * L + i; }
    }
    if (nontriv) *nontriv = true;
    return -1;
  }
  case O_upcvt: {
    u64t first = rd(out, 0, rs);
    for (int part = 0; part < 2; part++) for (int r = 0; r < n / L; r++) for (int i = 0; i < L / 2; i++) {
      int src = r * L + part * (L / 2) + i; u64t got = rd(out, part * (n / 2) + r * (L / 2) + i, rs);
      Verdict v = lane(e.o, e.t, e.to, rd(A, src, sz), 0, 0, 0, got);
      if (got != first && nontriv) *nontriv = true;
      if (!v.ok) return bad(src, got, v.exp);
    }
    return -1;
  }
  case O_downcvt: {
    u64t first = rd(out, 0, rs);
    for (int r = 0; r < n / L; r++) for (int i = 0; i < 2 * L; i++) {
      u64t a = i < L ? rd(A, r * L + i, sz) : rd(B, r * L + i - L, sz); u64t got = rd(out, r * 2 * L + i, rs);
      Verdict v = lane(e.o, e.t, e.to, a, 0, 0, 0, got);
      if (got != first && nontriv) *nontriv = true;
      if (!v.ok) { if (msg) *msg = std::string("downcvt operand ") + (i < L ? "0" : "1") + " lane " + std::to_string(r * L + (i % L)) + " " + lane_str(e.t, a) + " -> " + lane_str(rt, got) + ", expected " + lane_str(rt, v.exp); return r * L + (i % L); }
    }
    return -1;
  }
  default: {
    int p = 0; for (int i = 0; i < e.nin; i++) if (e.sig[i + 1] == 'p') p = (int)c.q[i];
    u64t first = rd(out, 0, rs);
    for (int i = 0; i < n; i++) {
      u64t a = A ? rd(A, i, sz) : 0, b = B && e.sig[2] != 'p' ? rd(B, i, sz) : 0, cc = C ? rd(C, i, sz) : 0;
      u64t got = rd(out, i, rs); Verdict v = lane(e.o, e.t, e.to, a, b, cc, p, got);
      if (got != first && nontriv) *nontriv = true;
      if (!v.ok) return bad(i, got, v.exp);
    }
    return -1;
  }
  }
}
static void sanitize(const Ent &e, Case &c) {
  int sz = ty_size(e.t);
  if (e.o == O_div && is_int(e.t)) for (int i = 0; i < e.e.lanes; i++) {
    u64t b = rd(c.in[1].data(), i, sz);
    if (b == 0) wr(c.in[1].data(), i, sz, 1);
    else if (is_signed(e.t) && ival(e.t, b) == -1 && ival(e.t, rd(c.in[0].data(), i, sz)) == imin(e.t)) wr(c.in[1].data(), i, sz, 1);
  }
  if (e.to != TNONE && (e.o == O_cvt || e.o == O_upcvt || e.o == O_downcvt))
    for (int k = 0; k < e.nin; k++) for (int i = 0; i < e.e.lanes; i++)
      if (!conv_domain(e.t, e.to, rd(c.in[k].data(), i, sz))) wr(c.in[k].data(), i, sz, 0);
  for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] == 'l' && is_float(e.t)) for (int i = 0; i < e.e.lanes; i++) {
    u64t v = rd(c.in[k].data(), i, sz); // canonical falsehood is +0; NaN is not used as a boolean
    if (isnan_bits(e.t, v) || iszero_bits(e.t, v)) wr(c.in[k].data(), i, sz, isnan_bits(e.t, v) ? one_of(e.t) : 0);
  }
}
static void gen_case(const Ent &e, Rng &r, Case &c) {
  int sz = ty_size(e.t), n = e.e.lanes; bool conv = e.to != TNONE && is_float(e.t) && is_int(e.to) && e.o != O_reinterpret && e.o != O_reinterpretl;
  int mode = (int)r.below(10); int special = (int)r.below(n);
  auto val = [&]() { return conv ? gen_conv(r, e.t, e.to) : gen_val(r, e.t); };
  int density = (int)r.below(6);
  bool addv_small = e.o == O_addv && r.chance(2, 3); bool addv_mod = e.o == O_addv && r.chance(2, 3);
  for (int k = 0; k < e.nin; k++) {
    char kd = e.sig[k + 1];
    if (kd == 'p') { c.q[k] = (long long)r.below(8 * sz); continue; }
    u8t *d = c.in[k].data();
    if (kd == 'l') {
      for (int i = 0; i < n; i++) {
        bool tr;
        switch (density) { case 0: tr = false; break; case 1: tr = true; break; case 2: tr = i == special; break; case 3: tr = i != special; break; default: tr = r.chance(1, 2); }
        u64t v = 0;
        if (tr) { v = r.chance(1, 2) ? one_of(e.t) : gen_val(r, e.t); if (iszero_bits(e.t, v) || isnan_bits(e.t, v)) v = one_of(e.t); }
        wr(d, i, sz, v);
      }
      if (k == 0 || r.chance(1, 2)) density = (int)r.below(6);
      continue;
    }
    u64t base = val(), other = r.chance(1, 2) ? 0 : val();
    for (int i = 0; i < n; i++) {
      u64t v;
      if (addv_small) v = enc_double(e.t, (double)r.range(-16, 16));
      else if (addv_mod) v = enc_double(e.t, (double)r.range(-100000, 100000) / 3333.0);
      else if (mode == 0) v = base;
      else if (mode <= 2) v = i == special ? base : other;
      else if (k > 0 && !conv && r.chance(2, 5)) v = gen_related(r, e.t, rd(c.in[r.below(k)].data(), i, sz));
      else v = val();
      wr(d, i, sz, v);
    }
  }
  if (e.o == O_div && is_int(e.t)) for (int i = 0; i < n; i++) if (r.chance(1, 3)) { // at the edges of exact quotients
    u64t b = rd(c.in[1].data(), i, sz), q = gen_val(r, e.t) >> r.below(8 * sz);
    wr(c.in[0].data(), i, sz, (b * q + (u64t)(i64t)r.range(-1, 1)) & ty_mask(e.t));
  }
  sanitize(e, c);
}
static Case blank(const Ent &e) {
  Case c; c.in.resize(e.nin); c.q.assign(e.nin + 1, 0);
  for (int k = 0; k < e.nin; k++) c.in[k].assign(e.e.lanes * ty_size(e.t), 0);
  return c;
}
static bool fails(const Ent &e, const Case &c, std::string *msg, int *ln) {
  memset(g_outbuf, 0xA5, 4096); call(e, c, g_outbuf);
  int f = check(e, c, g_outbuf, msg, 0); if (ln) *ln = f; return f >= 0;
}
static void shrink(const Ent &e, Case &c) {
  int ln; if (!fails(e, c, 0, &ln)) return; int sz = ty_size(e.t);
  { // all other lanes zero
    Case d = c;
    for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] != 'p') for (int i = 0; i < e.e.lanes; i++) if (i != ln) wr(d.in[k].data(), i, sz, 0);
    sanitize(e, d); int l2; if (fails(e, d, 0, &l2)) c = d;
  }
  for (int round = 0; round < 3; round++) for (int k = 0; k < e.nin; k++) {
    if (e.sig[k + 1] == 'p') { while (c.q[k] > 0) { Case d = c; d.q[k]--; if (fails(e, d, 0, 0)) c = d; else break; } continue; }
    for (int i = 0; i < e.e.lanes; i++) {
      u64t v = rd(c.in[k].data(), i, sz); if (!v) continue;
      Case d = c; wr(d.in[k].data(), i, sz, 0); sanitize(e, d); if (fails(e, d, 0, 0)) { c = d; continue; }
      for (int b = 8 * sz - 1; b >= 0; b--) if (v >> b & 1) {
        d = c; wr(d.in[k].data(), i, sz, v & ~(1ull << b)); sanitize(e, d);
        if (fails(e, d, 0, 0)) { c = d; v = rd(c.in[k].data(), i, sz); }
      }
    }
  }
}
static bool report(const Ent &e, Case c) {
  // deterministic failure: must reproduce three times in a row
  for (int i = 0; i < 3; i++) if (!fails(e, c, 0, 0)) return false;
  shrink(e, c); std::string msg; fails(e, c, &msg, 0);
  Failure f; f.key = key_of(e); f.desc = msg; f.rep = rep_of(e, c) + "# " + msg + "\n"; g_fail.push_back(f); return true;
}
static u64t case_hash(const Ent &e, const Case &c, u64t h) {
  for (auto &v : c.in) h = hash_bytes(v.data(), v.size(), h);
  return hash_bytes(c.q.data(), c.q.size() * 8, h);
}
static bool run_one(const Ent &e, const Case &c, u64t kh) {
  static u8t out2[8192];
  memset(g_outbuf, 0xA5, e.outb); call(e, c, g_outbuf); g_evals++; (void)out2;
  bool nt; int f = check(e, c, g_outbuf, 0, &nt);
  if (nt) { g_dist.add(case_hash(e, c, kh)); }
  if (f >= 0) { return !report(e, c); }
  return true;
}
static void sample(const Ent &e, const Case &c) {
  if (g_samples.size() >= 6) return;
  std::string s = key_of(e) + " lane0: "; int sz = ty_size(e.t);
  for (int k = 0; k < e.nin; k++) s += (k ? ", " : "") + (e.sig[k + 1] == 'p' ? std::to_string(c.q[k]) : lane_str(e.t, rd(c.in[k].data(), 0, sz)));
  Ty rt = e.to == TNONE ? e.t : e.to; s += " -> " + lane_str(rt, rd(g_outbuf, 0, ty_size(rt)));
  g_samples.push_back(s);
}
static bool exhaust(const Ent &e, u64t kh, u64t seed, bool full) {
  static const bool noex = getenv("VP_NOEX") && *getenv("VP_NOEX"); if (noex) return true;
  int sz = ty_size(e.t), bits = 8 * sz, nv = 0, np = 0;
  for (int k = 0; k < e.nin; k++) { if (e.sig[k + 1] == 'v') nv++; else if (e.sig[k + 1] == 'p') np++; else return true; }
  if (e.o == O_addv || (e.sig[0] == '2' && e.o != O_upcvt) || e.o == O_ziplo || e.o == O_ziphi || e.o == O_unziplo || e.o == O_unziphi) return true;
  if (e.o == O_downcvt) return true;
  int tb = bits * nv; bool big = false;
  if (tb > 16) { if (!(full && tb == 32 && bits == 32 && nv == 1 && np == 0)) return true; big = true; }
  if (np && bits > 8 && !full && strcmp(e.e.layer, "c")) return true;
  u64t total = 1ull << tb; int n = e.e.lanes; u64t rot = seed * 7919 % total;
  int pmax = np ? bits : 1; Case c = blank(e);
  for (int p = 0; p < pmax; p++) {
    for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] == 'p') c.q[k] = p;
    for (u64t b = 0; b < total; b += n) {
      for (int i = 0; i < n; i++) {
        u64t x = (b + i + rot) & (total - 1); int vi = 0;
        for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] == 'v') { wr(c.in[k].data(), i, sz, x >> (vi * bits)); vi++; }
      }
      sanitize(e, c);
      if (big) { // hot path without hashing
        call(e, c, g_outbuf); g_evals++; if (check(e, c, g_outbuf, 0, 0) >= 0 && report(e, c)) return false;
      } else if (!run_one(e, c, kh)) return false;
    }
  }
  return true;
}
// -- differential mode -------------------------------------------------------
static bool lane_close(Op o, Ty rt, u64t a, u64t b) {
  if (a == b) return true;
  if (is_float(rt) && isnan_bits(rt, a) && isnan_bits(rt, b)) return true;
  if (o == O_rec8 || o == O_rec11 || o == O_rsqrt8 || o == O_rsqrt11) {
    double x = fval(rt, a), y = fval(rt, b); if (std::isnan(x) || std::isnan(y)) return false;
    if (std::isinf(x) || std::isinf(y) || x == 0 || y == 0) return true; // accuracy is C13's business
    return std::fabs(x - y) <= ldexp(std::fabs(x), -6);
  }
  return false;
}
static bool bitwise(Op o) { return o == O_orb || o == O_andb || o == O_andnotb || o == O_xorb || o == O_notb; }
static bool elementwise(Op o) {
  switch (o) { case O_all: case O_any: case O_nbtrue: case O_addv: case O_ziplo: case O_ziphi: case O_unziplo: case O_unziphi: case O_zip: case O_unzip: case O_upcvt: case O_downcvt: return false; default: return true; }
}
// do the layers `e` and `*refp` (C base) differ on the same elements?
static bool layers_differ(const Ent &e, const Ent *refp, const Case &dd, std::string *msg, bool scalar_mode) {
  static u8t refout[16384], out[16384]; bool ew = elementwise(e.o);
  int RL = refp->e.lanes, sz = ty_size(e.t); Ty rt = e.to == TNONE ? e.t : e.to; int rs = ty_size(rt);

  // evaluate both layers on the same elements
  memset(g_outbuf, 0, 4096); call(e, dd, g_outbuf); memcpy(out, g_outbuf, 4096);
  int bytes = ew ? e.e.lanes * rs : (e.o == O_zip || e.o == O_unzip) ? 2 * RL * rs : e.o == O_upcvt ? RL * 2 * sz : e.o == O_downcvt ? 2 * RL * rs : e.o == O_addv ? sz : 4;
  if (ew) for (int off = 0; off < e.e.lanes; off += RL) {
    Case s2 = blank(*refp); s2.q = dd.q; int cnt = std::min(RL, e.e.lanes - off);
    for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] != 'p') memcpy(s2.in[k].data(), dd.in[k].data() + (size_t)off * sz, (size_t)cnt * sz);
    sanitize(*refp, s2); call(*refp, s2, g_outbuf); memcpy(refout + (size_t)off * rs, g_outbuf, (size_t)cnt * rs);
  } else { memset(g_outbuf, 0, 4096); call(*refp, dd, g_outbuf); memcpy(refout, g_outbuf, 4096); }
  if (e.sig[0] == 'p') { int x, y; memcpy(&x, refout, 4); memcpy(&y, out, 4); bool bad = e.o == O_nbtrue ? x != y : (x != 0) != (y != 0); if (bad && msg) *msg = std::string(e.e.op) + ": C base " + std::to_string(x) + ", this layer " + std::to_string(y); return bad; }
  int es2 = e.o == O_addv ? sz : rs;
  for (int i = 0; i < bytes / es2; i++) { u64t x = rd(refout, i, es2), y = rd(out, i, es2); if (!lane_close(e.o, rt, x, y)) { 
      // both zero with different signs or fused/unfused differences are layer independent: same extension, same code
      if (scalar_mode && (e.o == O_fma || e.o == O_fms || e.o == O_fnma || e.o == O_fnms) && is_float(rt)) continue;
      if (scalar_mode && (e.o == O_ceil || e.o == O_floor || e.o == O_trunc || e.o == O_round_to_even) && feqz(rt, x, y)) continue;
      // NaN operands / equal zeros: either operand may be returned
      if (scalar_mode && (e.o == O_min || e.o == O_max) && is_float(rt)) { u64t a = rd(dd.in[0].data(), i, sz), b = rd(dd.in[1].data(), i, sz); if (isnan_bits(rt, a) || isnan_bits(rt, b) || (iszero_bits(rt, a) && iszero_bits(rt, b))) continue; }
      if (scalar_mode && e.o == O_reinterpret && e.t == F16 && isnan_bits(F16, x) && isnan_bits(F16, y)) continue; // NaN payload
      // approximations are only specified for normal (or zero, infinite) arguments
      if (scalar_mode && (e.o == O_rec8 || e.o == O_rec11 || e.o == O_rsqrt8 || e.o == O_rsqrt11)) { u64t a = rd(dd.in[0].data(), i, sz); double av = std::fabs(fval(rt, a)); if (av != 0 && av < (rt == F16 ? ldexp(1, -14) : rt == F32 ? (double)FLT_MIN : DBL_MIN)) continue; }
      if (msg) { *msg = std::string(e.e.op) + " element " + std::to_string(i) + ": C base " + lane_str(rt, x) + ", this layer " + lane_str(rt, y); for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] != 'p' && i < e.e.lanes) *msg += " arg" + std::to_string(k) + "=" + lane_str(e.t, rd(dd.in[k].data(), i, sz)); }
      return true; } }
  return false;
        }
static void run_diff(std::vector<Ent> &es, u64t seed, u64t iters, bool scalar_mode) {
  std::map<std::string, std::vector<int>> groups;
  for (size_t i = 0; i < es.size(); i++) groups[std::string(es[i].e.op) + ":" + es[i].e.t + ":" + es[i].e.to].push_back((int)i);
  for (auto &g : groups) {
    const Ent *ref = 0;
    for (int i : g.second) if (!strcmp(es[i].e.layer, "c")) ref = &es[i];
    if (!ref) continue;
    // f16 registers hold f32 lanes: bitwise operators on them are not specified bit for bit
    if (scalar_mode && bitwise(ref->o) && ref->t == F16) continue;
    set_cur(g.first); u64t kh = hash_str(g.first.c_str()); Rng r(seed * 1000003 + kh);
    int sz = ty_size(ref->t); Ty rt = ref->to == TNONE ? ref->t : ref->to; int rs = ty_size(rt);
    for (u64t it = 0; it < iters; it++) {
      // one super-case big enough for every layer
      int maxl = 0; for (int i : g.second) maxl = std::max(maxl, es[i].e.lanes);
      int RL = ref->e.lanes; maxl = (maxl + RL - 1) / RL * RL;
      Ent big = *ref; big.e.lanes = maxl; Case c = blank(big); gen_case(big, r, c);
      if (ref->o == O_abs && is_signed(ref->t)) for (int i = 0; i < maxl; i++) if (ival(ref->t, rd(c.in[0].data(), i, sz)) == imin(ref->t)) wr(c.in[0].data(), i, sz, 0);
      // reference results
      auto slice = [&](const Ent &e, int off) { Case d = blank(e); d.q = c.q; for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] != 'p') memcpy(d.in[k].data(), c.in[k].data() + (size_t)off * sz, (size_t)e.e.lanes * sz); return d; };
      bool ew = elementwise(ref->o);
      static u8t refout[16384], out[16384];
      if (ew) for (int off = 0; off + RL <= maxl; off += RL) { Case d = slice(*ref, off); call(*ref, d, g_outbuf); g_evals++; memcpy(refout + (size_t)off * rs, g_outbuf, (size_t)RL * rs); }
      bool distinct_lanes = false; if (ew) for (int i = 1; i < RL; i++) if (rd(refout, i, rs) != rd(refout, 0, rs)) distinct_lanes = true;
      if (distinct_lanes || !ew) g_dist.add(case_hash(*ref, c, kh));
      for (int gi : g.second) {
        const Ent &e = es[gi]; if (&e == ref) continue;
        if (!ew && e.e.lanes != RL) continue;
        Case d = slice(e, 0); memset(out, 0xA5, 256);
        g_evals++;
        if (layers_differ(e, ref, d, 0, scalar_mode) && layers_differ(e, ref, d, 0, scalar_mode)) {
          for (int k = 0; k < e.nin; k++) if (e.sig[k + 1] != 'p') for (int i = 0; i < e.e.lanes; i++) {
            u64t v = rd(d.in[k].data(), i, sz); Case t2 = d; wr(t2.in[k].data(), i, sz, 0); sanitize(e, t2); if (layers_differ(e, ref, t2, 0, scalar_mode)) { d = t2; continue; }
            for (int b = 8 * sz - 1; b >= 0; b--) if (v >> b & 1) { t2 = d; wr(t2.in[k].data(), i, sz, v & ~(1ull << b)); sanitize(e, t2); if (layers_differ(e, ref, t2, 0, scalar_mode)) { d = t2; v = rd(d.in[k].data(), i, sz); } }
          }
          std::string msg; layers_differ(e, ref, d, &msg, scalar_mode); Failure f; f.key = key_of(e); f.desc = msg; f.rep = rep_of(e, d) + "# " + msg + "\n"; g_fail.push_back(f);
          for (auto it2 = g.second.begin(); it2 != g.second.end(); ++it2) if (*it2 == gi) { g.second.erase(it2); break; }
          break;
        }
      }
      if (it == 3 && g_samples.size() < 6) { std::string s = g.first + " " + g_ext + " layers="; for (int i : g.second) s += std::string(es[i].e.layer) + ","; s += " arg0.lane0=" + lane_str(ref->t, rd(c.in.empty() ? (const void *)refout : c.in[0].data(), 0, sz)); g_samples.push_back(s); }
      if (g_fail.size() > g_maxfail) return;
    }
  }
}
int main(int argc, char **argv) {
  if (argc < 7) return 2;
#ifdef __SANITIZE_ADDRESS__
  __asan_set_death_callback(on_asan);
#endif
  std::string mode = argv[1]; g_ext = argv[3]; u64t seed = strtoull(argv[4], 0, 10), iters = strtoull(argv[5], 0, 10); g_out = argv[6];
  bool full = getenv("VP_FULL") != 0;
  void *h = dlopen(argv[2], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  std::vector<Ent> es;
  for (const char *nm : {"vp_table_cpp", "vp_table_c"}) {
    typedef const vp_entry *(*tf)(void); tf f = (tf)dlsym(h, nm); if (!f) continue;
    for (const vp_entry *e = f(); e->op; e++) {
      Ent x; x.e = *e; x.o = op_of(e->op); if (x.o == O_none) { fprintf(stderr, "unknown op %s\n", e->op); return 2; }
      x.t = ty_of(e->t); x.to = ty_of(e->to); x.sig = op_sig(x.o); x.nin = (int)strlen(x.sig) - 1;
      x.outb = std::min(4096, 4 * e->lanes * ty_size(x.t) + 64); es.push_back(x);
    }
  }
  g_outbuf = (u8t *)aligned_alloc(4096, OUTSZ); memset(g_outbuf, 0, OUTSZ);
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, on_sig);
  if (argc > 7) { // replay
    FILE *f = fopen(argv[7], "r"); if (!f) return 2; char *line = 0; size_t cap = 0; const Ent *e = 0; Case c; int k = 0; std::string want;
    while (getline(&line, &cap, f) > 0) {
      std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
      if (s.compare(0, 6, "entry ") == 0) { want = s.substr(6); for (auto &x : es) if (key_of(x) == want) e = &x; if (!e) return 4; c = blank(*e); }
      else if (s.compare(0, 3, "in ") == 0 && e) { auto v = unhex(s.substr(3)); for (size_t i = 0; i < v.size() && i < c.in[k].size(); i++) c.in[k][i] = v[i]; k++; }
      else if (s.compare(0, 1, "q") == 0 && e) { char *p = line + 1; for (size_t i = 0; i < c.q.size(); i++) c.q[i] = strtoll(p, &p, 10); }
    }
    if (!e) return 2;
    std::string msg; int bad = 0; 
    const Ent *ref = 0; for (auto &x : es) if (x.o == e->o && x.t == e->t && x.to == e->to && !strcmp(x.e.layer, "c")) ref = &x;
    for (int i = 0; i < 3; i++) bad += mode == "oracle" ? fails(*e, c, &msg, 0) : ref ? layers_differ(*e, ref, c, &msg, mode == "scalar") : 0;
    printf("replay %s: %s %s\n", want.c_str(), bad ? "FAILS" : "passes", msg.c_str());
    if (!g_fail.empty()) { dump(); }
    return bad ? 1 : 0;
  }
  if (mode == "diff" || mode == "scalar") { run_diff(es, seed, iters, mode == "scalar"); dump(); return 0; }
  for (auto &e : es) {
    std::string key = key_of(e); set_cur(key); u64t kh = hash_str(key.c_str()); Rng r(seed * 1000003 + kh);
    if (!exhaust(e, kh, seed, full && !strcmp(e.e.layer, "c"))) { if (g_fail.size() > g_maxfail) break; continue; }
    Case c = blank(e);
    u64t n = iters; if (!strcmp(e.e.layer, "c")) n *= 4;
    for (u64t i = 0; i < n; i++) { gen_case(e, r, c); if (!run_one(e, c, kh)) break; if (i == 7 && r.chance(1, 8)) sample(e, c); }
    if (g_fail.size() > g_maxfail) break;
  }
  dump(); return 0;
}
