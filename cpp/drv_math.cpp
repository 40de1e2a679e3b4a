// Elementary functions against 113-bit references (libquadmath).
// usage: drv_math seed iters out.json op,op,... replay-or-- ext=lib.so ...
#include "common.hpp"
#include <algorithm>
#include <csignal>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <quadmath.h>
#include <unistd.h>
typedef __float128 q;
enum { B = 192 };
struct Fn { const char *name; int ar; q (*f1)(q); q (*f2)(q, q); };
static q r_exp10(q x) { return powq((q)10, x); }
static q r_sinpi(q x) { if (!finiteq(x)) return x - x; q r = fmodq(fabsq(x), 2), s = x < 0 ? -1 : 1; if (r == 0 || r == 1) return copysignq(0, x); // exact argument reduction
  if (r > 1) { r -= 1; s = -s; } if (r > 0.5Q) r = 1 - r; return s * (r <= 0.25Q ? sinq(M_PIq * r) : cosq(M_PIq * (0.5Q - r))); }
static q r_cospi(q x) { if (!finiteq(x)) return x - x; q r = fmodq(fabsq(x), 2); if (r > 1) r = 2 - r; if (r == 0.5Q) return 0; q s = 1; if (r > 0.5Q) { r = 1 - r; s = -1; } return s * (r <= 0.25Q ? cosq(M_PIq * r) : sinq(M_PIq * (0.5Q - r))); }
static q r_tgamma(q x) { if (x < 0 && finiteq(x) && x == floorq(x)) return nanq(""); return tgammaq(x); }
static const Fn FN[] = {{"sin", 1, sinq, 0}, {"cos", 1, cosq, 0}, {"tan", 1, tanq, 0}, {"asin", 1, asinq, 0}, {"acos", 1, acosq, 0}, {"atan", 1, atanq, 0}, {"log", 1, logq, 0}, {"cbrt", 1, cbrtq, 0}, {"exp", 1, expq, 0}, {"sinh", 1, sinhq, 0}, {"cosh", 1, coshq, 0}, {"tanh", 1, tanhq, 0}, {"asinh", 1, asinhq, 0}, {"acosh", 1, acoshq, 0}, {"atanh", 1, atanhq, 0}, {"exp2", 1, exp2q, 0}, {"exp10", 1, r_exp10, 0}, {"expm1", 1, expm1q, 0}, {"log10", 1, log10q, 0}, {"log2", 1, log2q, 0}, {"log1p", 1, log1pq, 0}, {"sinpi", 1, r_sinpi, 0}, {"cospi", 1, r_cospi, 0}, {"lgamma", 1, lgammaq, 0}, {"tgamma", 1, r_tgamma, 0}, {"erf", 1, erfq, 0}, {"erfc", 1, erfcq, 0}, {"atan2", 2, 0, atan2q}, {"pow", 2, 0, powq}, {"hypot", 2, 0, hypotq}, {"remainder", 2, 0, remainderq}, {"fmod", 2, 0, fmodq}};
struct Ent { vp_entry e; std::string ext; std::string key; double worst = 0; u64t wa = 0, wb = 0; };
struct Failure { std::string key, desc, rep; };
static std::vector<Failure> g_fail; static u64t g_evals = 0; static Distinct g_dist; static std::vector<std::string> g_samples; static std::string g_out;
static bool g_stat = false;
static const Fn *fn_of(const std::string &op) { std::string b = op.substr(0, op.find("_u")); for (auto &f : FN) if (b == f.name) return &f; return 0; }
static double bound_of(const std::string &op) { size_t p = op.find("_u"); if (p == std::string::npos) return 0; return atoi(op.c_str() + p + 2) / 10.0; }
static q val(Ty t, u64t v) { return (q)fval(t, v); }
static int emin_of(Ty t) { return t == F16 ? -14 : t == F32 ? -126 : -1022; }
static q max_of(Ty t) { return t == F16 ? 65504.0Q : t == F32 ? (q)FLT_MAX : (q)DBL_MAX; }
static q ulp_of(Ty t, q x) { int e; x = fabsq(x); if (x == 0) e = emin_of(t); else { frexpq(x, &e); e--; if (e < emin_of(t)) e = emin_of(t); } return ldexpq(1, e - f_mant(t)); }
#include "math_dom.hpp"
// Error of one result. Returns "" or what is wrong.
static std::string judge(const std::string &op, const Fn *f, Ty t, const std::string &layer, u64t a, u64t b, q ex, u64t g, double *err) {
  *err = 0; double bd = bound_of(op), A = fval(t, a), Bv = fval(t, b);
  double slack = 0; int dom = domain(f->name, op, t, layer, A, Bv, ex, &bd, &slack);
  if (!dom) return "";
  char s[200]; q gv = val(t, g); bool gn = isnan_bits(t, g);
  if (isnanq(ex)) { if (gn) return ""; snprintf(s, 200, "got %s, expected NaN", lane_str(t, g).c_str()); return s; }
  if (gn) { snprintf(s, 200, "got NaN, expected %.20Lg", (long double)ex); return s; }
  q M = max_of(t);
  if (fabsq(ex) > M * (1 - (f->name == std::string("pow") ? 4096 : 8) * ldexpq(1, -f_mant(t)))) { // overflow region
    if ((ex > 0) == (gv > 0) && fabsq(gv) >= M * (1 - 16 * ldexpq(1, -f_mant(t)))) return "";
    if (finiteq(ex) && finiteq(gv) && fabsq(gv - ex) <= (q)(bd + 1) * ulp_of(t, ex)) return "";
    snprintf(s, 200, "got %s, expected %.20Lg", lane_str(t, g).c_str(), (long double)ex); return s;
  }
  if (!finiteq(gv)) { snprintf(s, 200, "got %s, expected %.20Lg", lane_str(t, g).c_str(), (long double)ex); return s; }
  q u = ulp_of(t, ex); q e = fabsq(gv - ex) / u; *err = (double)e;
  if (ex == 0 && !iszero_bits(t, g) && e > (q)slack) { snprintf(s, 200, "got %s, expected 0", lane_str(t, g).c_str()); return s; }
  if (e <= (q)bd || fabsq(gv - ex) <= (q)slack) return "";
  snprintf(s, 200, "got %s, exact %.20Lg, error %.4g ulp, bound %g", lane_str(t, g).c_str(), (long double)ex, (double)e, bd); return s;
}
static void call(const Ent &e, const u8t *a, const u8t *b, u8t *o) { void *p[4] = {o, (void *)a, (void *)b, 0}; long long qq[4] = {0}; e.e.fn(p, qq); }
static void dump() {
  FILE *f = fopen(g_out.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"samples\":[", (unsigned long long)g_evals, (unsigned long long)g_dist.count);
  for (size_t i = 0; i < g_samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_samples[i]).c_str());
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < g_fail.size(); i++) fprintf(f, "%s{\"key\":\"%s\",\"desc\":\"%s\",\"replay\":\"%s\"}", i ? "," : "", jesc(g_fail[i].key).c_str(), jesc(g_fail[i].desc).c_str(), jesc(g_fail[i].rep).c_str());
  fprintf(f, "]}\n"); fclose(f);
}
static std::string g_cur;
static void on_sig(int s) { g_fail.push_back({"crash:" + g_cur, "signal " + std::to_string(s) + " in " + g_cur, "entry " + g_cur + "\n"}); dump(); _exit(0); }
int main(int argc, char **argv) {
  if (argc < 7) return 2;
  u64t seed = strtoull(argv[1], 0, 10), iters = strtoull(argv[2], 0, 10); g_out = argv[3]; g_stat = getenv("VP_STAT") != 0;
  std::vector<std::string> ops; { std::string s = argv[4]; size_t p = 0; while (p <= s.size()) { size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); ops.push_back(s.substr(p, e - p)); p = e + 1; } }
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, on_sig);
  std::vector<Ent> es;
  for (int i = 6; i < argc; i++) {
    std::string s = argv[i]; size_t p = s.find('='); void *h = dlopen(s.c_str() + p + 1, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    for (const char *nm : {"vp_table_cpp", "vp_table_c"}) { typedef const vp_entry *(*tf)(void); tf f = (tf)dlsym(h, nm); if (!f) continue;
      for (const vp_entry *e = f(); e->op; e++) if (std::find(ops.begin(), ops.end(), e->op) != ops.end() || ops[0] == "*") { Ent x; x.e = *e; x.ext = s.substr(0, p); x.key = std::string(e->op) + ":" + e->t + ":" + x.ext + ":" + e->layer; es.push_back(x); } }
  }
  if (strcmp(argv[5], "-")) { // replay: entry and lane contents
    FILE *f = fopen(argv[5], "r"); char line[70000]; Ent *e = 0; std::vector<u8t> a, b;
    while (fgets(line, sizeof line, f)) { std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.compare(0, 6, "entry ")) { for (auto &x : es) if (x.key == s.substr(6)) e = &x; } else if (!s.compare(0, 2, "a ")) a = unhex(s.substr(2)); else if (!s.compare(0, 2, "b ")) b = unhex(s.substr(2)); }
    if (!e) return 4; Ty t = ty_of(e->e.t); int sz = ty_size(t), bad = 0; const Fn *fn = fn_of(e->e.op); std::vector<u8t> o(B * 8); b.resize(a.size()); call(*e, a.data(), b.data(), o.data());
    for (int i = 0; i < e->e.lanes; i++) { u64t x = rd(a.data(), i, sz), y = rd(b.data(), i, sz); double er; q ex = fn->ar == 1 ? fn->f1(val(t, x)) : fn->f2(val(t, x), val(t, y)); std::string w = judge(e->e.op, fn, t, e->e.layer, x, y, ex, rd(o.data(), i, sz), &er); if (!w.empty()) { printf("replay %s FAILS lane %d: %s\n", e->key.c_str(), i, w.c_str()); bad = 1; } }
    if (!bad) printf("replay passes\n"); return bad;
  }
  for (auto &op : ops) for (Ty t : {F32, F64, F16}) {
    const Fn *fn = fn_of(op); if (!fn) { fprintf(stderr, "op %s\n", op.c_str()); return 2; }
    std::vector<Ent *> me; for (auto &e : es) if (op == e.e.op && ty_of(e.e.t) == t) me.push_back(&e);
    if (me.empty()) { fprintf(stderr, "no entry %s\n", op.c_str()); return 2; }
    int sz = ty_size(t); Rng r(seed * 7919 + hash_str(op.c_str()) + t); u64t n = t == F16 ? iters / 3 + 1 : iters;
    if (t == F16 && fn->ar == 1 && n < 65536 / B + 1) n = 65536 / B + 1;
    std::vector<u8t> a(B * 8), b(B * 8), o(B * 8);
    for (u64t it = 0; it < n; it++) {
      q ex[B]; int mode = (int)r.below(4); u64t base = gen_arg(r, fn->name, t, 0, 0), base2 = gen_arg(r, fn->name, t, 1, base);
      for (int i = 0; i < B; i++) {
        u64t x, y = 0;
        if (t == F16 && fn->ar == 1 && it * B < 65536) x = (it * B + i) & 0xffff;
        else if (mode == 0) { x = (base + (u64t)r.range(-40, 40)) & ty_mask(t); if (isnan_bits(t, x)) x = base; }
        else x = gen_arg(r, fn->name, t, 0, 0);
        if (fn->ar == 2) { y = mode == 0 ? (base2 + (u64t)r.range(-40, 40)) & ty_mask(t) : gen_arg(r, fn->name, t, 1, x); }
        wr(a.data(), i, sz, x); wr(b.data(), i, sz, y);
        q X = val(t, x), Y = val(t, y);
        ex[i] = fn->ar == 1 ? fn->f1(X) : fn->f2(X, Y);
      }
      g_dist.add(hash_bytes(b.data(), B * sz, hash_bytes(a.data(), B * sz, hash_str(op.c_str()) + t)));
      if (it == 3 && g_samples.size() < 6) g_samples.push_back(op + " " + ty_name[t] + " lane 0: " + lane_str(t, rd(a.data(), 0, sz)) + (fn->ar == 2 ? ", " + lane_str(t, rd(b.data(), 0, sz)) : "") + " lane 1: " + lane_str(t, rd(a.data(), 1, sz)));
      for (auto *e : me) {
        if (e->worst < 0) continue; // already reported
        if (strcmp(e->e.layer, "c") && strcmp(e->e.layer, "s") && it % 8) continue;
        int L = e->e.lanes; g_cur = e->key;
        for (int c0 = 0; c0 + L <= B && e->worst >= 0; c0 += L) {
          call(*e, &a[(size_t)c0 * sz], &b[(size_t)c0 * sz], o.data()); g_evals++;
          for (int i = 0; i < L; i++) {
            u64t x = rd(a.data(), c0 + i, sz), y = rd(b.data(), c0 + i, sz); double er; std::string w = judge(op, fn, t, e->e.layer, x, y, ex[c0 + i], rd(o.data(), i, sz), &er);
            if (g_stat && w.empty() && er > e->worst) { e->worst = er; e->wa = x; e->wb = y; }
            if (!w.empty()) { // shrink: same value in every lane if that still fails
              std::vector<u8t> sa(a.begin() + (size_t)c0 * sz, a.begin() + (size_t)(c0 + L) * sz), sb(b.begin() + (size_t)c0 * sz, b.begin() + (size_t)(c0 + L) * sz), ta = sa, tb = sb, to(B * 8);
              for (int k = 0; k < L; k++) { wr(ta.data(), k, sz, x); wr(tb.data(), k, sz, y); } call(*e, ta.data(), tb.data(), to.data()); double e2; if (!judge(op, fn, t, e->e.layer, x, y, ex[c0 + i], rd(to.data(), i, sz), &e2).empty()) { sa = ta; sb = tb; }
              std::string d = op + "(" + lane_str(t, x) + (fn->ar == 2 ? ", " + lane_str(t, y) : "") + "): " + w;
              g_fail.push_back({e->key, d, "entry " + e->key + "\na " + hex(sa.data(), sa.size()) + "\nb " + hex(sb.data(), sb.size()) + "\n# " + d + "\n"}); if (!g_stat) e->worst = -1; else e->worst = std::max(e->worst, er); if (g_stat) { printf("FAIL %s %s\n", e->key.c_str(), d.c_str()); e->worst = -1; } break;
            }
          }
        }
      }
    }
    if (g_stat) { std::map<std::string, double> mx; for (auto *e : me) { double &m = mx[e->ext + (e->e.layer[0] == 's' ? ":s" : "")]; m = std::max(m, e->worst); } printf("%-12s %s", op.c_str(), ty_name[t]); for (auto &k : mx) printf(" %s=%.3f", k.first.c_str(), k.second); printf("\n"); fflush(stdout); }
  }
  dump(); return 0;
}
