#include "pio2_hard.hpp"
// Documented domains of the elementary functions and argument generators.
static bool is(const char *n, const char *list) { std::string s = std::string(" ") + list + " "; return s.find(std::string(" ") + n + " ") != std::string::npos; }
// 0: the value is not specified there. May change the bound (in ulps) and
// give an absolute error that is accepted as well.
static int domain(const char *fn, const std::string &op, Ty t, const std::string &layer, double a, double b, q ex, double *bd, double *slack) {
  double A = std::fabs(a), mins = t == F16 ? std::ldexp(1.0, -24) : t == F32 ? std::ldexp(1.0, -149) : std::ldexp(1.0, -1074);
  bool f32 = t != F64; // f16 goes through f32
  bool tiny = fabsq(ex) < (t == F16 ? (q)6.2e-5 : f32 ? (q)1e-33 : (q)1e-300); // products of small terms lose bits
  if (*bd == 0.5) *bd = tiny ? 0.6 : 0.51;
  else *bd *= 1.001; // the kernels reach their bound exactly in places
  *slack = 16 * mins; // around and below the smallest normal number
  std::string n = fn; (void)op; (void)layer;
  if (n == "sinh" || n == "cosh") return !std::isfinite(a) || A <= (f32 ? 88 : 709);
  if (n == "asinh" || n == "acosh") return !std::isfinite(a) || A <= (f32 ? 1.8e19 : 1.3e154);
  if (n == "log1p") return !std::isfinite(a) || a <= (f32 ? 1e38 : 1e307);
  if (n == "sinpi" || n == "cospi") return !std::isfinite(a) || A <= (f32 ? 1e7 / 4 : 1e9 / 4);
  if (n == "fmod" || n == "remainder") { *bd = 0; return !(std::isfinite(a) && std::isfinite(b) && b != 0) || std::fabs(a / b) <= (f32 ? 1e38 : 1e300); }
  if (n == "lgamma") { if (a < 0) *slack = f32 ? 1e-8 : 1e-15; return !std::isfinite(a) || A <= (f32 ? 4e36 : 2e305); }
  if (n == "tgamma" && a < 0 && fabsq(ex) < (f32 ? (q)1e-30 : (q)1e-290)) *bd = 64;
  return 1;
}
static u64t unif(Rng &r, Ty t, double lo, double hi) { double u = (double)(r.next() >> 11) / 9007199254740992.0; return enc_double(t, lo + (hi - lo) * u); }
static u64t nudge(Rng &r, Ty t, double v) { u64t x = enc_double(t, v); return (x + (u64t)r.range(-3, 3)) & ty_mask(t); }
static u64t gen_arg(Rng &r, const char *fn, Ty t, int which, u64t other) {
  if (r.chance(1, 8)) { u64t v = gen_flt(r, t); return v; }
  if (which == 1 && r.chance(1, 8)) return r.chance(1, 2) ? other : gen_related(r, t, other);
  double sg = r.chance(1, 2) ? 1 : -1; int k = (int)r.below(8);
  double emx = t == F16 ? 11 : t == F32 ? 88.7 : 709.7;
  if (is(fn, "sin cos tan")) {
    if (k < 2) return unif(r, t, -8, 8);
    if (k == 6 && t != F16 && r.chance(1, 2)) { double v = t == F32 ? (double)g_pio2_f32[r.below(sizeof g_pio2_f32 / sizeof *g_pio2_f32)] : g_pio2_f64[r.below(sizeof g_pio2_f64 / sizeof *g_pio2_f64)]; return r.chance(3, 4) ? enc_double(t, sg * v) : nudge(r, t, sg * v); }
    if (k == 2) return nudge(r, t, sg * 1.5707963267948966 * (double)r.below(r.chance(1, 2) ? 64 : (u64t)1 << r.below(34)));
    if (k == 3) return unif(r, t, -1000, 1000);
    if (k == 4) return nudge(r, t, sg * (r.chance(1, 2) ? 15.0 : r.chance(1, 2) ? 125.0 : r.chance(1, 2) ? 39000.0 : 1e14)); // range-reduction switches
    if (k == 5) return unif(r, t, -1e-3, 1e-3);
    double e = t == F32 ? 38 : t == F64 ? 307 : 4; return enc_double(t, sg * std::pow(10.0, e * (double)(r.next() >> 11) / 9007199254740992.0));
  }
  if (is(fn, "sinpi cospi")) { if (k < 3) return unif(r, t, -4, 4); if (k == 3) return nudge(r, t, sg * 0.25 * (double)r.below(4096)); if (k == 4) return unif(r, t, -1e-3, 1e-3); if (k == 5) return unif(r, t, -1e5, 1e5); return unif(r, t, -2.4e6, 2.4e6); }
  if (is(fn, "asin acos atanh")) { if (k < 4) return unif(r, t, -1, 1); if (k == 4) return nudge(r, t, sg * (1 - std::ldexp(1.0, -(int)r.below(f_mant(t) + 1)))); if (k == 5) return nudge(r, t, sg * 0.5); if (k == 6) return unif(r, t, -1e-4, 1e-4); return nudge(r, t, sg); }
  if (is(fn, "exp sinh cosh tanh expm1")) { if (k < 3) return unif(r, t, -4, 4); if (k == 3) return unif(r, t, -emx, emx); if (k == 4) return nudge(r, t, sg * 0.6931471805599453 * 0.5 * (double)r.below(256)); if (k == 5) return unif(r, t, -1e-3, 1e-3); if (k == 6) return unif(r, t, sg * emx * 0.97, sg * emx * 1.01); return unif(r, t, -1.2 * emx, 1.2 * emx); }
  if (is(fn, "exp2")) { double m = emx / 0.69314718; if (k < 3) return unif(r, t, -4, 4); if (k == 3) return unif(r, t, -m, m); if (k == 4) return nudge(r, t, sg * 0.5 * (double)r.below(300)); if (k == 5) return unif(r, t, -1e-3, 1e-3); return unif(r, t, -1.2 * m, 1.2 * m); }
  if (is(fn, "exp10")) { double m = emx / 2.302585; if (k < 3) return unif(r, t, -4, 4); if (k == 3) return unif(r, t, -m, m); if (k == 4) return nudge(r, t, sg * (double)r.below(40)); if (k == 5) return unif(r, t, -1e-3, 1e-3); return unif(r, t, -1.2 * m, 1.2 * m); }
  if (is(fn, "log log2 log10 log1p acosh")) {
    bool p1 = is(fn, "log1p"); double off = p1 ? -1 : 0;
    if (k < 2) return unif(r, t, 1 + off, 1.5 + off); if (k == 2) return unif(r, t, 0.5 + off, 4 + off); if (k == 3) return nudge(r, t, std::ldexp(1.0, (int)r.range(-20, 20)) + off); if (k == 4) return unif(r, t, 0 + off, 1000); if (k == 5) return unif(r, t, 0.999 + off, 1.001 + off);
    if (k == 6 && p1) return unif(r, t, -1e-4, 1e-4);
    double e = t == F32 ? 37 : t == F64 ? 300 : 4; return enc_double(t, std::pow(10.0, e * (2.0 * (double)(r.next() >> 11) / 9007199254740992.0 - 1)));
  }
  if (is(fn, "lgamma tgamma")) { double m = t == F32 ? 35 : t == F64 ? 171 : 9; if (k < 3) return unif(r, t, 0, 4); if (k == 3) return unif(r, t, -6, 0); if (k == 4) return nudge(r, t, 0.5 * (double)r.below(40)); if (k == 5) return unif(r, t, 0.9, 2.2); if (k == 6) return unif(r, t, -m, m); return unif(r, t, 0, fn[0] == 'l' ? 1000 : 1.02 * m); }
  if (is(fn, "erf erfc")) { if (k < 3) return unif(r, t, -3, 3); if (k == 3) return unif(r, t, -1, 1); if (k == 4) return unif(r, t, -6, 6); if (k == 5) return unif(r, t, -1e-3, 1e-3); return unif(r, t, 0, t == F64 ? 26 : 10); }
  if (is(fn, "pow")) { if (which == 0) { if (k < 3) return unif(r, t, 0, 10); if (k == 3) return unif(r, t, 0.9, 1.1); if (k == 4) return unif(r, t, -10, 0); if (k == 5) return nudge(r, t, (double)r.range(-20, 20)); return unif(r, t, 0, 1000); }
    if (k < 2) return unif(r, t, -10, 10); if (k == 2) return enc_double(t, (double)r.range(-20, 20)); if (k == 3) return enc_double(t, (double)r.range(-20, 20) + 0.5); if (k == 4) { double x = std::fabs(std::log(std::fabs(fval(t, other)))); return unif(r, t, -1.1 * emx / x, 1.1 * emx / x); } return unif(r, t, -100, 100); }
  if (is(fn, "fmod remainder")) { if (which == 0) { if (k < 4) return unif(r, t, -1000, 1000); return gen_flt(r, t); } double o = fval(t, other); if (k < 3) return unif(r, t, -10, 10); if (k == 3) return enc_double(t, o / (double)(1 + r.below(50))); if (k == 4) return enc_double(t, o / ((double)(r.below(50)) + 0.5)); return unif(r, t, -1000, 1000); }
  if (is(fn, "atan2 hypot")) { if (k < 3) return unif(r, t, -10, 10); if (k == 3 && which) return enc_double(t, sg * fval(t, other)); if (k == 4 && which) return enc_double(t, fval(t, other) * std::ldexp(1.0, (int)r.range(-60, 60))); return gen_flt(r, t); }
  // atan cbrt asinh
  if (k < 3) return unif(r, t, -10, 10); if (k == 3) return unif(r, t, -1, 1); if (k == 4) return unif(r, t, -1000, 1000); if (k == 5) return unif(r, t, -1e-4, 1e-4);
  return gen_flt(r, t);
}
