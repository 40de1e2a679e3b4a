// Independent per-lane reference semantics of the nsimd operators.
#ifndef VP_ORACLE_HPP
#define VP_ORACLE_HPP
#include "common.hpp"
#define OPS(X) X(orb) X(andb) X(andnotb) X(xorb) X(notb) X(orl) X(andl) \
  X(andnotl) X(xorl) X(notl) X(add) X(sub) X(mul) X(div) X(neg) X(min) X(max) \
  X(adds) X(subs) X(shr) X(shl) X(shra) X(eq) X(ne) X(gt) X(ge) X(lt) X(le) \
  X(if_else1) X(abs) X(fma) X(fnma) X(fms) X(fnms) X(ceil) X(floor) X(trunc) \
  X(round_to_even) X(all) X(any) X(nbtrue) X(reinterpret) X(reinterpretl) \
  X(cvt) X(upcvt) X(downcvt) X(rec) X(rec11) X(rec8) X(sqrt) X(rsqrt11) \
  X(rsqrt8) X(ziplo) X(ziphi) X(unziplo) X(unziphi) X(zip) X(unzip) \
  X(to_mask) X(to_logical) X(addv)
enum Op {
#define X(n) O_##n,
  OPS(X)
#undef X
  O_none
};
static inline Op op_of(const char *s) {
#define X(n) if (!strcmp(s, #n)) return O_##n;
  OPS(X)
#undef X
  return O_none;
}
// kind of each parameter: v vector, l logical, p int; first char = result
static inline const char *op_sig(Op o) {
  switch (o) {
  case O_orb: case O_andb: case O_andnotb: case O_xorb: case O_add: case O_sub:
  case O_mul: case O_div: case O_min: case O_max: case O_adds: case O_subs:
  case O_ziplo: case O_ziphi: case O_unziplo: case O_unziphi: case O_downcvt:
    return "vvv";
  case O_orl: case O_andl: case O_andnotl: case O_xorl: return "lll";
  case O_notl: case O_reinterpretl: return "ll";
  case O_shr: case O_shl: case O_shra: return "vvp";
  case O_eq: case O_ne: case O_gt: case O_ge: case O_lt: case O_le: return "lvv";
  case O_if_else1: return "vlvv";
  case O_fma: case O_fnma: case O_fms: case O_fnms: return "vvvv";
  case O_all: case O_any: case O_nbtrue: return "pl";
  case O_zip: case O_unzip: return "2vv";
  case O_upcvt: return "2v";
  case O_to_mask: return "vl";
  case O_to_logical: return "lv";
  case O_addv: return "sv";
  default: return "vv";
  }
}
struct Verdict { bool ok; u64t exp; };
static inline float op32(Op o, float a, float b) {
  switch (o) {
  case O_add: case O_adds: return a + b;
  case O_sub: case O_subs: return a - b;
  case O_mul: return a * b;
  case O_div: return a / b;
  case O_sqrt: return std::sqrt(a);
  case O_rec: return 1.0f / a;
  default: return 0;
  }
}
static inline double op64(Op o, double a, double b) {
  switch (o) {
  case O_add: case O_adds: return a + b;
  case O_sub: case O_subs: return a - b;
  case O_mul: return a * b;
  case O_div: return a / b;
  case O_sqrt: return std::sqrt(a);
  case O_rec: return 1.0 / a;
  default: return 0;
  }
}
static inline bool truth(Ty t, u64t v) { return !iszero_bits(t, v); }
static inline u64t one_of(Ty t) { return is_float(t) ? enc_double(t, 1.0) : 1; }

static inline u64t int_to_float(Ty to, i128t v, bool *dbl, u64t *alt) {
  // round to nearest even in one step; *alt: through an intermediate float
  *dbl = false;
  if (to == F64) {
    double d = v < 0 ? -(double)(u64t)(-v) : (double)(u64t)v; return d2b(d);
  }
  if (to == F32) {
    float f = v < 0 ? -(float)(u64t)(-v) : (float)(u64t)v;
    double d = v < 0 ? -(double)(u64t)(-v) : (double)(u64t)v;
    *dbl = true; *alt = f2b((float)d); return f2b(f);
  }
  double d = v < 0 ? -(double)(u64t)(-v) : (double)(u64t)v; // exact: |v| < 2^53
  *dbl = true; *alt = d2h((double)(float)d); return d2h(d);
}
// conversion of one lane
static inline bool conv_ok(Ty t, Ty to, u64t a, u64t got, u64t *exp) {
  if (is_int(t) && is_int(to)) { *exp = (u64t)ival(t, a) & ty_mask(to); return got == *exp; }
  if (is_int(t)) {
    bool d; u64t alt = 0; *exp = int_to_float(to, ival(t, a), &d, &alt);
    return got == *exp || (d && got == alt);
  }
  if (is_int(to)) { // caller guarantees an integral in-range value
    double d = fval(t, a); i128t v = (i128t)d; *exp = (u64t)v & ty_mask(to);
    return got == *exp;
  }
  double d = fval(t, a);
  *exp = enc_double(to, d);
  if (t == F64 && to == F16) return false;
  return feq(to, got, *exp);
}
// is the lane within the specified domain of the conversion?
static inline bool conv_domain(Ty t, Ty to, u64t a) {
  if (!(is_float(t) && is_int(to))) return true;
  double d = fval(t, a);
  if (!(std::fabs(d) < 2e19)) return false;
  if (d != std::floor(d)) return false;
  i128t v = (i128t)d;
  return v >= imin(to) && v <= imax(to);
}
static inline u64t gen_conv(Rng &r, Ty t, Ty to) {
  if (!(is_float(t) && is_int(to))) return gen_val(r, t);
  for (int k = 0; k < 50; k++) {
    u64t v;
    if (r.chance(1, 2)) v = enc_double(t, (double)(long double)ival(to, gen_int(r, to)));
    else v = enc_double(t, std::trunc(fval(t, gen_flt(r, t))));
    if (conv_domain(t, to, v)) return v;
  }
  return 0;
}

static inline Verdict lane(Op o, Ty t, Ty to, u64t a, u64t b, u64t c, int p, u64t got) {
  Verdict v; v.ok = true; v.exp = 0; u64t M = ty_mask(t); int bits = 8 * ty_size(t);
#define RET_EXACT(e) do { v.exp = (u64t)(e) & M; v.ok = got == v.exp; return v; } while (0)
#define RET_BOOL(e) do { v.exp = (e) ? one_of(t) : 0; v.ok = got == v.exp; return v; } while (0)
  if (t == F16 && (o == O_orb || o == O_andb || o == O_andnotb || o == O_xorb || o == O_notb)) {
    // f16 registers may hold f32 lanes: the operation acts on the 16 bits or
    // on the 32 bits of the widened operands
    u64t w[2], x[2] = {a, b};
    for (int k = 0; k < 2; k++) { if (isnan_bits(F16, x[k])) return v; w[k] = f2b((float)h2d(x[k])); }
    u64t n = o == O_orb ? a | b : o == O_andb ? a & b : o == O_andnotb ? a & ~b : o == O_xorb ? a ^ b : ~a;
    u64t m = o == O_orb ? w[0] | w[1] : o == O_andb ? w[0] & w[1] : o == O_andnotb ? w[0] & ~w[1] : o == O_xorb ? w[0] ^ w[1] : ~w[0];
    v.exp = n & M; u64t e2 = d2h((double)b2f(m & 0xffffffffu));
    v.ok = got == v.exp || feq(F16, got, e2); return v;
  }
  switch (o) {
  case O_orb: RET_EXACT(a | b);
  case O_andb: RET_EXACT(a & b);
  case O_andnotb: RET_EXACT(a & ~b);
  case O_xorb: RET_EXACT(a ^ b);
  case O_notb: RET_EXACT(~a);
  case O_orl: RET_BOOL(truth(t, a) || truth(t, b));
  case O_andl: RET_BOOL(truth(t, a) && truth(t, b));
  case O_andnotl: RET_BOOL(truth(t, a) && !truth(t, b));
  case O_xorl: RET_BOOL(truth(t, a) != truth(t, b));
  case O_notl: RET_BOOL(!truth(t, a));
  case O_reinterpretl:
    v.exp = truth(t, a) ? one_of(to) : 0; v.ok = got == v.exp; return v;
  case O_to_mask:
    v.exp = truth(t, a) ? M : 0;
    v.ok = got == v.exp || (t == F16 && v.exp && isnan_bits(F16, got));
    return v;
  case O_to_logical: RET_BOOL((a & M) != 0);
  case O_shl: RET_EXACT(a << p);
  case O_shr: RET_EXACT((a & M) >> p);
  case O_shra:
    if (is_signed(t)) RET_EXACT(sext(a & M, bits) >> p);
    RET_EXACT((a & M) >> p);
  case O_eq: case O_ne: case O_lt: case O_le: case O_gt: case O_ge: {
    int lt, eq, un = 0;
    if (is_float(t)) {
      double x = fval(t, a), y = fval(t, b);
      un = std::isnan(x) || std::isnan(y); lt = x < y; eq = x == y;
    } else { i128t x = ival(t, a), y = ival(t, b); lt = x < y; eq = x == y; }
    int gt = !un && !lt && !eq; bool r = false;
    if (o == O_eq) r = eq; if (o == O_ne) r = !eq; if (o == O_lt) r = lt;
    if (o == O_le) r = lt || eq; if (o == O_gt) r = gt; if (o == O_ge) r = gt || eq;
    RET_BOOL(r);
  }
  case O_if_else1: {
    v.exp = truth(t, a) ? b : c;
    v.ok = is_float(t) ? feq(t, got, v.exp) : got == v.exp; return v;
  }
  case O_reinterpret:
    v.exp = a;
    // f16 registers hold wider lanes: a NaN may change payload
    v.ok = got == a || ((t == F16 || to == F16) && isnan_bits(F16, a) && isnan_bits(F16, got));
    return v;
  case O_cvt: case O_upcvt: case O_downcvt:
    if (!conv_domain(t, to, a)) return v;
    v.ok = conv_ok(t, to, a, got, &v.exp); return v;
  case O_min: case O_max: {
    if (is_float(t)) {
      double x = fval(t, a), y = fval(t, b);
      if (std::isnan(x) || std::isnan(y) || x == y) {
        v.exp = b; v.ok = feq(t, got, a) || feq(t, got, b); return v;
      }
      v.exp = ((o == O_min) == (x < y)) ? a : b; v.ok = got == v.exp; return v;
    }
    i128t x = ival(t, a), y = ival(t, b);
    RET_EXACT(((o == O_min) == (x < y)) ? a : b);
  }
  default: break;
  }
  if (is_int(t)) {
    i128t x = ival(t, a), y = ival(t, b), z = ival(t, c), lo = imin(t), hi = imax(t);
    switch (o) {
    case O_add: RET_EXACT(a + b);
    case O_sub: RET_EXACT(a - b);
    case O_mul: RET_EXACT(a * b);
    case O_neg: RET_EXACT(0 - a);
    case O_fma: RET_EXACT(a * b + c);
    case O_fms: RET_EXACT(a * b - c);
    case O_fnma: RET_EXACT(0 - a * b + c);
    case O_fnms: RET_EXACT(0 - a * b - c);
    case O_div: if (y == 0 || x / y > hi) return v; RET_EXACT((u64t)(x / y));
    case O_abs: if (is_signed(t) && x == lo) return v; RET_EXACT((u64t)(x < 0 ? -x : x));
    case O_adds: { i128t s = x + y; RET_EXACT((u64t)(s < lo ? lo : s > hi ? hi : s)); }
    case O_subs: { i128t s = x - y; RET_EXACT((u64t)(s < lo ? lo : s > hi ? hi : s)); }
    case O_ceil: case O_floor: case O_trunc: case O_round_to_even: RET_EXACT(a);
    default: (void)z; return v;
    }
  }
  // floats
  u64t sb = (M >> 1) + 1;
  switch (o) {
  case O_neg: v.exp = a ^ sb; v.ok = feq(t, got, v.exp); return v;
  case O_abs: v.exp = a & ~sb; v.ok = feq(t, got, v.exp); return v;
  case O_add: case O_sub: case O_mul: case O_div: case O_sqrt: case O_rec:
  case O_adds: case O_subs:
    if (t == F64) v.exp = d2b(op64(o, b2d(a), b2d(b)));
    else if (t == F32) v.exp = f2b(op32(o, b2f(a), b2f(b)));
    else v.exp = d2h((double)op32(o, (float)h2d(a), (float)h2d(b)));
    v.ok = feq(t, got, v.exp); return v;
  case O_fma: case O_fms: case O_fnma: case O_fnms: {
    int sa = (o == O_fnma || o == O_fnms) ? -1 : 1, sc = (o == O_fms || o == O_fnms) ? -1 : 1;
    if (t == F64) {
      volatile double x = sa * b2d(a), y = b2d(b), z = sc * b2d(c); volatile double m = x * y;
      u64t e1 = d2b(std::fma((double)x, (double)y, (double)z)), e2 = d2b(m + z);
      v.exp = e1; v.ok = feq(t, got, e1) || feq(t, got, e2);
      // a zero result may come with either sign when obtained as -(a*b-c)
      if (!v.ok && iszero_bits(t, e1)) v.ok = iszero_bits(t, got);
      if (!v.ok && iszero_bits(t, e2)) v.ok = iszero_bits(t, got);
    } else {
      volatile float x = sa * (t == F32 ? b2f(a) : (float)h2d(a)), y = t == F32 ? b2f(b) : (float)h2d(b),
                     z = sc * (t == F32 ? b2f(c) : (float)h2d(c));
      volatile float m = x * y; float r1 = std::fma((float)x, (float)y, (float)z), r2 = m + z;
      u64t e1 = t == F32 ? f2b(r1) : d2h(r1), e2 = t == F32 ? f2b(r2) : d2h(r2);
      v.exp = e1; v.ok = feq(t, got, e1) || feq(t, got, e2);
      if (!v.ok && iszero_bits(t, e1)) v.ok = iszero_bits(t, got);
      if (!v.ok && iszero_bits(t, e2)) v.ok = iszero_bits(t, got);
    }
    return v;
  }
  case O_ceil: case O_floor: case O_trunc: case O_round_to_even: {
    double x = fval(t, a), r;
    if (std::isnan(x)) { v.exp = a; v.ok = isnan_bits(t, got); return v; }
    r = o == O_ceil ? std::ceil(x) : o == O_floor ? std::floor(x)
        : o == O_trunc ? std::trunc(x) : std::nearbyint(x);
    v.exp = enc_double(t, r); v.ok = feqz(t, got, v.exp); return v;
  }
  case O_rec11: case O_rec8: case O_rsqrt11: case O_rsqrt8: {
    double x = fval(t, a), e; int bitsp = (o == O_rec11 || o == O_rsqrt11) ? 11 : 8;
    bool rs = o == O_rsqrt11 || o == O_rsqrt8;
    v.exp = 0;
    if (std::isnan(x)) return v;
    if (rs && x < 0) return v;
    double mn = t == F16 ? ldexp(1, -14) : t == F32 ? (double)FLT_MIN : DBL_MIN;
    double mx = t == F16 ? 65504.0 : t == F32 ? (double)FLT_MAX : DBL_MAX;
    if (x == 0) { v.exp = enc_double(t, rs ? INFINITY : 1.0 / x); v.ok = rs ? isinf_bits(t, got) : got == v.exp; return v; }
    if (std::isinf(x)) { v.exp = enc_double(t, 1.0 / x); v.ok = iszero_bits(t, got); return v; }
    if (std::fabs(x) < mn) return v; // subnormal argument: not specified
    e = rs ? 1.0 / std::sqrt(x) : 1.0 / x;
    v.exp = enc_double(t, e);
    if (std::fabs(e) < mn * 1.01 || std::fabs(e) > mx) return v; // result not normal (or next to it)
    double g = fval(t, got), rel = std::fabs(g - e) / std::fabs(e);
    // f16: the stored result is additionally rounded to 11 bits
    double tol = ldexp(1.0, -bitsp); if (t == F16) tol += ldexp(1.0, -11);
    v.ok = rel <= tol; return v;
  }
  default: return v;
  }
#undef RET_EXACT
#undef RET_BOOL
}
#endif
