// Fixed-point numbers against exact integer arithmetic.
#include "prog.hpp"
#include <cmath>
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/fixed_point.hpp>
using namespace vp; namespace fx = nsimd::fixed_point;
typedef __int128 s128;
static std::string str(long long v) { return std::to_string(v); }
struct Case { long long a[64], b[64], c[64]; float f; int sh; };
template <int LF, int RT> struct Fmt {
  typedef fx::fp_t<LF, RT> F; typedef typename F::value_type R; typedef typename F::logical_type LT; typedef fx::pack<F> P; typedef fx::packl<F> PL;
  static const int BITS = 8 * (int)sizeof(R);
  static std::string name() { return "fp<" + std::to_string(LF) + "," + std::to_string(RT) + ">"; }
  static s128 rmax() { return ((s128)1 << (BITS - 1)) - 1; } static s128 rmin() { return -((s128)1 << (BITS - 1)); }
  static bool fits(s128 v) { return v >= rmin() && v <= rmax(); }
  static F mk(long long r) { F x; x._raw = (R)r; return x; }
  static bool infmt(long long r) { int n = LF + RT - 1; s128 m = (s128)1 << n; return r >= -m && r < m; }
  // Lane-wise reference of every operation; 0: not specified for the operands
  static int ref(int op, long long a, long long b, long long c, s128 *o) {
    s128 A = a, B = b, C = c, t;
    switch (op) {
    case 0: t = A + B; break; case 1: t = A - B; break;
    case 2: t = A * B; if (!fits(t)) return 0; t >>= RT; break;
    case 3: if (!b) return 0; t = A * ((s128)1 << RT); if (!fits(t)) return 0; t = t / B; break;
    case 4: t = A * B; if (!fits(t)) return 0; t = (t >> RT) + C; break;
    case 5: t = A < B ? A : B; break; case 6: t = A > B ? A : B; break;
    case 7: t = A < 0 ? -A : A; break;
    case 8: if (!b || LF < 2) return 0; t = ((s128)1 << (2 * RT)) / B; break; // rec(b)
    case 9: t = A & B; break; case 10: t = A | B; break; case 11: t = A ^ B; break; case 12: t = A & ~B; break; case 13: t = ~A; break;
    case 14: t = A < C ? A : B; break; // if_else1(a < c, a, b)
    default: return 0;
    }
    *o = t; return fits(t);
  }
  static std::string chk(const char *what, int lane, s128 got, s128 exp, long long a, long long b) { if (got == exp) return ""; return std::string(what) + ": got raw " + str((long long)got) + ", expected " + str((long long)exp) + " for raw operands " + str(a) + ", " + str(b) + " (lane " + std::to_string(lane) + ")"; }
  static std::string scalar(const Case &k, int i) {
    long long a = k.a[i], b = k.b[i]; F x = mk(a), y = mk(b); s128 e; std::string w;
#define S(what, got, exp) if (!(w = chk("scalar " what, i, (s128)(got), (s128)(exp), a, b)).empty()) return w;
    if (ref(0, a, b, 0, &e)) { S("add", fx::add(x, y)._raw, e) S("+", (x + y)._raw, e) F z = x; z += y; S("+=", z._raw, e) }
    if (ref(1, a, b, 0, &e)) { S("sub", fx::sub(x, y)._raw, e) S("-", (x - y)._raw, e) F z = x; z -= y; S("-=", z._raw, e) }
    if (ref(2, a, b, 0, &e)) { S("mul", fx::mul(x, y)._raw, e) S("*", (x * y)._raw, e) F z = x; z *= y; S("*=", z._raw, e) }
    if (ref(3, a, b, 0, &e)) { S("div", fx::div(x, y)._raw, e) S("/", (x / y)._raw, e) F z = x; z /= y; S("/=", z._raw, e) }
    if (fits(-(s128)a)) { S("neg", fx::neg(x)._raw, -(s128)a) S("unary -", (-x)._raw, -(s128)a) }
    S("lt", fx::lt(x, y), a < b) S("<", (x < y), a < b) S("lte", fx::lte(x, y), a <= b) S("<=", (x <= y), a <= b) S("gt", fx::gt(x, y), a > b) S(">", (x > y), a > b) S("gte", fx::gte(x, y), a >= b) S(">=", (x >= y), a >= b) S("==", (x == y), a == b) S("!=", (x != y), a != b)
    s128 d = (s128)a - b; if (fits(d)) { S("equal_ulp", fx::equal_ulp(x, y, k.sh), d <= k.sh && d >= -k.sh) }
    S("bitwise_and", fx::bitwise_and(x, (R)b)._raw, (R)(a & b)) S("&", (x & (R)b)._raw, (R)(a & b)) S("bitwise_or", fx::bitwise_or(x, (R)b)._raw, (R)(a | b)) S("|", (x | (R)b)._raw, (R)(a | b)) S("bitwise_xor", fx::bitwise_xor(x, (R)b)._raw, (R)(a ^ b)) S("^", (x ^ (R)b)._raw, (R)(a ^ b))
    S("bitwise_nor", fx::bitwise_nor(x, (R)b)._raw, (R)~(a | b)) S("bitwise_not", fx::bitwise_not(x)._raw, (R)~a) S("~", (~x)._raw, (R)~a)
    int sh = k.sh % BITS; S("shift_right", fx::shift_right(x, sh)._raw, (s128)a >> sh) S(">>", (x >> sh)._raw, (s128)a >> sh) if (fits((s128)a * ((s128)1 << sh))) { S("shift_left", fx::shift_left(x, sh)._raw, (s128)a * ((s128)1 << sh)) S("<<", (x << sh)._raw, (s128)a * ((s128)1 << sh)) }
    { float f = (float)x; volatile float g = (float)(R)a; float h = std::ldexp((float)g, -RT); S("conversion to float equal", f == h, 1) double dd = (double)x; S("conversion to double equal", dd == (double)h, 1) }
    F cp(x); S("copy", cp._raw, a) F as; as = x; S("assign", as._raw, a) S("left", fx::left(x), LF) S("right", fx::right(x), RT)
    return "";
#undef S
  }
  // construction from floats and mixed operations
  static std::string cons(const Case &k) {
    float f = k.f; double r = (double)f * std::ldexp(1.0, RT), m = std::round(r); std::string w; if (!(std::fabs(m) < std::ldexp(1.0, LF + RT - 1))) return "";
    long long e = (long long)m, a = k.a[0]; F x = mk(a), y(f); if (y._raw != e) return "construction from float: got raw " + str(y._raw) + ", expected " + str(e) + " for " + std::to_string(f);
    if (F((double)f)._raw != e) return "construction from double: wrong for " + std::to_string(f);
    if (std::floor(f) == f && std::fabs(f) < 1e6) { if (F((int)f)._raw != e) return "construction from int: wrong for " + std::to_string(f); if (F((long long)f)._raw != e) return "construction from long long: wrong for " + std::to_string(f); }
    s128 o; bool sf = (float)x == std::ldexp((float)(R)a, -RT);
#define M(what, v, ex) if ((s128)(v) != (s128)(ex)) return std::string("mixed " what ": wrong for raw ") + str(a) + " and float " + std::to_string(f);
    if (sf) {
      if (ref(0, a, e, 0, &o)) { M("+", (x + f)._raw, o) M("+ (float first)", (f + x)._raw, o) M("add", fx::add(x, f)._raw, o) }
      if (ref(1, a, e, 0, &o)) { M("-", (x - f)._raw, o) M("sub", fx::sub(x, f)._raw, o) } if (ref(1, e, a, 0, &o)) M("- (float first)", (f - x)._raw, o)
      if (ref(2, a, e, 0, &o)) { M("*", (x * f)._raw, o) M("* (float first)", (f * x)._raw, o) M("mul", fx::mul(x, f)._raw, o) }
      if (ref(3, a, e, 0, &o)) { M("/", (x / f)._raw, o) M("div", fx::div(x, f)._raw, o) } if (ref(3, e, a, 0, &o)) { M("/ (float first)", (f / x)._raw, o) M("div (float first)", fx::div(f, x)._raw, o) }
      M("<", (x < f), a < e) M("< (float first)", (f < x), e < a) M("<=", (x <= f), a <= e) M("<= (float first)", (f <= x), e <= a) M(">", (x > f), a > e) M("> (float first)", (f > x), e > a) M(">=", (x >= f), a >= e) M(">= (float first)", (f >= x), e >= a)
    }
#undef M
    return "";
  }
  static P ld(const long long *p, bool al) { alignas(64) F b[130]; int L = fx::len(F()); F *q = al ? b : b + 1; for (int i = 0; i < L; i++) q[i] = mk(p[i]); return al ? fx::loada<P>(q) : fx::loadu<P>(q); }
  static void st(long long *o, P v, bool al) { alignas(64) F b[130]; int L = fx::len(F()); memset((void *)b, 0x5a, sizeof b); F *q = al ? b : b + 1; if (al) fx::storea(q, v); else fx::storeu(q, v); for (int i = 0; i < L; i++) o[i] = q[i]._raw; }
  static std::string simd(const Case &k) {
    int L = fx::len(F()); bool al = k.sh & 1; P a = ld(k.a, al), b = ld(k.b, !al), c = ld(k.c, al); std::string w; long long o[64]; s128 e;
    if (L != fx::len(a) || L != fx::fpsimd_n<LF, RT>() || L != nsimd::len(R())) return "len is not the register length";
    auto cmp = [&](const char *what, int op, P v) { if (!w.empty()) return; st(o, v, al); for (int i = 0; i < L && w.empty(); i++) if (ref(op, k.a[i], k.b[i], k.c[i], &e)) w = chk((std::string("pack ") + what).c_str(), i, o[i], e, k.a[i], k.b[i]); };
    cmp("add", 0, fx::add(a, b)); cmp("+", 0, a + b); cmp("sub", 1, fx::sub(a, b)); cmp("-", 1, a - b); cmp("mul", 2, fx::mul(a, b)); cmp("*", 2, a * b);
    { long long bb[64]; for (int i = 0; i < L; i++) bb[i] = k.b[i] && fits((s128)k.a[i] * ((s128)1 << RT)) && k.b[i] != -1 ? k.b[i] : 1; P nb = ld(bb, al); st(o, fx::div(a, nb), al); for (int i = 0; i < L && w.empty(); i++) if (ref(3, k.a[i], bb[i], 0, &e)) w = chk("pack div", i, o[i], e, k.a[i], bb[i]); st(o, a / nb, al); for (int i = 0; i < L && w.empty(); i++) if (ref(3, k.a[i], bb[i], 0, &e)) w = chk("pack /", i, o[i], e, k.a[i], bb[i]);
      st(o, fx::rec(nb), al); for (int i = 0; i < L && w.empty(); i++) if (ref(8, 0, bb[i], 0, &e)) w = chk("pack rec", i, o[i], e, 0, bb[i]); }
    cmp("fma", 4, fx::fma(a, b, c)); cmp("min", 5, fx::min(a, b)); cmp("max", 6, fx::max(a, b)); cmp("abs", 7, fx::abs(a)); cmp("andb", 9, fx::andb(a, b)); cmp("orb", 10, fx::orb(a, b)); cmp("xorb", 11, fx::xorb(a, b)); cmp("andnotb", 12, fx::andnotb(a, b)); cmp("notb", 13, fx::notb(a)); cmp("if_else1", 14, fx::if_else1(fx::lt(a, c), a, b));
    auto lcmp = [&](const char *what, PL v, std::function<bool(long long, long long, long long)> f) {
      if (!w.empty()) return; alignas(64) LT q[130]; LT *p = al ? q : q + 1; if (al) fx::storela(p, v); else fx::storelu(p, v);
      for (int i = 0; i < L && w.empty(); i++) w = chk((std::string("pack ") + what).c_str(), i, p[i] != 0, f(k.a[i], k.b[i], k.c[i]), k.a[i], k.b[i]);
      PL v2 = al ? fx::loadla<PL>(p) : fx::loadlu<PL>(p); P s = fx::if_else1(v2, a, b); st(o, s, !al); for (int i = 0; i < L && w.empty(); i++) w = chk((std::string("pack loadl after ") + what).c_str(), i, o[i], f(k.a[i], k.b[i], k.c[i]) ? k.a[i] : k.b[i], k.a[i], k.b[i]);
    };
#define LL [](long long x, long long y, long long z) -> bool { (void)x; (void)y; (void)z; return
    lcmp("eq", fx::eq(a, b), LL x == y; }); lcmp("ne", fx::ne(a, b), LL x != y; }); lcmp("lt", fx::lt(a, b), LL x < y; }); lcmp("le", fx::le(a, b), LL x <= y; }); lcmp("gt", fx::gt(a, b), LL x > y; }); lcmp("ge", fx::ge(a, b), LL x >= y; });
    lcmp("==", a == b, LL x == y; }); lcmp("!=", a != b, LL x != y; }); lcmp("<", a < b, LL x < y; }); lcmp("<=", a <= b, LL x <= y; }); lcmp(">", a > b, LL x > y; }); lcmp(">=", a >= b, LL x >= y; });
    PL p = fx::lt(a, b), q = fx::lt(a, c);
    lcmp("andl", fx::andl(p, q), LL x < y && x < z; }); lcmp("orl", fx::orl(p, q), LL x < y || x < z; }); lcmp("xorl", fx::xorl(p, q), LL (x < y) != (x < z); }); lcmp("andnotl", fx::andnotl(p, q), LL x < y && !(x < z); }); lcmp("notl", fx::notl(p), LL !(x < y); });
#undef LL
    st(o, fx::set1<P>(mk(k.a[0])), al); for (int i = 0; i < L && w.empty(); i++) w = chk("pack set1", i, o[i], k.a[0], k.a[0], 0);
    return w;
  }
  static std::string run(const Case &k) { int L = fx::len(F()); std::string w = cons(k); for (int i = 0; i < L && w.empty(); i++) w = scalar(k, i); if (w.empty()) w = simd(k); return w; }
  static std::string key(const std::string &w) { return name() + ":" + w.substr(0, w.find(':')); }
  static std::string text(const Case &k) { int L = fx::len(F()); std::string s = "fmt " + name() + "\na"; for (int i = 0; i < L; i++) s += " " + str(k.a[i]); s += "\nb"; for (int i = 0; i < L; i++) s += " " + str(k.b[i]); s += "\nc"; for (int i = 0; i < L; i++) s += " " + str(k.c[i]); char t[60]; snprintf(t, 60, "\nf %.9g\nsh %d\n", k.f, k.sh); return s + t; }
  static void replay_() {
    if (field("fmt") != name()) return; Case k; memset((void *)&k, 0, sizeof k); auto rd = [](const char *f, long long *d) { auto v = nums(field(f)); for (size_t i = 0; i < v.size() && i < 64; i++) d[i] = v[i]; };
    rd("a", k.a); rd("b", k.b); rd("c", k.c); k.f = (float)strtod(field("f").c_str(), 0); k.sh = atoi(field("sh").c_str()); std::string w = run(k); if (!w.empty()) fail(key(w), w, "");
  }
  static long long gen(Rng &r) {
    int n = LF + RT - 1; u64t m = n >= 63 ? ~0ull >> 1 : (1ull << n) - 1; long long v;
    switch (r.below(10)) { case 0: v = 0; break; case 1: v = (long long)m; break; case 2: v = -(long long)m - 1; break; case 3: v = (long long)(1ull << r.below(n ? n : 1)); break; case 4: v = (long long)r.below(9) - 4; break; case 5: v = ((long long)r.below(9) - 4) * (1LL << RT) + (long long)r.below(3) - 1; break; case 6: case 7: v = (long long)(r.next() & m & ((1ull << (r.below(n) + 1)) - 1)); break; default: v = (long long)(r.next() & m); }
    if (r.chance(1, 2)) v = -v; if (!infmt(v)) v = (long long)(m >> 1); return v;
  }
  static void go(u64t n) {
    Rng r(seed * 131 + LF * 64 + RT); int L = fx::len(F());
    for (u64t it = 0; it < n; it++) {
      Case k; memset((void *)&k, 0, sizeof k); for (int i = 0; i < L; i++) { k.a[i] = gen(r); k.b[i] = r.chance(1, 5) ? k.a[i] + (long long)r.below(3) - 1 : gen(r); k.c[i] = r.chance(1, 5) ? k.a[i] : gen(r); for (long long *p : {&k.b[i], &k.c[i]}) if (!infmt(*p)) *p = 0; }
      k.sh = (int)r.below(BITS); k.f = (float)((double)gen(r) / std::ldexp(1.0, RT)); if (r.chance(1, 3)) k.f += (float)std::ldexp((double)r.below(16) - 8, -RT - 3); if (r.chance(1, 4)) k.f = std::floor(k.f);
      eval(hash_bytes(&k, sizeof k, LF * 100 + RT), true); current = text(k); if (it == 1) sample(current.substr(0, 200));
      std::string w = run(k);
      if (!w.empty() && !failed(key(w))) {
        std::string k0 = key(w); auto bad = [&](const Case &q) { std::string x = run(q); return !x.empty() && key(x) == k0; };
        for (int f = 0; f < 3; f++) for (int i = 0; i < L; i++) { Case t = k; long long *p = f == 0 ? t.a : f == 1 ? t.b : t.c; if (p[i]) { p[i] = 0; if (bad(t)) k = t; } for (int j = 0; j < 70; j++) { t = k; p = f == 0 ? t.a : f == 1 ? t.b : t.c; if (!p[i]) break; p[i] /= 2; if (!bad(t)) break; k = t; } }
        w = run(k); fail(k0, w, text(k));
      }
    }
  }
};
#define FMTS(M) M(4, 2) M(2, 3) M(6, 1) M(8, 0) M(3, 3) M(9, 4) M(11, 11) M(4, 6) M(8, 4) M(8, 3) M(12, 2) M(16, 0) M(16, 8) M(8, 8) M(20, 6) M(3, 14) M(24, 4) M(32, 0) M(32, 16) M(16, 24) M(40, 8) M(10, 27) M(2, 31) M(60, 2) M(64, 0)
int main(int argc, char **argv) {
  bool rp = init(argc, argv); int part = atoi(args[0].c_str()), parts = atoi(args[1].c_str()), i = 0;
#define X(L, R) if (rp) Fmt<L, R>::replay_(); else if (i++ % parts == part) Fmt<L, R>::go(iters);
  FMTS(X)
  return finish();
}
