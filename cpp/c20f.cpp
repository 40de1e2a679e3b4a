// Every fixed-point format: storage, conversions and scalar arithmetic.
#include "prog.hpp"
#include <cmath>
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/fixed_point.hpp>
using namespace vp; namespace fx = nsimd::fixed_point;
typedef __int128 s128;
struct Ops { int lf, rt, size, poszize; bool sgn; long long (*from)(float); float (*to)(long long); long long (*arith)(int, long long, long long); int (*cmp)(long long, long long); };
template <int LF, int RT> struct Q {
  typedef fx::fp_t<LF, RT> F; typedef typename F::value_type R;
  static F mk(long long r) { F x; x._raw = (R)r; return x; }
  static long long from(float f) { return F(f)._raw; }
  static float to(long long r) { return (float)mk(r); }
  static long long arith(int op, long long a, long long b) { F x = mk(a), y = mk(b); switch (op) { case 0: return (x + y)._raw; case 1: return (x - y)._raw; case 2: return (x * y)._raw; default: return (x / y)._raw; } }
  static int cmp(long long a, long long b) { F x = mk(a), y = mk(b); return (x < y) | (x <= y) << 1 | (x == y) << 2 | (x != y) << 3 | (x > y) << 4 | (x >= y) << 5; }
  static Ops ops() { Ops o = {LF, RT, (int)sizeof(F), (int)sizeof(typename F::positive_type), (R)-1 < 0, from, to, arith, cmp}; return o; }
};
static std::vector<Ops> all;
template <int LF, int RT, bool OK> struct Add { static void go() { all.push_back(Q<LF, RT>::ops()); } };
template <int LF, int RT> struct Add<LF, RT, false> { static void go() {} };
template <int RT, int LF> struct Row { static void go() { Add<LF, RT, (LF + 2 * RT <= 64)>::go(); Row<RT, LF + 1>::go(); } };
template <int RT> struct Row<RT, 65> { static void go() {} };
template <int RT> struct Tab { static void go() { Row<RT, 1>::go(); Tab<RT + 1>::go(); } };
template <> struct Tab<32> { static void go() {} };
static std::string one(const Ops &o, long long a, long long b, float f) {
  int n = o.lf + 2 * o.rt, want = n <= 8 ? 1 : n <= 16 ? 2 : n <= 32 ? 4 : 8, bits = 8 * o.size; char s[300];
  if (o.size != want || o.poszize != want || !o.sgn) { snprintf(s, 300, "storage: %d bytes, expected %d", o.size, want); return s; }
  s128 mx = ((s128)1 << (bits - 1)) - 1, mn = -mx - 1, e; auto fits = [&](s128 v) { return v >= mn && v <= mx; };
  for (int op = 0; op < 4; op++) {
    if (op == 3 && !b) continue;
    s128 t = op == 0 ? (s128)a + b : op == 1 ? (s128)a - b : op == 2 ? (s128)a * b : (s128)a * ((s128)1 << o.rt); if (!fits(t)) continue;
    e = op == 2 ? t >> o.rt : op == 3 ? t / b : t; if (!fits(e)) continue;
    long long g = o.arith(op, a, b); if (g != (long long)e) { snprintf(s, 300, "raw %lld %c %lld: got %lld, expected %lld", a, "+-*/"[op], b, g, (long long)e); return std::string("arithmetic: ") + s; }
  }
  int c = (a < b) | (a <= b) << 1 | (a == b) << 2 | (a != b) << 3 | (a > b) << 4 | (a >= b) << 5;
  if (o.cmp(a, b) != c) { snprintf(s, 300, "comparison: raw %lld and %lld: got %x, expected %x", a, b, o.cmp(a, b), c); return s; }
  float h = std::ldexp((float)a, -o.rt), g = o.to(a); if (h != g) { snprintf(s, 300, "to float: raw %lld: got %a, expected %a", a, g, h); return s; }
  double m = std::round((double)f * std::ldexp(1.0, o.rt));
  if (std::fabs(m) < std::ldexp(1.0, o.lf + o.rt - 1) && o.from(f) != (long long)m) { snprintf(s, 300, "from float: %a: got %lld, expected %lld", f, o.from(f), (long long)m); return s; }
  return "";
}
static void name(const Ops &o, char *b) { snprintf(b, 40, "fp<%d,%d>", o.lf, o.rt); }
int main(int argc, char **argv) {
  bool rp = init(argc, argv); Tab<0>::go(); char nm[40], nb[200]; Rng r(seed * 977);
  if (rp) {
    for (auto &o : all) { name(o, nm); if (field("fmt") != nm) continue; auto v = nums(field("raw")); std::string w = one(o, v[0], v[1], strtof(field("f").c_str(), 0)); if (!w.empty()) fail("all", w, ""); }
    return finish();
  }
  for (auto &o : all) {
    int n = o.lf + o.rt - 1; u64t m = n >= 63 ? ~0ull >> 1 : (1ull << n) - 1; name(o, nm);
    auto gen = [&]() -> long long { u64t x = r.next(); switch (r.below(6)) { case 0: x = 0; break; case 1: x = m; break; case 2: return -(long long)m - 1; case 3: x = (u64t)1 << r.below((u64t)o.rt + 1); break; default: x >>= r.below(64); } long long v = (long long)(x & m); return r.chance(1, 2) ? -v : v; };
    for (u64t it = 0; it < iters; it++) {
      long long a = gen(), b = r.chance(1, 4) ? a + (a < (long long)m) : gen(); float f = (float)std::ldexp((double)gen() + (r.chance(1, 2) ? 0.0 : 0.25 * (double)r.below(4)), -o.rt);
      eval(((u64t)a * 31 + (u64t)b) * 0x9E3779B97F4A7C15ull + (u64t)(o.lf * 64 + o.rt), a != b);
      snprintf(nb, 200, "fmt %s\nraw %lld %lld\nf %a\n", nm, a, b, f); current = nb; if (it == 5) sample(nb);
      std::string w = one(o, a, b, f); if (!w.empty()) { fail(std::string(nm) + ":" + w.substr(0, w.find(':')), w, nb); break; }
    }
  }
  return finish();
}
