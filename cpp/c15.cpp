// f16 <-> f32 conversions and classification helpers.
#include "prog.hpp"
#include <nsimd/nsimd-all.hpp>
typedef unsigned long long ull;
// f32 bits -> f16 bits, round to nearest even, from the definition
static inline u16t model(u32t x) {
  u32t s = (x >> 16) & 0x8000, e = (x >> 23) & 255, m = x & 0x7fffff;
  if (e == 255) return (u16t)(m ? 0x7e00 : s | 0x7c00);
  if (e < 90) return (u16t)s; // below 2^-37
  // value = M * 2^(e-150), M 24 bits; unit of the target: max(2^(e-137), 2^-24)
  u64t M = m | 0x800000; int sh = e >= 113 ? 13 : 13 + (113 - (int)e);
  u64t q = sh > 40 ? 0 : M >> sh, r = M & (((u64t)1 << sh) - 1), half = (u64t)1 << (sh - 1);
  if (r > half || (r == half && (q & 1))) q++;
  // q in units; e >= 113: biased exponent e-112, q carries its implicit bit
  u64t h = e >= 113 ? ((u64t)(e - 113) << 10) + q : q;
  if (h >= 0x7c00) h = 0x7c00;
  return (u16t)(s | h);
}
static inline u32t model_up(u16t h) {
  u32t s = (u32t)(h & 0x8000) << 16; int e = (h >> 10) & 31; u32t m = h & 0x3ff;
  if (e == 31) return s | 0x7f800000 | (m << 13);
  return (u32t)f2b((float)std::ldexp((double)(e ? m | 0x400 : m), (e ? e : 1) - 25)) | s;
}
static inline bool hnan(u16t h) { return (h & 0x7c00) == 0x7c00 && (h & 0x3ff); }
static inline bool fnan(u32t x) { return (x & 0x7f800000) == 0x7f800000 && (x & 0x7fffff); }
static inline bool heq(u16t a, u16t b) { return a == b || (hnan(a) && hnan(b)); }
static inline bool feqn(u32t a, u32t b) { return a == b || (fnan(a) && fnan(b)); }
static std::string hx(ull v) { char b[32]; snprintf(b, 32, "0x%llx", v); return b; }
static u32t fb(float f) { u32t x; memcpy(&x, &f, 4); return x; }
static u16t hb(f16 f) { u16t x; memcpy(&x, &f, 2); return x; }
static f16 bh(u16t x) { f16 f; memcpy(&f, &x, 2); return f; }
static void down(u32t x, int which) {
  u16t ex = model(x), g = 0; const char *nm = "";
  float f = b2f(x);
  switch (which) {
  case 0: g = nsimd_f32_to_u16(f); nm = "nsimd_f32_to_u16"; break;
  case 1: g = hb(nsimd_f32_to_f16(f)); nm = "nsimd_f32_to_f16"; break;
  case 2: g = nsimd::f32_to_u16(f); nm = "nsimd::f32_to_u16"; break;
  case 3: g = hb(nsimd::f32_to_f16(f)); nm = "nsimd::f32_to_f16"; break;
  default: g = hb(nsimd::to<f16>(f)); nm = "nsimd::to<f16>(f32)"; break;
  }
  vp::evals++;
  if (!heq(g, ex)) vp::fail(nm, std::string(nm) + "(" + hx(x) + ") = " + hx(g) + ", expected " + hx(ex), "down " + std::to_string(which) + " " + hx(x) + "\n");
}
static void up(u16t h, int which) {
  u32t ex = model_up(h), g = 0; const char *nm = "";
  switch (which) {
  case 0: g = fb(nsimd_u16_to_f32(h)); nm = "nsimd_u16_to_f32"; break;
  case 1: g = fb(nsimd_f16_to_f32(bh(h))); nm = "nsimd_f16_to_f32"; break;
  case 2: g = fb(nsimd::u16_to_f32(h)); nm = "nsimd::u16_to_f32"; break;
  case 3: g = fb(nsimd::f16_to_f32(bh(h))); nm = "nsimd::f16_to_f32"; break;
  case 4: { double d = nsimd_to_biggest_f16(bh(h)); g = fb((float)d); if (!fnan(ex) && d != (double)b2f(ex)) g = ex ^ 1; nm = "nsimd_to_biggest_f16"; break; }
  default: g = fb(nsimd::to<f32>(bh(h))); nm = "nsimd::to<f32>(f16)"; break;
  }
  vp::evals++;
  if (!feqn(g, ex)) vp::fail(nm, std::string(nm) + "(" + hx(h) + ") = " + hx(g) + ", expected " + hx(ex), "up " + std::to_string(which) + " " + hx(h) + "\n");
}
template <typename T> T ofb(u64t v) { T x; memcpy(&x, &v, sizeof(T)); return x; }
static void classify(int t, u64t v) { // 0 f16, 1 f32, 2 f64
  Ty ty = (Ty)(F16 + t); int mb = f_mant(ty), eb = f_exp(ty);
  u64t e = (v >> mb) & ((1ull << eb) - 1), m = v & ((1ull << mb) - 1), em = (1ull << eb) - 1;
  bool nan = e == em && m, inf = e == em && !m, nrm = !(e == 0 && m);
  bool g[6];
  if (t == 0) { f16 x = bh((u16t)v); g[0] = nsimd_isnan_f16(x); g[1] = nsimd_isinf_f16(x); g[2] = nsimd_isnormal_f16(x); g[3] = nsimd::isnan(x); g[4] = nsimd::isinf(x); g[5] = nsimd::isnormal(x); }
  else if (t == 1) { f32 x = b2f(v); g[0] = nsimd_isnan_f32(x); g[1] = nsimd_isinf_f32(x); g[2] = nsimd_isnormal_f32(x); g[3] = nsimd::isnan(x); g[4] = nsimd::isinf(x); g[5] = nsimd::isnormal(x); }
  else { f64 x = b2d(v); g[0] = nsimd_isnan_f64(x); g[1] = nsimd_isinf_f64(x); g[2] = nsimd_isnormal_f64(x); g[3] = nsimd::isnan(x); g[4] = nsimd::isinf(x); g[5] = nsimd::isnormal(x); }
  bool ex[3] = {nan, inf, nrm}; const char *nm[3] = {"isnan", "isinf", "isnormal"};
  vp::evals++;
  for (int i = 0; i < 6; i++) if (g[i] != ex[i % 3]) { std::string k = std::string(nm[i % 3]) + "_" + ty_name[ty] + (i > 2 ? "_cxx" : ""); if (t == 0 && i % 3 == 2 && g[i] == (e == 0 && v != 0)) k = "isnormal_f16:inverted"; vp::fail(k, k + "(" + hx(v) + ") = " + std::to_string(g[i]) + ", expected " + std::to_string(ex[i % 3]), "classify " + std::to_string(t) + " " + hx(v) + "\n"); }
}
// vector conversions: one f16 register from two f32 registers and back
using namespace nsimd;
static void vdown(const u32t *x, int n2) { // n2 f32 lanes -> n2 f16 lanes
  typedef pack<f32> pf; typedef pack<f16> ph; int n = len(pf());
  f32 in[64]; u16t o[64]; memcpy(in, x, 4 * n2);
  ph h = downcvt<ph>(loadu<pf>(in), loadu<pf>(in + n)); storeu((f16 *)o, h);
  vp::evals++;
  for (int i = 0; i < n2; i++) if (!heq(o[i], model(x[i]))) { vp::fail("vector f32->f16 " + vp::extname, "downcvt+storeu of " + hx(x[i]) + " = " + hx(o[i]) + ", expected " + hx(model(x[i])), "vdown " + hx(x[i]) + "\n"); return; }
}
static void vup(const u16t *x, int n2) {
  typedef pack<f32> pf; typedef pack<f16> ph; int n = len(pf());
  f32 o[64]; u16t rt[64], al[64] __attribute__((aligned(64))), rt2[64] __attribute__((aligned(64)));
  ph h = loadu<ph>((const f16 *)x); packx2<f32> r = upcvt<packx2<f32> >(h); storeu(o, r.v0); storeu(o + n, r.v1); storeu((f16 *)rt, h);
  memcpy(al, x, 2 * n2); storea((f16 *)rt2, loada<ph>((const f16 *)al));
  vp::evals++;
  for (int i = 0; i < n2; i++) {
    if (!feqn(fb(o[i]), model_up(x[i]))) { vp::fail("vector f16->f32 " + vp::extname, "loadu+upcvt of " + hx(x[i]) + " = " + hx(fb(o[i])) + ", expected " + hx(model_up(x[i])), "vup " + hx(x[i]) + "\n"); return; }
    if (!heq(rt[i], x[i])) { vp::fail("vector f16 loadu/storeu " + vp::extname, "loadu+storeu of " + hx(x[i]) + " = " + hx(rt[i]), "vup " + hx(x[i]) + "\n"); return; }
    if (!heq(rt2[i], x[i])) { vp::fail("vector f16 loada/storea " + vp::extname, "loada+storea of " + hx(x[i]) + " = " + hx(rt2[i]), "vup " + hx(x[i]) + "\n"); return; }
  }
}
int main(int argc, char **argv) {
  bool rp = vp::init(argc, argv);
  int n2 = len(pack<f16>());
  if (rp) {
    auto g = [&](const char *f) { return vp::nums(vp::field(f)); };
    auto v = g("down"); if (v.size() == 2) down((u32t)v[1], (int)v[0]);
    v = g("up"); if (v.size() == 2) up((u16t)v[1], (int)v[0]);
    std::string c = vp::field("classify"); if (c.size()) { char *q; int t = (int)strtol(c.c_str(), &q, 0); classify(t, strtoull(q, 0, 0)); }
    v = g("vdown"); if (v.size()) { u32t b[64]; for (int i = 0; i < 64; i++) b[i] = (u32t)v[0]; vdown(b, n2); }
    v = g("vup"); if (v.size()) { u16t b[64]; for (int i = 0; i < 64; i++) b[i] = (u16t)v[0]; vup(b, n2); }
    return vp::finish();
  }
  // args: part nparts full
  ull part = strtoull(vp::args[0].c_str(), 0, 10), np = strtoull(vp::args[1].c_str(), 0, 10); bool full = vp::args[2] == "1", scal = vp::args[3] == "1";
  Rng r(vp::seed * 77 + part);
  if (scal) {
    ull lo = (part << 32) / np, hi = ((part + 1) << 32) / np;
    for (ull x = lo; x < hi; x++) { down((u32t)x, 0); }
    for (ull x = lo; x < hi; x += full ? 1 : 1 + r.below(61)) for (int w = 1; w < 5; w++) down((u32t)x, w);
    for (ull x = lo; x < hi; x += full ? 1 : 1 + r.below(21)) classify(1, x);
    if (part == 0) for (ull h = 0; h < 65536; h++) { for (int w = 0; w < 6; w++) up((u16t)h, w); classify(0, h); }
    for (ull i = 0; i < vp::iters; i++) { u64t v = r.chance(1, 2) ? r.next() : gen_flt(r, F64); classify(2, v); if (r.chance(1, 4)) { v &= ~(0x7ffull << 52); classify(2, v); classify(2, v | (0x7ffull << 52)); } if (r.chance(1, 4)) classify(2, v & (0xfff0000000000000ull | (1ull << r.below(52)))); }
    vp::dist.count = vp::evals; // every bit pattern is visited once per function
    if (part == 1 || np == 1) vp::sample("f32_to_u16 over bit patterns " + hx(lo) + ".." + hx(hi - 1));
  } else {
    u32t b[64]; u16t h[64];
    for (ull x = 0; x < 65536; x += n2) { int rot = (int)r.below(n2); for (int i = 0; i < n2; i++) h[i] = (u16t)(x + (i + rot) % n2); vup(h, n2); }
    ull step = full ? 1 : 37;
    for (ull x = r.below(step); x < (1ull << 32); x += step * n2) { for (int i = 0; i < n2; i++) b[i] = (u32t)(x + step * i); vdown(b, n2); }
    for (ull i = 0; i < vp::iters; i++) { // boundaries of the rounding intervals
      for (int k = 0; k < n2; k++) { u16t a = (u16t)r.next(); u32t lo = model_up(a & 0x7fff), hi = (a & 0x7fff) < 0x7c00 ? model_up((a & 0x7fff) + 1) : lo; if ((a & 0x7fff) == 0x7bff) hi = 0x47800000; u32t mid = fnan(lo) ? lo : (u32t)f2b((b2f(lo) + b2f(hi)) / 2); b[k] = (mid + (u32t)r.range(-2, 2)) ^ ((u32t)(a & 0x8000) << 16); }
      vdown(b, n2);
    }
    vp::dist.count = vp::evals; vp::sample("downcvt registers " + vp::extname + " first lanes " + hx(b[0]) + " " + hx(b[1]));
  }
  return vp::finish();
}
