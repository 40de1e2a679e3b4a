// ufp: number of leading significand bits two floating point numbers share.
#include "prog.hpp"
#include <nsimd/nsimd-all.hpp>
typedef __int128 i128;
static int call(int t, u64t a, u64t b, bool cxx) {
  if (t == 0) { f16 x, y; u16t p = (u16t)a, q = (u16t)b; memcpy(&x, &p, 2); memcpy(&y, &q, 2); return cxx ? nsimd::ufp(x, y) : nsimd_ufp_f16(x, y); }
  if (t == 1) return cxx ? nsimd::ufp(b2f(a), b2f(b)) : nsimd_ufp_f32(b2f(a), b2f(b));
  return cxx ? nsimd::ufp(b2d(a), b2d(b)) : nsimd_ufp_f64(b2d(a), b2d(b));
}
// Significand precision minus the bit length of ||a| - |b|| counted in units
// in the last place of the smaller number; no agreement when the exponents
// differ by more than one.
static int model(int t, u64t a, u64t b) {
  Ty ty = (Ty)(F16 + t); int M = f_mant(ty), E = f_exp(ty);
  int ea = (int)((a >> M) & ((1 << E) - 1)), eb = (int)((b >> M) & ((1 << E) - 1));
  if (abs(ea - eb) > 1) return 0;
  i128 one = 1, fa = (i128)((a & ((1ull << M) - 1)) | (1ull << M)), fb = (i128)((b & ((1ull << M) - 1)) | (1ull << M));
  int em = std::min(ea, eb); fa <<= ea - em; fb <<= eb - em; i128 d = fa > fb ? fa - fb : fb - fa;
  int bl = 0; while (d >= (one << bl)) bl++;
  return std::max(0, M + 1 - bl);
}
static std::string pr(int t, u64t a, u64t b) { return std::string("ufp(") + lane_str((Ty)(F16 + t), a) + ", " + lane_str((Ty)(F16 + t), b) + ")"; }
static void check(int t, u64t a, u64t b) {
  Ty ty = (Ty)(F16 + t); int ex = model(t, a, b);
  vp::eval(hash_bytes(&a, 8, b * 31 + t), ex > 0 || a != b);
  for (int cxx = 0; cxx < 2; cxx++) {
    int g = call(t, a, b, cxx), g2 = call(t, b, a, cxx); std::string k = std::string("ufp_") + ty_name[ty] + (cxx ? ":cxx" : ":c");
    char rep[96]; snprintf(rep, 96, "case %d 0x%llx 0x%llx\n", t, (unsigned long long)a, (unsigned long long)b);
    if (g != g2) vp::fail(k, pr(t, a, b) + " = " + std::to_string(g) + " but swapped " + std::to_string(g2), rep);
    else if (std::max(g, 0) != ex) vp::fail(k, pr(t, a, b) + " = " + std::to_string(g) + ", expected " + std::to_string(ex), rep);
  }
}
int main(int argc, char **argv) {
  if (vp::init(argc, argv)) { unsigned long long a, b; int t; if (sscanf(vp::field("case").c_str(), "%d %lli %lli", &t, (long long *)&a, (long long *)&b) == 3) check(t, a, b); return vp::finish(); }
  unsigned part = atoi(vp::args[0].c_str()), np = atoi(vp::args[1].c_str());
  Rng r(vp::seed * 31 + part);
  auto norm = [](int t, u64t v) { Ty ty = (Ty)(F16 + t); int M = f_mant(ty), E = f_exp(ty); u64t e = (v >> M) & ((1ull << E) - 1); return e != 0 && e != (1ull << E) - 1; };
  // all pairs of normal f16 of close magnitude, a strided choice of the others
  for (u64t a = 0x400 + part; a < 0x7c00; a += np) for (u64t b = a > 0x900 ? a - 0x900 : 0x400; b < 0x7c00 && b < a + 0x900; b += (vp::iters > 10000000 ? 1 : 1 + r.below(9))) check(0, a ^ (r.chance(1, 2) ? 0x8000 : 0), b ^ (r.chance(1, 2) ? 0x8000 : 0));
  for (u64t i = 0; i < vp::iters; i++) {
    int t = (int)r.below(3); Ty ty = (Ty)(F16 + t); int M = f_mant(ty);
    u64t a, b; do a = r.chance(1, 2) ? gen_flt(r, ty) : r.next() & ty_mask(ty); while (!norm(t, a));
    switch (r.below(6)) {
    case 0: b = a ^ ((u64t)1 << r.below(M + 1)); break;
    case 1: b = a + (u64t)r.range(-8, 8); break;
    case 2: b = a + ((u64t)r.range(-3, 3) << r.below(M + 1)) + (u64t)r.range(-1, 1); break;
    case 3: b = (a & ~(((u64t)1 << M) - 1)) + ((u64t)r.range(-1, 1) << M) + (r.next() & (((u64t)1 << M) - 1)); break;
    case 4: b = gen_flt(r, ty); break;
    default: b = a;
    }
    b &= ty_mask(ty); if (!norm(t, b)) continue;
    check(t, a, b); if (i < 4) vp::sample(pr(t, a, b) + " -> " + std::to_string(model(t, a, b)));
  }
  return vp::finish();
}
