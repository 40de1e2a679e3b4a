// Whole tasks (memory operators, modules, allocation, printing) give the same
// bytes alone and next to other threads running other tasks.
#include "prog.hpp"
#include <atomic>
#include <sstream>
#include <thread>
#include <xmmintrin.h>
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/fixed_point.hpp>
#include <nsimd/modules/memory_management.hpp>
#include <nsimd/modules/random/functions.hpp>
#include <nsimd/modules/spmd.hpp>
#include <nsimd/modules/tet1d.hpp>
typedef nsimd::NSIMD_SIMD ext;
template <class T> static Ty tyof();
#define TYOF(T, V) template <> Ty tyof<T>() { return V; }
TYOF(i8, I8) TYOF(u8, U8) TYOF(i16, I16) TYOF(u16, U16) TYOF(i32, I32) TYOF(u32, U32) TYOF(i64, I64) TYOF(u64, U64) TYOF(f16, F16) TYOF(f32, F32) TYOF(f64, F64)
template <class T> static std::vector<T> data(Rng &r, size_t n) { std::vector<T> v(n); Ty t = tyof<T>(); for (auto &x : v) { u64t b = is_float(t) ? (r.chance(1, 2) ? enc_double(t, (double)r.range(-64, 64) / 4) : gen_flt(r, t)) : gen_int(r, t); if (is_float(t) && isnan_bits(t, b)) b = 0; memcpy(&x, &b, sizeof x); } return v; }
template <class T> static u64t H(const std::vector<T> &v, u64t h) { return hash_bytes(v.data(), v.size() * sizeof(T), h); }
template <class T, int N> static u64t memory_pack(Rng &r) {
  using namespace nsimd; typedef pack<T, N, ext> P; size_t L = (size_t)len(P()); std::vector<T> a = data<T>(r, 4 * L), o = data<T>(r, 4 * L), m = data<T>(r, L); u64t h = 1;
  for (auto &x : m) { T z; memset(&z, 0, sizeof z); if (r.chance(1, 2)) x = z; }
  packl<T, N, ext> k = loadlu<packl<T, N, ext> >(m.data()); P v = loadu<P>(a.data()), w = loadu<P>(a.data() + L);
  storeu(o.data(), masko_loadu(k, a.data() + 2 * L, w)); mask_storeu(k, o.data() + L, v); h = H(o, h);
  storelu(o.data(), k); packl<T, N, ext> tail = mask_for_loop_tail<packl<T, N, ext> >(3, 3 + (int)r.below(L + 1)); storelu(o.data() + L, tail); h = H(o, h);
  return h;
}
template <class T> static u64t memory(Rng &r) {
  using namespace nsimd; size_t L = (size_t)len(T(), ext()); std::vector<T> a = data<T>(r, 4 * L), o = data<T>(r, 4 * L); u64t h = 3;
  { auto s = load2u(a.data(), T(), ext()); store2u(o.data(), s.v1, s.v0, T(), ext()); h = H(o, h); }
  { auto s = load3u(a.data(), T(), ext()); store3u(o.data(), s.v2, s.v1, s.v0, T(), ext()); h = H(o, h); }
  { auto s = load4u(a.data(), T(), ext()); store4u(o.data(), s.v3, s.v2, s.v1, s.v0, T(), ext()); h = H(o, h); }
  return memory_pack<T, 1>(r) ^ (memory_pack<T, 2>(r) * 3) ^ h;
}
template <class T, class I> static u64t gathers(Rng &r) {
  using namespace nsimd; size_t L = (size_t)len(T(), ext()); std::vector<T> a = data<T>(r, 2 * L), o = data<T>(r, 8 * L); std::vector<I> ix(L); for (size_t i = 0; i < L; i++) ix[i] = (I)i;
  for (size_t i = L; i > 1; i--) std::swap(ix[i - 1], ix[r.below(i)]);
  auto x = loadu(ix.data(), I(), ext()); auto v = gather(a.data(), x, T(), ext()); scatter(o.data(), x, v, T(), ext()); u64t h = H(o, 5);
  int st = 1 + (int)r.below(4); scatter_linear(o.data(), st, v, T(), ext()); storeu(o.data(), gather_linear(o.data(), st, T(), ext()), T(), ext()); return H(o, h);
}
template <class T> static u64t printing(Rng &r) {
  using namespace nsimd; std::vector<T> a = data<T>(r, 256); char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n);
  put(f, 0, loadu(a.data(), T(), ext()), T()); putl(f, 0, loadlu(a.data(), T(), ext()), T(), ext()); fclose(f); u64t h = hash_bytes(b, n, 7); free(b);
  std::ostringstream s; s << loadu<pack<T, 2, ext> >(a.data()); std::string t = s.str(); return hash_bytes(t.data(), t.size(), h);
}
static u64t philox(Rng &r) {
  using namespace nsimd; u64t h = 9; { typedef u32 T; std::vector<T> a = data<T>(r, 6 * 64); size_t L = (size_t)len(T(), ext()); packx4<T> c; packx2<T> k; c.v0 = loadu<pack<T> >(&a[0]); c.v1 = loadu<pack<T> >(&a[64]); c.v2 = loadu<pack<T> >(&a[128]); c.v3 = loadu<pack<T> >(&a[192]); k.v0 = loadu<pack<T> >(&a[256]); k.v1 = loadu<pack<T> >(&a[320]); packx4<T> o = nsimd::random::philox_4x32_10(c, k); std::vector<T> b(4 * L); storeu(&b[0], o.v0); storeu(&b[L], o.v1); storeu(&b[2 * L], o.v2); storeu(&b[3 * L], o.v3); h = H(b, h); }
  { typedef u64 T; std::vector<T> a = data<T>(r, 6 * 64); size_t L = (size_t)len(T(), ext()); packx2<T> c, k; c.v0 = loadu<pack<T> >(&a[0]); c.v1 = loadu<pack<T> >(&a[64]); k.v0 = loadu<pack<T> >(&a[256]); k.v1 = loadu<pack<T> >(&a[320]); packx2<T> o = nsimd::random::threefry_2x64_20(c, k); std::vector<T> b(2 * L); storeu(&b[0], o.v0); storeu(&b[L], o.v1); h = H(b, h); }
  return h;
}
template <class T> static u64t tet(Rng &r) {
  size_t n = r.below(100); std::vector<T> a = data<T>(r, n + 1), b = data<T>(r, n + 1), o(n + 1); memset(o.data(), 0, (n + 1) * sizeof(T));
  tet1d::out(o.data()) = tet1d::in(a.data(), n) + tet1d::in(b.data(), n) * tet1d::in(a.data(), n); u64t h = H(o, 11);
  tet1d::out(o.data())(tet1d::in(a.data(), n) < tet1d::in(b.data(), n)) = tet1d::in(b.data(), n) - tet1d::in(a.data(), n); return H(o, h);
}
spmd_kernel_1d(ker, int *d, int *a, int *b)
  k_int x(k_load(a)); k_int y(k_load(b)); k_int s(0);
  k_while(x > 0) k_if(y > x) k_set(s, s + y); k_else k_set(s, s + 1); k_endif k_set(x, x - 3); k_if(s > 200) k_break; k_endif k_endwhile
  k_store(d, s);
spmd_kernel_end
static u64t spmd_(Rng &r) { int n = (int)r.below(100); std::vector<int> a(n + 1), b(n + 1), d(n + 1); for (int i = 0; i < n; i++) { a[i] = (int)r.range(-5, 60); b[i] = (int)r.range(-5, 60); } int *pd = d.data(), *pa = a.data(), *pb = b.data(); spmd_launch_kernel_1d(ker, 32, 1, n, pd, pa, pb); return H(d, 13); }
static u64t fixed_(Rng &r) {
  typedef nsimd::fixed_point::fp_t<8, 8> fp; std::vector<fp> a(128), o(128); for (auto &x : a) { x = fp((float)r.range(-40, 40) / 8); if ((float)x == 0.0f) x = fp(1.0f); } typedef nsimd::fixed_point::pack<fp> P; size_t L = (size_t)nsimd::fixed_point::len(fp()); P x = nsimd::fixed_point::loadu<P>(&a[0]), y = nsimd::fixed_point::loadu<P>(&a[64]); nsimd::fixed_point::storeu(&o[0], x * y); nsimd::fixed_point::storeu(&o[64], x / y); std::vector<float> f(2 * L); for (size_t i = 0; i < L; i++) { f[i] = (float)o[i]; f[L + i] = (float)o[64 + i]; } return H(f, 15);
}
static u64t alloc_(Rng &r) {
  u64t h = 17; std::vector<std::pair<unsigned char *, size_t> > live;
  for (int i = 0; i < 24; i++) {
    if (live.size() < 8 && r.chance(2, 3)) { size_t n = 1 + r.below(300); unsigned char *p = (unsigned char *)nsimd_aligned_alloc((nsimd_nat)n); memset(p, (int)(r.next() & 0xff), n); live.push_back({p, n}); }
    else if (live.size()) { size_t k = r.below(live.size()); h = hash_bytes(live[k].first, live[k].second, h); nsimd_aligned_free(live[k].first); live.erase(live.begin() + (long)k); }
  }
  for (auto &l : live) { h = hash_bytes(l.first, l.second, h); nsimd_aligned_free(l.first); }
  nsimd::paired_pointers_t<int> p = nsimd::pair_calloc<int>(33); for (int i = 0; i < 33; i++) h = h * 31 + (u64t)p.host_ptr[i]; nsimd::pair_free(p);
  std::vector<int, nsimd::allocator<int> > v; for (int i = 0; i < 50; i++) v.push_back((int)r.below(1000)); return hash_bytes(v.data(), v.size() * 4, h);
}
static u64t scalar_(Rng &r) {
  u64t h = 19; for (int i = 0; i < 20; i++) { float a = b2f(gen_flt(r, F32)), b = b2f(gen_flt(r, F32)); u16 x = nsimd_f32_to_u16(a); if ((x & 0x7fff) > 0x7c00) x = 0x7e00; h = hash_bytes(&x, 2, h); int u = a == a && b == b ? nsimd_ufp_f32(a, b) : 0; h = hash_bytes(&u, 4, h); } return h;
}
struct Task { const char *name; u64t (*f)(Rng &); };
#define GATH(T, I) {"gather_" #T, gathers<T, I>}
static const Task TASKS[] = {{"memory_i8", memory<i8>}, {"memory_u16", memory<u16>}, {"memory_i32", memory<i32>}, {"memory_u64", memory<u64>}, {"memory_f16", memory<f16>}, {"memory_f32", memory<f32>}, {"memory_f64", memory<f64>}, {"memory_u8", memory<u8>}, {"memory_i16", memory<i16>}, {"memory_u32", memory<u32>}, {"memory_i64", memory<i64>},
  GATH(i16, i16), GATH(u16, i16), GATH(f16, i16), GATH(i32, i32), GATH(u32, i32), GATH(f32, i32), GATH(i64, i64), GATH(u64, i64), GATH(f64, i64),
  {"put_i8", printing<i8>}, {"put_f16", printing<f16>}, {"put_u32", printing<u32>}, {"put_f64", printing<f64>},
  {"random", philox}, {"tet1d_i32", tet<i32>}, {"tet1d_f64", tet<f64>}, {"tet1d_u8", tet<u8>}, {"spmd", spmd_}, {"fixed_point", fixed_}, {"alloc", alloc_}, {"scalar", scalar_}};
static const int NTASK = sizeof TASKS / sizeof *TASKS;
static u64t go(int k, u64t s) { Rng r(s * 131 + (u64t)k); return TASKS[k].f(r); }
int main(int argc, char **argv) {
  bool rp = vp::init(argc, argv); int only = -1; u64t base = vp::seed * 1000;
  if (rp) { auto h = vp::nums(vp::field("case")); if (h.size() < 2) return 2; only = (int)h[0]; base = (u64t)h[1]; vp::iters = 400; }
  const int V = 8; std::vector<u64t> ref(NTASK * V);
  unsigned m0 = _mm_getcsr() & ~0x3fu;
  for (int k = 0; k < NTASK; k++) for (int i = 0; i < V; i++) {
    if (only >= 0 && k != only) continue; vp::current = TASKS[k].name; ref[k * V + i] = go(k, base + i); u64t again = go(k, base + i);
    char rep[64]; snprintf(rep, 64, "case %d %llu\n", k, (unsigned long long)base); vp::eval(hash_bytes(rep, strlen(rep), i), true);
    if (again != ref[k * V + i]) vp::fail("history:" + std::string(TASKS[k].name), std::string(TASKS[k].name) + " gives another result when run again", rep);
    if ((_mm_getcsr() & ~0x3fu) != m0) { _mm_setcsr(m0); vp::fail("fpcontrol:" + std::string(TASKS[k].name), std::string(TASKS[k].name) + " changes the floating-point control register", rep); }
  }
  // same task on all threads for a while, then mixed
  for (u64t round = 0; round < vp::iters; round++) {
    std::atomic<long> bad(-1); std::atomic<int> ready(0); std::vector<std::thread> th; int same = round % 3 != 2 ? (only >= 0 ? only : (int)(round % NTASK)) : only;
    for (int t = 0; t < 8; t++) th.emplace_back([&, t]() {
      Rng r(vp::seed * 977 + round * 8 + (u64t)t); ready++; while (ready < 8) __builtin_ia32_pause();
      for (int j = 0; j < 60; j++) { int k = same >= 0 ? same : (int)r.below(NTASK), i = (int)r.below(V); if (go(k, base + (u64t)i) != ref[k * V + i]) bad = k; }
    });
    for (auto &t : th) t.join(); vp::evals += 480; long b = bad;
    if (round < 3) vp::sample("8 threads x 60 runs of " + std::string(same >= 0 ? TASKS[same].name : "mixed tasks"));
    char rep[64]; snprintf(rep, 64, "case %ld %llu\n", b, (unsigned long long)base);
    if (b >= 0) vp::fail("threads:" + std::string(TASKS[b].name), std::string(TASKS[b].name) + " gives another result next to other threads", rep);
  }
  return vp::finish();
}
