// Counter-based generators against the published algorithms (Random123).
#include "prog.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/random/functions.hpp>
using namespace vp;
static const u64t M32[3] = {0xD256D193u, 0xD2511F53u, 0xCD9E8D57u}, M64[3] = {0xD2B74407B1CE6E93ull, 0xD2E7470EE14C6C93ull, 0xCA5A826395121157ull};
static const u64t W32[2] = {0x9E3779B9u, 0xBB67AE85u}, W64[2] = {0x9E3779B97F4A7C15ull, 0xBB67AE8584CAA73Bull};
static void mulhl(int ws, u64t a, u64t b, u64t *h, u64t *l) { if (ws == 32) { u64t p = a * b; *h = p >> 32; *l = p & 0xffffffffu; } else { u128t p = (u128t)a * b; *h = (u64t)(p >> 64); *l = (u64t)p; } }
static void ref_philox(int ws, int n, int rounds, const u64t *ctr, const u64t *key, u64t *out) {
  const u64t *M = ws == 32 ? M32 : M64, *W = ws == 32 ? W32 : W64; u64t mk = ws == 32 ? 0xffffffffu : ~0ull, c[4], k[2];
  for (int i = 0; i < n; i++) c[i] = ctr[i]; for (int i = 0; i < n / 2; i++) k[i] = key[i];
  for (int r = 0; r < rounds; r++) {
    if (r) for (int i = 0; i < n / 2; i++) k[i] = (k[i] + W[i]) & mk;
    if (n == 2) { u64t h, l; mulhl(ws, M[0], c[0], &h, &l); c[0] = h ^ k[0] ^ c[1]; c[1] = l; }
    else { u64t h0, l0, h1, l1; mulhl(ws, M[1], c[0], &h0, &l0); mulhl(ws, M[2], c[2], &h1, &l1); u64t d[4] = {h1 ^ c[1] ^ k[0], l1, h0 ^ c[3] ^ k[1], l0}; memcpy(c, d, sizeof c); }
  }
  for (int i = 0; i < n; i++) out[i] = c[i];
}
static const int R2_32[8] = {13, 15, 26, 6, 17, 29, 16, 24}, R2_64[8] = {16, 42, 12, 31, 16, 32, 24, 21};
static const int R4_32[8][2] = {{10, 26}, {11, 21}, {13, 27}, {23, 5}, {6, 20}, {17, 11}, {25, 10}, {18, 20}}, R4_64[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}};
static void ref_threefry(int ws, int n, int rounds, const u64t *ctr, const u64t *key, u64t *out) {
  u64t mk = ws == 32 ? 0xffffffffu : ~0ull, ks[5], x[4]; ks[n] = ws == 32 ? 0x1BD11BDAu : 0x1BD11BDAA9FC1A22ull;
  for (int i = 0; i < n; i++) { ks[i] = key[i]; ks[n] ^= key[i]; }
  for (int i = 0; i < n; i++) x[i] = (ctr[i] + ks[i]) & mk;
  auto rot = [&](u64t v, int r) { return ((v << r) | (v >> (ws - r))) & mk; };
  for (int r = 0; r < rounds; r++) {
    if (n == 2) { x[0] = (x[0] + x[1]) & mk; x[1] = rot(x[1], (ws == 32 ? R2_32 : R2_64)[r % 8]) ^ x[0]; }
    else {
      const int *R = (ws == 32 ? R4_32 : R4_64)[r % 8]; int a = r % 2 ? 3 : 1, b = r % 2 ? 1 : 3;
      x[0] = (x[0] + x[a]) & mk; x[a] = rot(x[a], R[0]) ^ x[0]; x[2] = (x[2] + x[b]) & mk; x[b] = rot(x[b], R[1]) ^ x[2];
    }
    if (r % 4 == 3) { int s = (r + 1) / 4; for (int i = 0; i < n; i++) x[i] = (x[i] + ks[(s + i) % (n + 1)]) & mk; x[n - 1] = (x[n - 1] + (u64t)s) & mk; }
  }
  for (int i = 0; i < n; i++) out[i] = x[i];
}
struct Gen { const char *name; int ph, ws, n, rounds; std::function<void(const u64t *c, const u64t *k, u64t *o)> f; int len; };
// arrays are word-major: word w of lane i at [w * len + i]
template <class T> static nsimd::pack<T> ld(const u64t *p, int L) { T b[64]; for (int i = 0; i < L; i++) b[i] = (T)p[i]; return nsimd::loadu<nsimd::pack<T> >(b); }
template <class T> static void st(u64t *p, int L, nsimd::pack<T> v) { T b[64]; nsimd::storeu(b, v); for (int i = 0; i < L; i++) p[i] = b[i]; }
template <class T> static void mk(nsimd::packx1<T> &p, const u64t *s, int L) { p.v0 = ld<T>(s, L); }
template <class T> static void mk(nsimd::packx2<T> &p, const u64t *s, int L) { p.v0 = ld<T>(s, L); p.v1 = ld<T>(s + L, L); }
template <class T> static void mk(nsimd::packx4<T> &p, const u64t *s, int L) { p.v0 = ld<T>(s, L); p.v1 = ld<T>(s + L, L); p.v2 = ld<T>(s + 2 * L, L); p.v3 = ld<T>(s + 3 * L, L); }
template <class T> static void un(const nsimd::packx2<T> &p, u64t *s, int L) { st<T>(s, L, p.v0); st<T>(s + L, L, p.v1); }
template <class T> static void un(const nsimd::packx4<T> &p, u64t *s, int L) { st<T>(s, L, p.v0); st<T>(s + L, L, p.v1); st<T>(s + 2 * L, L, p.v2); st<T>(s + 3 * L, L, p.v3); }
#define G(ALG, P, N, K, WS, R) gens.push_back({#ALG "_" #N "x" #WS "_" #R, P, WS, N, R, [](const u64t *c, const u64t *k, u64t *o) { typedef u##WS T; int L = nsimd::len(T()); nsimd::packx##N<T> in; nsimd::packx##K<T> key; mk(in, c, L); mk(key, k, L); un<T>(nsimd::random::ALG##_##N##x##WS##_##R(in, key), o, L); }, nsimd::len(u##WS())});
int main(int argc, char **argv) {
  bool rp = init(argc, argv);
  // the reference itself against published known answers (counter = key = 0)
  {
    u64t z[4] = {0}, o[4]; auto chk = [&](bool ph, int ws, int n, int r, std::vector<u64t> e) { if (ph) ref_philox(ws, n, r, z, z, o); else ref_threefry(ws, n, r, z, z, o); for (int i = 0; i < n; i++) if (o[i] != e[i]) { fprintf(stderr, "reference model is wrong\n"); exit(2); } };
    chk(1, 32, 4, 10, {0x6627e8d5, 0xe169c58d, 0xbc57ac4c, 0x9b00dbd8}); chk(1, 32, 2, 10, {0xff1dae59, 0x6cd10df2}); chk(1, 64, 2, 10, {0xca00a0459843d731ull, 0x66c24222c9a845b5ull}); chk(1, 64, 4, 10, {0x16554d9eca36314cull, 0xdb20fe9d672d0fdcull, 0xd7e772cee186176bull, 0x7e68b68aec7ba23bull});
    chk(0, 32, 4, 20, {0x9c6ca96a, 0xe17eae66, 0xfc10ecd4, 0x5256a7d8}); chk(0, 32, 2, 20, {0x6b200159, 0x99ba4efe}); chk(0, 64, 2, 20, {0xc2b6e3a8c2c69865ull, 0x6f81ed42f350084dull}); chk(0, 64, 4, 20, {0x09218ebde6c85537ull, 0x55941f5266d86105ull, 0x4bd25e16282434dcull, 0xee29ec846bd2e40bull});
  }
  std::vector<Gen> gens;
  G(philox, 1, 2, 1, 32, 10) G(philox, 1, 4, 2, 32, 7) G(philox, 1, 4, 2, 32, 10) G(philox, 1, 2, 1, 64, 6) G(philox, 1, 2, 1, 64, 10) G(philox, 1, 4, 2, 64, 7) G(philox, 1, 4, 2, 64, 10)
  G(threefry, 0, 2, 2, 32, 12) G(threefry, 0, 2, 2, 32, 20) G(threefry, 0, 2, 2, 32, 32) G(threefry, 0, 4, 4, 32, 12) G(threefry, 0, 4, 4, 32, 20) G(threefry, 0, 4, 4, 32, 72)
  G(threefry, 0, 2, 2, 64, 13) G(threefry, 0, 2, 2, 64, 20) G(threefry, 0, 2, 2, 64, 32) G(threefry, 0, 4, 4, 64, 12) G(threefry, 0, 4, 4, 64, 20) G(threefry, 0, 4, 4, 64, 72)
  auto run = [&](const Gen &g, const u64t *c, const u64t *k, int *badlane) -> std::string {
    int L = g.len, kn = g.ph ? g.n / 2 : g.n; u64t o[4 * 64]; memset(o, 0, sizeof o); current = g.name; g.f(c, k, o);
    for (int i = 0; i < L; i++) {
      u64t cc[4], kk[4], e[4]; for (int w = 0; w < g.n; w++) cc[w] = c[w * L + i]; for (int w = 0; w < kn; w++) kk[w] = k[w * L + i];
      if (g.ph) ref_philox(g.ws, g.n, g.rounds, cc, kk, e); else ref_threefry(g.ws, g.n, g.rounds, cc, kk, e);
      for (int w = 0; w < g.n; w++) if (e[w] != o[w * L + i]) { *badlane = i; char b[200]; snprintf(b, 200, "lane %d word %d: got %llx, expected %llx", i, w, (unsigned long long)o[w * L + i], (unsigned long long)e[w]); return b; }
    }
    return "";
  };
  auto txt = [&](const Gen &g, const u64t *c, const u64t *k) { std::string s = std::string("gen ") + g.name + "\nctr"; int kn = g.ph ? g.n / 2 : g.n; char b[40]; for (int i = 0; i < g.n * g.len; i++) { snprintf(b, 40, " 0x%llx", (unsigned long long)c[i]); s += b; } s += "\nkey2"; for (int i = 0; i < kn * g.len; i++) { snprintf(b, 40, " 0x%llx", (unsigned long long)k[i]); s += b; } return s + "\n"; };
  if (rp) {
    for (auto &g : gens) if (field("gen") == g.name) {
      u64t c[256] = {0}, k[256] = {0}; auto rd = [](const std::string &s, u64t *d) { const char *p = s.c_str(); char *q; for (int i = 0; i < 256; i++) { d[i] = strtoull(p, &q, 0); if (q == p) { d[i] = 0; break; } p = q; } };
      rd(field("ctr"), c); rd(field("key2"), k); int bl; std::string w = run(g, c, k, &bl); if (!w.empty()) fail(g.name, w, "");
    }
    return finish();
  }
  Rng r(seed * 31 + 7);
  auto word = [&](int ws) -> u64t { u64t m = ws == 32 ? 0xffffffffu : ~0ull; switch (r.below(8)) { case 0: return 0; case 1: return m; case 2: return 1ull << r.below(ws); case 3: return m ^ (1ull << r.below(ws)); case 4: return r.below(4); case 5: { u64t h = ws / 2; return (r.chance(1, 2) ? (1ull << h) - 1 : ((1ull << h) - 1) << h) & m; } default: return r.next() & m; } };
  for (u64t it = 0; it < iters; it++) for (auto &g : gens) {
    if (failed(g.name)) continue;
    int L = g.len, kn = g.ph ? g.n / 2 : g.n; u64t c[256], k[256]; int mode = (int)r.below(4);
    for (int i = 0; i < g.n * L; i++) c[i] = mode == 0 && i % L ? c[i - 1] + (i < L) : mode == 1 ? r.next() & (g.ws == 32 ? 0xffffffffu : ~0ull) : word(g.ws);
    if (g.ws == 32) for (int i = 0; i < g.n * L; i++) c[i] &= 0xffffffffu;
    bool samekey = r.chance(1, 3); for (int i = 0; i < kn * L; i++) k[i] = samekey && i % L ? k[i - 1] : word(g.ws);
    eval(hash_bytes(c, sizeof(u64t) * g.n * L, hash_bytes(k, sizeof(u64t) * kn * L, 1)), true);
    int bl = 0; std::string w = run(g, c, k, &bl);
    if (it == 0) sample(txt(g, c, k).substr(0, 160));
    if (!w.empty()) { // shrink: zero lanes, then words, then bits
      auto bad = [&] { int x; return !run(g, c, k, &x).empty(); };
      for (int i = 0; i < g.n * L; i++) if (c[i]) { u64t o = c[i]; c[i] = 0; if (!bad()) c[i] = o; }
      for (int i = 0; i < kn * L; i++) if (k[i]) { u64t o = k[i]; k[i] = 0; if (!bad()) k[i] = o; }
      for (u64t *p : {c, k}) for (int i = 0; i < (p == c ? g.n : kn) * L; i++) for (int b = 0; b < g.ws; b++) if (p[i] >> b & 1) { p[i] ^= 1ull << b; if (!bad()) p[i] ^= 1ull << b; }
      w = run(g, c, k, &bl); fail(g.name, w, txt(g, c, k));
    }
  }
  return finish();
}
