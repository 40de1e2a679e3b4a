// Histories over the host/device memory helpers of the memory_management module.
#include "hist.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/memory_management.hpp>
#include <sys/resource.h>
using namespace vp;
#define TYPES(M) M(0, i8) M(1, u8) M(2, i16) M(3, u16) M(4, i32) M(5, u32) M(6, i64) M(7, u64) M(8, f32) M(9, f64) M(10, f16)
static const int SZ[11] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2};
nsimd_fill_dev_mem_func(fillA, (i * 7 + 3) & 63)
nsimd_fill_dev_mem_func(fillB, i % 11 < 5 ? i % 100 : (i + 1) % 50)
static int fa(size_t i) { return (int)((i * 7 + 3) & 63); }
static int fb(size_t i) { return (int)(i % 11 < 5 ? i % 100 : (i + 1) % 50); }
// kinds: 0 device_malloc 1 device_calloc 2 pair_malloc 3 pair_calloc 4 pair_malloc_or_exit 5 pair_calloc_or_exit
struct Blk { int kind, t; size_t n; u8t *h, *d; size_t psz; std::vector<u8t> mh, md; bool defined, hdef; };
template <class T> static nsimd::paired_pointers_t<T> pp(const Blk &k) { nsimd::paired_pointers_t<T> p; p.device_ptr = (T *)k.d; p.host_ptr = (T *)k.h; p.sz = k.psz; return p; }
template <class T> static void al(Blk &k) {
  if (k.kind == 0) k.d = (u8t *)nsimd::device_malloc<T>(k.n);
  else if (k.kind == 1) k.d = (u8t *)nsimd::device_calloc<T>(k.n);
  else { nsimd::paired_pointers_t<T> p = k.kind == 2 ? nsimd::pair_malloc<T>(k.n) : k.kind == 3 ? nsimd::pair_calloc<T>(k.n) : k.kind == 4 ? nsimd::pair_malloc_or_exit<T>(k.n) : nsimd::pair_calloc_or_exit<T>(k.n); k.d = (u8t *)p.device_ptr; k.h = (u8t *)p.host_ptr; k.psz = p.sz; }
}
#define D(BODY) switch (k.t) { TYPES(BODY) }
static std::string body(const Hist &h, volatile int *step) {
  std::vector<Blk> live; Rng r(12345); u64t cnt = 1;
  // a device block is only read through the copy functions
  auto read_dev = [&](Blk &k, std::vector<u8t> &v, size_t cntel, size_t off) {
    v.assign(cntel * SZ[k.t] + 64, 0xA5); u8t *dst = v.data() + 32;
#define B(I, T) case I: nsimd::copy_to_host<T>((T *)dst, (T *)k.d + off, cntel); break;
    D(B)
#undef B
  };
  auto verify = [&](Blk &k) -> std::string {
    if (k.defined) {
      std::vector<u8t> v; read_dev(k, v, k.n, 0);
      for (size_t i = 0; i < 32; i++) if (v[i] != 0xA5 || v[v.size() - 1 - i] != 0xA5) return "copy_to_host wrote outside of the requested elements";
      if (memcmp(v.data() + 32, k.md.data(), k.md.size())) return "device content differs from what was last written";
    }
    if (k.h && k.hdef && memcmp(k.h, k.mh.data(), k.mh.size())) return "host content differs from what was last written";
    return "";
  };
  auto alias = [&](Blk &k) { return k.h && k.h == k.d; };
  for (size_t s = 0; s < h.size(); s++) {
    *step = (int)s; const Op &o = h[s]; std::string w;
    if (o.k == 0) { // allocate
      Blk k; k.kind = (int)(o.a % 6); k.t = (int)((o.a >> 3) % 11); k.n = (size_t)o.b; k.h = k.d = 0; k.psz = 0; k.defined = k.hdef = false;
#define B(I, T) case I: al<T>(k); break;
      D(B)
#undef B
      if (!k.d && k.n) return "allocation of " + std::to_string(k.n) + " elements refused";
      if (!k.d) continue;
      if (k.kind >= 2) { if (!k.h) return "pair without host pointer"; if (k.psz != k.n) return "pair size is not the requested number of elements"; }
      k.md.assign(k.n * SZ[k.t], 0); k.mh = k.md;
      if (k.kind == 1 || k.kind == 3 || k.kind == 5) k.defined = k.hdef = true; // zero filled
      w = verify(k); if (!w.empty()) return "after a zeroing allocation: " + w;
      live.push_back(k);
      continue;
    }
    if (o.k == 6) { // more memory than the process may use
      pid_t p = fork();
      if (p == 0) {
        struct rlimit l; l.rlim_cur = l.rlim_max = 1ull << 30; setrlimit(RLIMIT_AS, &l);
        Blk k; k.kind = (int)(o.a % 6); k.t = (int)((o.a >> 3) % 11); k.n = ((size_t)1 << 40) + (size_t)o.b; k.h = k.d = 0;
        if ((o.c & 1) && SZ[k.t] > 1) k.n = (size_t)-1 / (size_t)SZ[k.t] + 1 + (size_t)o.b; // the size in bytes wraps around
#define B(I, T) case I: al<T>(k); break;
        D(B)
#undef B
        if (k.kind >= 4) _exit(3); // should have ended the process
        _exit(k.d || k.h ? 4 : 0);
      }
      int st = 0; while (waitpid(p, &st, 0) < 0) {}
      int want = (o.a % 6) >= 4 ? EXIT_FAILURE : 0;
      if (!WIFEXITED(st) || WEXITSTATUS(st) != want) return "an impossible allocation was not reported (kind " + std::to_string(o.a % 6) + ")";
      continue;
    }
    if (o.k == 8) { // memory is given back
      pid_t p = fork();
      if (p == 0) {
        struct rlimit l; l.rlim_cur = l.rlim_max = 1ull << 30; setrlimit(RLIMIT_AS, &l);
        for (int i = 0; i < 400; i++) {
          Blk k; k.kind = (int)(o.a % 6); k.t = (int)((o.a >> 3) % 11); k.n = (size_t)(1 << 23) / (size_t)SZ[k.t]; k.h = k.d = 0;
#define B(I, T) case I: al<T>(k); break;
          D(B)
#undef B
          if (!k.d) _exit(3);
#define B(I, T) case I: if (k.kind < 2) nsimd::device_free<T>((T *)k.d); else nsimd::pair_free<T>(pp<T>(k)); break;
          D(B)
#undef B
        }
        _exit(0);
      }
      int st = 0; while (waitpid(p, &st, 0) < 0) {}
      if (!WIFEXITED(st) || WEXITSTATUS(st)) return "memory is not given back (kind " + std::to_string(o.a % 6) + ")";
      continue;
    }
    if (live.empty()) continue;
    size_t ix = (size_t)o.a % live.size(); Blk &k = live[ix]; size_t es = (size_t)SZ[k.t];
    switch (o.k) {
    case 1: // free
      w = verify(k); if (!w.empty()) return w;
      if (k.kind < 2) {
#define B(I, T) case I: nsimd::device_free<T>((T *)k.d); break;
        D(B)
#undef B
      } else {
#define B(I, T) case I: nsimd::pair_free<T>(pp<T>(k)); break;
        D(B)
#undef B
      }
      live.erase(live.begin() + (long)ix); break;
    case 2: { // fill on the device
      size_t m = k.n ? (size_t)o.b % (k.n + 1) : 0; if (o.c & 1) m = k.n; bool fA = o.c & 2; if (!k.defined) m = k.n;
#define B(I, T) case I: if (fA) fillA<T>((T *)k.d, m); else fillB<T>((T *)k.d, m); for (size_t i = 0; i < m; i++) { T x = nsimd::to<T>(fA ? fa(i) : fb(i)); memcpy(&k.md[i * es], &x, es); } break;
      D(B)
#undef B
      if (m == k.n) k.defined = true; if (alias(k)) { k.mh = k.md; k.hdef = k.defined; }
      break;
    }
    case 3: { // copy a part to the device
      if (!k.n) break; size_t off = (size_t)o.b % k.n, m = (size_t)o.c % (k.n - off + 1); if (!k.defined) { off = 0; m = k.n; }
      std::vector<u8t> sv(m * es); u64t p = ++cnt; for (size_t i = 0; i < sv.size(); i++) sv[i] = (u8t)((p * 0x9E3779B97F4A7C15ull + i * 77777) >> 13);
      std::vector<u8t> old = sv; sv.resize(sv.size() + 1);
#define B(I, T) case I: nsimd::copy_to_device<T>((T *)k.d + off, (T *)sv.data(), m); break;
      D(B)
#undef B
      if (memcmp(old.data(), sv.data(), old.size())) return "copy_to_device changed its source";
      if (m) memcpy(&k.md[off * es], old.data(), old.size()); if (m == k.n) k.defined = true; if (alias(k)) { k.mh = k.md; k.hdef = k.defined; }
      break;
    }
    case 4: { // read back a part
      if (!k.n || !k.defined) break; size_t off = (size_t)o.b % k.n, m = (size_t)o.c % (k.n - off + 1); std::vector<u8t> v; read_dev(k, v, m, off);
      for (size_t i = 0; i < 32; i++) if (v[i] != 0xA5 || v[v.size() - 1 - i] != 0xA5) return "copy_to_host wrote outside of the requested elements";
      if (m && memcmp(v.data() + 32, &k.md[off * es], m * es)) return "copy_to_host returned something else than the device content"; break;
    }
    case 5: { // pairs: write on the host, send, or fetch
      if (k.kind < 2) break;
      if (o.c % 3 == 0) { u64t p = ++cnt; for (size_t i = 0; i < k.mh.size(); i++) k.mh[i] = k.h[i] = (u8t)((p * 0x9E3779B97F4A7C15ull + i * 99991) >> 11); k.hdef = true; if (alias(k)) { k.md = k.mh; k.defined = true; } }
      else if (o.c % 3 == 1) { if (!k.hdef) break;
#define B(I, T) case I: nsimd::copy_to_device<T>(pp<T>(k)); break;
        D(B)
#undef B
        k.md = k.mh; k.defined = true; }
      else { if (!k.defined) break;
#define B(I, T) case I: nsimd::copy_to_host<T>(pp<T>(k)); break;
        D(B)
#undef B
        k.mh = k.md; k.hdef = true; }
      break;
    }
    case 7: for (auto &x : live) { w = verify(x); if (!w.empty()) return w; } break;
    }
    if (o.k > 1 && o.k < 7) { w = verify(k); if (!w.empty()) return w; }
  }
  for (auto &x : live) { std::string w = verify(x); if (!w.empty()) return w; }
  return "";
}
int main(int argc, char **argv) {
  bool rp = init(argc, argv); std::string tag = args.empty() ? "plain" : args[0]; bool asan = tag == "asan";
  Body bd = body;
  if (rp) { std::string w = run_child(bd, parse_hist()); if (!w.empty()) fail("history:" + tag, w, ""); return finish(); }
  Rng r(seed * 7 + asan);
  for (u64t it = 0; it < iters && fails.empty(); it++) {
    Hist h; int n = 15 + (int)r.below(150); bool big = r.chance(1, 5);
    for (int i = 0; i < n; i++) {
      Op o; int x = (int)r.below(100); o.a = (long long)(r.next() & 0x7fff); o.b = (long long)r.below(4096); o.c = (long long)r.below(4096);
      if (x < 25) { o.k = 0; o.b = r.chance(1, 12) ? 0 : (long long)r.below(r.chance(1, 2) ? 20 : big ? 20000 : 600); if (big && r.chance(1, 8)) o.b += 65536; } else if (x < 40) o.k = 1; else if (x < 55) o.k = 2; else if (x < 68) o.k = 3; else if (x < 78) o.k = 4; else if (x < 95) o.k = 5; else if (x < 97) o.k = asan ? 7 : r.chance(1, 20) ? 8 : 6; else o.k = 7;
      h.push_back(o);
    }
    std::string txt = show(h); eval(hash_bytes(txt.data(), txt.size(), 5), true); evals += h.size() - 1;
    std::string w = run_child(bd, h);
    if (!w.empty()) { h = shrink_hist(bd, h); w = run_child(bd, h); fail("history:" + tag, w, show(h)); }
    if (it < 2) sample("history of " + std::to_string(h.size()) + " operations (" + tag + "), first: " + show(Hist(h.begin(), h.begin() + 3)));
  }
  return finish();
}
