// Histories over the allocation entry points.
#include "hist.hpp"
#include <sys/resource.h>
using namespace vp;
extern "C" {
int sh_std(void); int sh_max_align(void); void *sh_alloc(int, int, long long, int *); void sh_free(int, int, void *, long long);
void *sh_scoped_new(int, long long); void *sh_scoped_get(int, void *, int); void sh_scoped_del(int, void *);
void *sh_vec_new(void); void sh_vec_del(void *); int sh_vec_op(void *, void *, int, long long, long long); long long sh_vec_size(void *); int *sh_vec_data(void *); int sh_eq(void);
}
static const int SZ[11] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2};
struct Blk { u8t *p; size_t n; int kind, t; long long cnt; u64t pat; void *own; };
static u8t pat(u64t s, size_t i) { return (u8t)((s * 0x9E3779B97F4A7C15ull + i * 0xD6E8FEB86659FD93ull) >> 37); }
static const int NV = 4;
// operations: 0 alloc(kind+8*type, n), 1 free(index), 2 rewrite(index), 3 scoped(type, n), 4 vector(op, vec, a, b), 5 impossible(kind+8*type, n), 6 verify all, 7 churn(kind, n)
static std::string body(const Hist &h, volatile int *step) {
  std::vector<Blk> live; std::vector<int> mv[NV]; void *vv[NV]; for (auto &v : vv) v = sh_vec_new();
  std::map<u8t *, size_t> at; u64t cnt = 0; char b[256];
  auto check = [&](const Blk &k) -> bool { for (size_t i = 0; i < k.n; i++) if (k.p[i] != pat(k.pat, i)) return false; return true; };
  auto fill = [&](Blk &k) { k.pat = ++cnt; for (size_t i = 0; i < k.n; i++) k.p[i] = pat(k.pat, i); };
  auto place = [&](const Blk &k, const char *what) -> std::string {
    if ((size_t)k.p % 64) { snprintf(b, 256, "%s returned %p: not aligned on 64 bytes", what, (void *)k.p); return b; }
    if ((size_t)k.p % (size_t)sh_max_align()) return std::string(what) + " result not aligned on NSIMD_MAX_ALIGNMENT";
    auto it = at.lower_bound(k.p);
    if (k.n && it != at.end() && k.p + k.n > it->first) return std::string(what) + " overlaps a live block";
    if (it != at.begin()) { --it; if (it->first + std::max<size_t>(it->second, 1) > k.p) return std::string(what) + " overlaps a live block"; }
    return "";
  };
  auto drop = [&](size_t i) -> std::string {
    Blk k = live[i]; if (!check(k)) return "content of a live block changed";
    at.erase(k.p); if (k.own) sh_scoped_del(k.t, k.own); else sh_free(k.kind, k.t, k.p, k.cnt);
    live.erase(live.begin() + i); return "";
  };
  if (!sh_eq()) return "allocators of the same kind compare different";
  for (size_t s = 0; s < h.size(); s++) {
    *step = (int)s; const Op &o = h[s]; std::string w;
    switch (o.k) {
    case 0: {
      int kind = (int)(o.a & 3), t = (int)((o.a >> 3) % 11), threw; long long n = o.b; Blk k; k.kind = kind; k.t = t; k.cnt = n; k.own = 0;
      k.n = (size_t)n * (kind >= 2 ? SZ[t] : 1); k.p = (u8t *)sh_alloc(kind, t, n, &threw);
      if (!k.p) { if (n) return "allocation of " + std::to_string(k.n) + " bytes refused"; break; }
      w = place(k, "allocation"); if (!w.empty()) return w; fill(k); at[k.p] = k.n; live.push_back(k); break;
    }
    case 1: if (!live.empty()) { w = drop((size_t)o.b % live.size()); if (!w.empty()) return w; } break;
    case 2: if (!live.empty()) { Blk &k = live[(size_t)o.b % live.size()]; if (!check(k)) return "content of a live block changed"; fill(k); } break;
    case 3: {
      int t = (int)(o.a % 11); long long n = o.b + 1; Blk k; k.kind = 9; k.t = t; k.cnt = n; k.n = (size_t)n * SZ[t]; k.own = sh_scoped_new(t, n); k.p = (u8t *)sh_scoped_get(t, k.own, 0);
      if (sh_scoped_get(t, k.own, 1) != (void *)k.p) return "const and non-const get() differ";
      w = place(k, "scoped memory"); if (!w.empty()) return w;
      for (size_t i = 0; i < k.n; i++) if (k.p[i]) return "scoped memory is not zero initialised"; // std::vector semantics
      fill(k); at[k.p] = k.n; live.push_back(k); break;
    }
    case 4: {
      int op = (int)(o.a & 15) % 12, v = (int)((o.a >> 4) % NV), u = (int)((o.a >> 6) % NV); if (u == v) u = (v + 1) % NV; auto &m = mv[v], &x = mv[u]; long long a = o.b, c = o.c;
      if (sh_vec_op(vv[v], vv[u], op, a, c)) return "a vector operation failed";
      switch (op) {
      case 0: m.push_back((int)a); break; case 1: if (!m.empty()) m.pop_back(); break; case 2: m.resize((size_t)a, (int)c); break;
      case 3: m.insert(m.begin() + (m.empty() ? 0 : (size_t)a % m.size()), (size_t)(c % 300), (int)a); break;
      case 4: if (!m.empty()) { size_t i = (size_t)a % m.size(), j = i + (size_t)c % (m.size() - i + 1); m.erase(m.begin() + i, m.begin() + j); } break;
      case 5: m.assign((size_t)a, (int)c); break; case 6: m = x; break; case 7: m.swap(x); break;
      case 8: { std::vector<int> q(x); m = q; m.insert(m.end(), x.begin(), x.end()); break; } case 9: m.clear(); break; default: break;
      }
      for (int i = 0; i < NV; i++) {
        if ((long long)mv[i].size() != sh_vec_size(vv[i])) return "vector size differs from the model";
        int *d = sh_vec_data(vv[i]); if (d && (size_t)d % 64) return "vector storage is not aligned on 64 bytes";
        if (d && memcmp(d, mv[i].data(), mv[i].size() * 4)) return "vector content differs from the model";
      }
      break;
    }
    case 5: {
      int kind = (int)(o.a & 3), t = (int)((o.a >> 3) % 11), threw; if (kind < 2) kind += 2; 
      unsigned __int128 bytes = (unsigned __int128)(unsigned long long)o.b * SZ[t]; if (bytes < ((unsigned __int128)1 << 62)) break; // may be possible
      if (o.b < 0) break;
      void *p = sh_alloc(kind, t, o.b, &threw);
      if (p) { snprintf(b, 256, "request for %lld elements of %d bytes was granted", o.b, SZ[t]); return b; }
      if (kind == 3 && !threw) return "allocator returned a null pointer instead of throwing";
      break;
    }
    case 6: for (auto &k : live) if (!check(k)) return "content of a live block changed"; break;
    case 7: {
      int kind = (int)(o.a & 3), t = (int)((o.a >> 3) % 11), threw;
      for (int i = 0; i < 300; i++) { void *p = sh_alloc(kind, t, o.b, &threw); if (!p) return "allocation refused after blocks were freed (memory is not given back)"; memset(p, 1, 64); sh_free(kind, t, p, o.b); }
      break;
    }
    }
  }
  *step = (int)h.size(); while (!live.empty()) { std::string w = drop(live.size() - 1); if (!w.empty()) return w; }
  for (auto &v : vv) sh_vec_del(v);
  return "";
}
int main(int argc, char **argv) {
  bool rp = init(argc, argv); bool asan = !args.empty() && args[0] == "asan";
  auto go = [&](const Hist &h) { return run_child([&](const Hist &x, volatile int *st) { if (!asan) { struct rlimit l; l.rlim_cur = l.rlim_max = 1ull << 30; setrlimit(RLIMIT_AS, &l); } return body(x, st); }, h); };
  Body bd = [&](const Hist &x, volatile int *st) { if (!asan) { struct rlimit l; l.rlim_cur = l.rlim_max = 1ull << 30; setrlimit(RLIMIT_AS, &l); } return body(x, st); };
  std::string tag = std::to_string(sh_std()) + (asan ? "-asan" : "");
  if (rp) { std::string w = go(parse_hist()); if (!w.empty()) fail("history:c++" + tag, w, ""); return finish(); }
  Rng r(seed * 1009 + sh_std() + asan);
  for (u64t it = 0; it < iters && fails.empty(); it++) {
    Hist h; int n = 20 + (int)r.below(180); int big = (int)r.below(4);
    for (int i = 0; i < n; i++) {
      Op o; int x = (int)r.below(100); o.a = (long long)(r.next() & 0x7fff); o.c = (long long)r.below(1000);
      long long sz = r.chance(1, 10) ? 0 : r.chance(1, 3) ? (long long)r.below(70) : r.chance(1, 2) ? 64 * (long long)r.below(20) + r.range(-1, 1) : (long long)r.below(big ? 5000 : 60000); if (sz < 0) sz = 1;
      if (x < 38) { o.k = 0; o.b = sz; } else if (x < 62) { o.k = 1; o.b = (long long)r.below(1000); } else if (x < 68) { o.k = 2; o.b = (long long)r.below(1000); }
      else if (x < 75) { o.k = 3; o.b = sz; } else if (x < 92) { o.k = 4; o.b = (long long)r.below(r.chance(1, 5) ? 3000 : 40); o.c = (long long)r.below(300); }
      else if (x < 96) { o.k = 5; int t = (int)((o.a >> 3) % 11); int s = SZ[t]; switch (r.below(5)) { case 0: o.b = (long long)((1ull << 63) - 1 - r.below(8)); break; case 1: o.b = (long long)((1ull << 62) + r.below(1000)); break; case 2: o.b = (long long)(((u128t)1 << 64) / s + r.below(100)); break; case 3: o.b = (long long)((1ull << 63) / s + r.below(100)); break; default: o.b = (long long)((r.next() >> 1) | (1ull << 61)); } if (o.b < 0) o.b = (long long)((1ull << 62) + 7); }
      else if (x < 98) { o.k = 6; o.b = 0; } else { o.k = 7; o.b = 200000 + (long long)r.below(800000); if (asan || r.chance(1, 2)) o.k = 6; }
      h.push_back(o);
    }
    std::string txt = show(h); eval(hash_bytes(txt.data(), txt.size(), 5), true); evals += h.size() - 1;
    std::string w = go(h);
    if (!w.empty()) { h = shrink_hist(bd, h); w = go(h); fail("history:c++" + tag, w, show(h)); }
    if (it < 2) sample("history of " + std::to_string(h.size()) + " operations (c++" + tag + "), first: " + show(Hist(h.begin(), h.begin() + 3)));
  }
  return finish();
}
