// Printing registers: put, putl, vput and the stream operators of packs.
#include "prog.hpp"
#include <cstdio>
#include <nsimd/nsimd-all.hpp>
#include <sstream>
typedef nsimd::NSIMD_SIMD ext;

// -- a stream that accepts `limit` bytes and then fails ----------------------
struct Sink { std::string s; long limit; bool err; };
static ssize_t sink_write(void *c, const char *b, size_t n) {
  Sink *k = (Sink *)c;
  if (k->limit >= 0 && (long)(k->s.size() + n) > k->limit) { k->err = true; return 0; }
  k->s.append(b, n); return (ssize_t)n;
}
static FILE *open_sink(Sink *k, bool buffered) {
  cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = sink_write;
  FILE *f = fopencookie(k, "w", io); if (!f) { fprintf(stderr, "fopencookie\n"); exit(2); }
  if (!buffered) setvbuf(f, 0, _IONBF, 0);
  return f;
}

// -- expected text -----------------------------------------------------------
template <class T> struct Tr;
#define TR(T, TY, DEF, PROMO) template <> struct Tr<T> { static const Ty ty = TY; static const char *def() { return DEF; } typedef PROMO promo; static promo val(u64t b) { T x; memcpy(&x, &b, sizeof x); return (promo)x; } };
TR(i8, I8, "%d", int) TR(u8, U8, "%d", int) TR(i16, I16, "%d", int) TR(u16, U16, "%d", int) TR(i32, I32, "%d", int) TR(u32, U32, "%u", unsigned) TR(i64, I64, "%lld", long long) TR(u64, U64, "%llu", unsigned long long) TR(f32, F32, "%e", double) TR(f64, F64, "%e", double)
template <> struct Tr<f16> { static const Ty ty = F16; static const char *def() { return "%e"; } typedef double promo; static double val(u64t b) { return fval(F16, b); } };

static const char *FM_I[] = {0, "%d", "%5d", "<%d>", "%x", "%+04d", "%-6d|", "a%%%d"};
static const char *FM_L[] = {0, "%lld", "%24lld", "<%lld>", "%llx", "%+025lld", "%-22lld|", "a%%%lld"};
static const char *FM_F[] = {0, "%g", "%.17g", "<%f>", "%12.3e", "%a", "%-24.16g|", "%.0f"};
template <class T> static const char *fmt_of(int k) { Ty t = Tr<T>::ty; return is_float(t) ? FM_F[k] : ty_size(t) == 8 ? FM_L[k] : FM_I[k]; }

template <class T> static std::string one(const char *fmt, u64t b) {
  char s[2048]; snprintf(s, sizeof s, fmt ? fmt : Tr<T>::def(), Tr<T>::val(b)); return s;
}
template <class T> static std::string text(const char *fmt, const std::vector<u64t> &v) {
  std::string s = "{ "; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + one<T>(fmt, v[i]); return s + " }";
}
template <class P> static void big(std::ostream &o, P v) { o << v; }
static void big(std::ostream &o, int v) { o << (long long)v; }

template <class T> static u64t truth_bits(bool b) { Ty t = Tr<T>::ty; return !b ? 0 : t == F16 ? 0x3c00 : t == F32 ? 0x3f800000 : t == F64 ? 0x3ff0000000000000ull : 1; }

// form: 0 put C++ 4 arguments, 1 put C++ with extension, 2 vput, 3 vput_e,
// 4 putl, 5 vput of a logical; 10 + N stream of pack N, 20 + N of packl N
struct Case { int form, fmt; long limit; bool buffered; int prec; std::string pre; std::vector<u64t> v; };

template <class T> struct Put { static int c(FILE *f, const char *m, typename nsimd::simd_traits<T, ext>::simd_vector v, int e); static int l(FILE *f, const char *m, typename nsimd::simd_traits<T, ext>::simd_vectorl v); };
#define PUT(T) template <> int Put<T>::c(FILE *f, const char *m, nsimd::simd_traits<T, ext>::simd_vector v, int e) { return e ? vput_e(f, m, v, T, NSIMD_SIMD) : vput(f, m, v, T); } template <> int Put<T>::l(FILE *f, const char *m, nsimd::simd_traits<T, ext>::simd_vectorl v) { return vput(f, m, v, l##T); }
PUT(i8) PUT(u8) PUT(i16) PUT(u16) PUT(i32) PUT(u32) PUT(i64) PUT(u64) PUT(f16) PUT(f32) PUT(f64)

template <class T, int N> static void stream(std::ostream &o, const T *m, bool logical) {
  if (logical) o << nsimd::loadlu<nsimd::packl<T, N, ext> >(m); else o << nsimd::loadu<nsimd::pack<T, N, ext> >(m);
}
template <class T> static bool bad(const Case &c, std::string *msg) {
  using namespace nsimd; int L = nsimd::len(T(), ext()); bool lg = c.form == 4 || c.form == 5 || c.form >= 20;
  std::vector<T> m(c.v.size() + 1); for (size_t i = 0; i < c.v.size(); i++) memcpy(&m[i], &c.v[i], sizeof(T));
  std::vector<u64t> shown = c.v; if (lg) for (auto &x : shown) x = truth_bits<T>(x != 0);
  if (c.form >= 10) {
    int N = c.form % 10; std::ostringstream o, e; o.precision(c.prec); e.precision(c.prec); o << c.pre; e << c.pre;
    switch (N) { case 1: stream<T, 1>(o, &m[0], lg); break; case 2: stream<T, 2>(o, &m[0], lg); break; case 3: stream<T, 3>(o, &m[0], lg); break; default: stream<T, 4>(o, &m[0], lg); }
    for (int r = 0; r < N; r++) { e << (r ? ", { " : "{ "); for (int i = 0; i < L; i++) { if (i) e << ", "; big(e, Tr<T>::val(shown[r * L + i])); } e << " }"; }
    if (o.str() == e.str()) return false; if (msg) *msg = "stream printed \"" + o.str() + "\", expected \"" + e.str() + "\""; return true;
  }
  const char *fm = fmt_of<T>(c.fmt); std::string ex = text<T>(fm, shown);
  Sink k; k.limit = c.limit < 0 ? -1 : (long)c.pre.size() + c.limit; k.err = false; FILE *f = open_sink(&k, c.buffered && c.limit < 0); fputs(c.pre.c_str(), f);
  int ret;
  if (lg) { auto l = loadlu(&m[0], T(), ext()); ret = c.form == 4 ? putl(f, fm, l, T(), ext()) : Put<T>::l(f, fm, l); }
  else { auto v = loadu(&m[0], T(), ext()); ret = c.form == 0 ? put(f, fm, v, T()) : c.form == 1 ? put(f, fm, v, T(), ext()) : Put<T>::c(f, fm, v, c.form == 3); }
  bool ferr = k.err; fclose(f); std::string got = k.s; std::string e2 = c.pre + ex;
  if (!ferr) {
    if (got == e2 && ret == (int)ex.size()) return false;
    if (msg) *msg = "printed \"" + got + "\" and returned " + std::to_string(ret) + ", expected \"" + e2 + "\" and " + std::to_string(ex.size()); return true;
  }
  if (ret < 0 && got.size() <= e2.size() && !e2.compare(0, got.size(), got)) return false;
  if (msg) *msg = "stream failing after " + std::to_string(c.limit) + " bytes: returned " + std::to_string(ret) + " and printed \"" + got + "\" of \"" + e2 + "\""; return true;
}
static std::string rep(Ty t, const Case &c) { std::string s = "case " + std::to_string((int)t) + " " + std::to_string(c.form) + " " + std::to_string(c.fmt) + " " + std::to_string(c.limit) + " " + std::to_string(c.buffered) + " " + std::to_string(c.prec) + "\npre " + c.pre + "\nv"; char b[32]; for (auto x : c.v) { snprintf(b, 32, " 0x%llx", (unsigned long long)x); s += b; } return s + "\n"; }
template <class T> static void judge(Case c) {
  const Ty t = Tr<T>::ty; std::string key = std::string(ty_name[t]) + ":form" + std::to_string(c.form) + (c.limit >= 0 ? ":fault" : "") + ":" + vp::extname;
  std::string r = rep(t, c); vp::current = r; bool nt = false; for (auto x : c.v) if (x != c.v[0]) nt = true;
  vp::eval(hash_bytes(r.data(), r.size(), 17), nt || c.v.size() == 1);
  if (vp::failed(key) || !bad<T>(c, 0) || !bad<T>(c, 0)) return;
  for (size_t i = 0; i < c.v.size(); i++) if (c.v[i]) { Case d = c; d.v[i] = 0; if (bad<T>(d, 0)) { c = d; continue; } d.v[i] = truth_bits<T>(true); if (c.v[i] != d.v[i] && bad<T>(d, 0)) c = d; }
  { Case d = c; d.pre = ""; if (bad<T>(d, 0)) c = d; d = c; d.fmt = 0; if (bad<T>(d, 0)) c = d; d = c; d.limit = -1; if (bad<T>(d, 0)) c = d; }
  std::string m; bad<T>(c, &m); vp::fail(key, m, rep(t, c));
}
template <class T> static void run() {
  const Ty t = Tr<T>::ty; Rng r(vp::seed * 1009 + t); int L = nsimd::len(T(), ext());
  for (u64t i = 0; i < vp::iters; i++) {
    Case c; c.limit = -1; c.buffered = r.chance(1, 2); c.prec = 1 + (int)r.below(20); c.pre = r.chance(1, 2) ? "" : "x = ";
    int k = (int)r.below(14); c.form = k < 6 ? k : (k < 10 ? 10 : 16) + k - 5; c.fmt = (int)r.below(8); if (c.form >= 10) c.fmt = 0; if (c.form >= 16) c.form += 0;
    if (k >= 10) c.form = 20 + k - 9;
    bool lg = c.form == 4 || c.form == 5 || c.form >= 20; int n = c.form >= 10 ? L * (c.form % 10) : L; u64t base = is_float(t) ? gen_flt(r, t) : gen_int(r, t); int mode = (int)r.below(4);
    for (int j = 0; j < n; j++) {
      u64t x; if (lg) x = mode == 0 ? (r.chance(1, 6) ? 1 : 0) : mode == 1 ? (r.chance(5, 6) ? 1 : 0) : r.below(2), x = truth_bits<T>(x != 0);
      else { x = mode == 0 && !r.chance(1, L) ? base : mode == 1 ? (is_float(t) ? enc_double(t, (double)r.range(-99, 99)) : (u64t)r.range(-99, 99) & ty_mask(t)) : is_float(t) ? gen_flt(r, t) : gen_int(r, t); if (is_float(t) && isnan_bits(t, x)) x = 0; }
      c.v.push_back(x & ty_mask(t));
    }
    if (c.form < 10 && r.chance(1, 4)) c.limit = r.chance(1, 3) ? (long)r.below(8) : (long)r.below(4 + (u64t)n * 12);
    judge<T>(c); if (i == 2) vp::sample(rep(t, c));
  }
}
template <class T> static void again(const std::vector<long long> &h) { Case c; c.form = (int)h[1]; c.fmt = (int)h[2]; c.limit = (long)h[3]; c.buffered = h[4] != 0; c.prec = (int)h[5]; c.pre = vp::field("pre"); for (auto &l : vp::lines(vp::replay)) if (l[0] == 'v' && l[1] == ' ') { const char *p = l.c_str() + 1; char *q; for (;;) { u64t v = strtoull(p, &q, 0); if (q == p) break; c.v.push_back(v); p = q; } } judge<T>(c); }
int main(int argc, char **argv) {
  if (vp::init(argc, argv)) {
    auto h = vp::nums(vp::field("case")); if (h.size() < 6) return 2;
    switch ((Ty)h[0]) { case I8: again<i8>(h); break; case U8: again<u8>(h); break; case I16: again<i16>(h); break; case U16: again<u16>(h); break; case I32: again<i32>(h); break; case U32: again<u32>(h); break; case I64: again<i64>(h); break; case U64: again<u64>(h); break; case F16: again<f16>(h); break; case F32: again<f32>(h); break; default: again<f64>(h); }
    return vp::finish();
  }
  run<i8>(); run<u8>(); run<i16>(); run<u16>(); run<i32>(); run<u32>(); run<i64>(); run<u64>(); run<f16>(); run<f32>(); run<f64>();
  return vp::finish();
}
