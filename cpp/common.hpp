// Shared by every driver: types, independent f16 model, PRNG, edge-biased
// generators, distinct-case counter.
#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
typedef uint8_t u8t; typedef uint16_t u16t; typedef uint32_t u32t;
typedef uint64_t u64t; typedef int64_t i64t; typedef __int128 i128t;
typedef unsigned __int128 u128t;

enum Ty { I8, I16, I32, I64, U8, U16, U32, U64, F16, F32, F64, TNONE };
static const char *const ty_name[] = {"i8", "i16", "i32", "i64", "u8", "u16",
                                      "u32", "u64", "f16", "f32", "f64", ""};
static inline Ty ty_of(const char *s) {
  for (int i = 0; i < TNONE; i++) if (!strcmp(s, ty_name[i])) return (Ty)i;
  return TNONE;
}
static inline int ty_size(Ty t) {
  static const int s[] = {1, 2, 4, 8, 1, 2, 4, 8, 2, 4, 8, 0};
  return s[t];
}
static inline bool is_float(Ty t) { return t >= F16 && t <= F64; }
static inline bool is_signed(Ty t) { return t <= I64; }
static inline bool is_int(Ty t) { return t <= U64; }
static inline u64t ty_mask(Ty t) {
  int b = 8 * ty_size(t);
  return b == 64 ? ~0ull : ((1ull << b) - 1);
}
static inline u64t rd(const void *p, int i, int size) {
  u64t v = 0; memcpy(&v, (const char *)p + (size_t)i * size, size); return v;
}
static inline void wr(void *p, int i, int size, u64t v) {
  memcpy((char *)p + (size_t)i * size, &v, size);
}
static inline i64t sext(u64t v, int bits) {
  return bits == 64 ? (i64t)v : (i64t)(v << (64 - bits)) >> (64 - bits);
}
// mathematical value of an integer lane
static inline i128t ival(Ty t, u64t v) {
  v &= ty_mask(t);
  return is_signed(t) ? (i128t)sext(v, 8 * ty_size(t)) : (i128t)(u128t)v;
}
static inline i128t imin(Ty t) {
  return is_signed(t) ? -((i128t)1 << (8 * ty_size(t) - 1)) : 0;
}
static inline i128t imax(Ty t) {
  return is_signed(t) ? ((i128t)1 << (8 * ty_size(t) - 1)) - 1
                      : ((i128t)1 << (8 * ty_size(t))) - 1;
}
static inline float b2f(u64t v) { u32t x = (u32t)v; float f; memcpy(&f, &x, 4); return f; }
static inline u64t f2b(float f) { u32t x; memcpy(&x, &f, 4); return x; }
static inline double b2d(u64t v) { double f; memcpy(&f, &v, 8); return f; }
static inline u64t d2b(double f) { u64t x; memcpy(&x, &f, 8); return x; }

// -- independent IEEE binary16 model ---------------------------------------
static inline double h2d(u64t h) {
  int s = (h >> 15) & 1, e = (h >> 10) & 31, m = h & 1023;
  double r;
  if (e == 31) r = m ? (double)NAN : (double)INFINITY;
  else if (e == 0) r = ldexp((double)m, -24);
  else r = ldexp((double)(1024 + m), e - 25);
  return s ? -r : r;
}
// round to nearest even from a double (exact for any float input)
static inline u64t d2h(double d) {
  u64t s = std::signbit(d) ? 0x8000 : 0;
  if (std::isnan(d)) return s | 0x7e00;
  double a = std::fabs(d);
  if (a >= 65520.0) return s | 0x7c00;
  if (a < ldexp(1.0, -14)) { // subnormal range, unit 2^-24
    double q = std::nearbyint(ldexp(a, 24)); // default rounding: nearest even
    return s | (u64t)q; // q == 1024 gives the smallest normal
  }
  int e; double fr = std::frexp(a, &e); // a = fr * 2^e, fr in [0.5,1)
  double q = std::nearbyint(ldexp(fr, 11)); // 1024..2048
  int ex = e - 1;
  if (q == 2048.0) { q = 1024.0; ex++; }
  if (ex > 15) return s | 0x7c00;
  return s | ((u64t)(ex + 15) << 10) | ((u64t)q - 1024);
}
static inline bool isnan_bits(Ty t, u64t v) {
  if (t == F16) return (v & 0x7c00) == 0x7c00 && (v & 0x3ff);
  if (t == F32) return (v & 0x7f800000u) == 0x7f800000u && (v & 0x7fffff);
  if (t == F64) return (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull &&
                       (v & 0xfffffffffffffull);
  return false;
}
static inline bool isinf_bits(Ty t, u64t v) {
  if (t == F16) return (v & 0x7fff) == 0x7c00;
  if (t == F32) return (v & 0x7fffffffu) == 0x7f800000u;
  if (t == F64) return (v & ~(1ull << 63)) == 0x7ff0000000000000ull;
  return false;
}
static inline bool iszero_bits(Ty t, u64t v) {
  v &= ty_mask(t);
  if (is_float(t)) v &= ty_mask(t) >> 1;
  return v == 0;
}
static inline double fval(Ty t, u64t v) {
  return t == F16 ? h2d(v) : t == F32 ? (double)b2f(v) : b2d(v);
}
// equality of float lanes up to NaN payload
static inline bool feq(Ty t, u64t a, u64t b) {
  return a == b || (isnan_bits(t, a) && isnan_bits(t, b));
}
// ... and up to the sign of zero
static inline bool feqz(Ty t, u64t a, u64t b) {
  return feq(t, a, b) || (iszero_bits(t, a) && iszero_bits(t, b));
}

// -- PRNG --------------------------------------------------------------------
struct Rng {
  u64t s[2];
  explicit Rng(u64t seed) {
    u64t z = seed + 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 2; i++) {
      z += 0x9E3779B97F4A7C15ull; u64t x = z;
      x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
      x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; s[i] = x ^ (x >> 31);
    }
    if (!s[0] && !s[1]) s[0] = 1;
  }
  u64t next() {
    u64t a = s[0], b = s[1]; s[0] = b; a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b;
  }
  u64t below(u64t n) { return n ? (u64t)(((u128t)next() * n) >> 64) : 0; }
  long range(long a, long b) { return a + (long)below((u64t)(b - a) + 1); }
  bool chance(int num, int den) { return below(den) < (u64t)num; }
};
static inline u64t hash_str(const char *s, u64t h = 1469598103934665603ull) {
  for (; *s; s++) h = (h ^ (u8t)*s) * 1099511628211ull;
  return h;
}
static inline u64t hash_bytes(const void *p, size_t n, u64t h) {
  const u8t *b = (const u8t *)p;
  while (n >= 8) { u64t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
  for (size_t i = 0; i < n; i++) { h = (h ^ b[i]) * 1099511628211ull; }
  return h ^ (h >> 31);
}
// lower bound on the number of distinct cases seen (hash bitmap)
struct Distinct {
  std::vector<u64t> bits; u64t count = 0;
  Distinct() : bits(1u << 20) {} // 2^26 bits
  void add(u64t h) {
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    u64t k = h & ((1ull << 26) - 1);
    u64t m = 1ull << (k & 63);
    if (!(bits[k >> 6] & m)) { bits[k >> 6] |= m; count++; }
  }
};

// name of what is being exercised, for the supervisor if the process dies
static inline void set_cur(const std::string &k) {
  static char *m = 0; static bool tried = false;
  if (!tried) { tried = true; const char *f = getenv("VP_CUR"); int fd = f ? open(f, O_RDWR | O_CREAT, 0600) : -1; if (fd >= 0) { if (!ftruncate(fd, 4096)) { void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) m = (char *)p; } close(fd); } }
  if (m) { size_t n = k.size() < 4000 ? k.size() : 4000; memcpy(m, k.data(), n); m[n] = 0; }
}
// -- generators --------------------------------------------------------------
static inline u64t gen_int(Rng &r, Ty t) {
  int b = 8 * ty_size(t); u64t M = ty_mask(t);
  switch (r.below(b >= 32 ? 10 : 9)) {
  case 0: return r.next() & M;
  case 9: { // at or next to a tie of the conversion to f32 or f64
    int m = b == 64 && r.chance(2, 3) ? 53 : 24, hb = m + (int)r.below(b - m);
    u64t top = 1ull << hb, tie = 1ull << (hb - m), v = top | (r.next() & (top - 1));
    v = ((v & ~(2 * tie - 1)) | tie) + (u64t)(i64t)r.range(-1, 1);
    if (r.chance(1, 6)) v = (2 * top - tie) + (u64t)(i64t)r.range(-1, 1); // rounds up to the next power of two
    return (r.chance(1, 2) ? (u64t)0 - v : v) & M;
  }
  case 1: { // limits
    static const int d[] = {-2, -1, 0, 1, 2};
    int k = d[r.below(5)];
    u64t base = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (1ull << (b - 1)) : (M >> 1);
    return (base + (u64t)(i64t)k) & M;
  }
  case 2: { // powers of two and neighbours, possibly complemented
    u64t v = (1ull << r.below(b)) + (u64t)(i64t)r.range(-1, 1);
    return (r.chance(1, 2) ? ~v : v) & M;
  }
  case 3: return (u64t)(i64t)r.range(-20, 20) & M;
  case 4: { // byte patterns
    static const u8t pat[] = {0x00, 0x01, 0x7f, 0x80, 0xff, 0x55, 0xaa};
    u64t v = 0;
    for (int i = 0; i < b / 8; i++)
      v |= (u64t)(r.chance(1, 4) ? (u8t)r.next() : pat[r.below(7)]) << (8 * i);
    return v;
  }
  case 5: { // half-word patterns
    u64t h = b / 2, hm = (1ull << h) - 1;
    u64t c[] = {0, 1, hm, hm >> 1, (hm >> 1) + 1, r.next() & hm, r.next() & hm};
    return ((c[r.below(7)] << h) | c[r.below(7)]) & M;
  }
  case 6: { // random magnitude
    u64t v = r.next() >> r.below(64);
    return (r.chance(1, 2) ? (u64t)0 - v : v) & M;
  }
  case 7: { // runs of ones
    int lo = r.below(b), hi = r.below(b); if (lo > hi) std::swap(lo, hi);
    u64t v = ((hi == 63 ? ~0ull : ((1ull << (hi + 1)) - 1))) & ~((1ull << lo) - 1);
    return v & M;
  }
  default: return r.next() & M;
  }
}
static inline int f_mant(Ty t) { return t == F16 ? 10 : t == F32 ? 23 : 52; }
static inline int f_exp(Ty t) { return t == F16 ? 5 : t == F32 ? 8 : 11; }
static inline u64t enc_double(Ty t, double d) {
  return t == F16 ? d2h(d) : t == F32 ? f2b((float)d) : d2b(d);
}
static inline u64t gen_flt(Rng &r, Ty t) {
  int m = f_mant(t), e = f_exp(t); u64t M = ty_mask(t);
  u64t sign = r.chance(1, 2) ? (1ull << (m + e)) : 0;
  int bias = (1 << (e - 1)) - 1;
  switch (r.below(10)) {
  case 0: return r.next() & M;
  case 1: { // special encodings
    u64t inf = ((1ull << e) - 1) << m;
    u64t c[] = {0, 1, (1ull << m) - 1, 1ull << m, (1ull << m) + 1, inf - 1, inf,
                inf | (1ull << (m - 1)), inf | 1, (u64t)bias << m};
    return sign | c[r.below(10)];
  }
  case 2: { // subnormals
    return sign | ((r.next() >> r.below(64)) & ((1ull << m) - 1));
  }
  case 3: // halves and small integers (ties)
    return enc_double(t, (double)r.range(-64, 64) * 0.5);
  case 4: { // around 2^k, k near the interesting thresholds
    static const int ks[] = {7, 8, 10, 11, 12, 15, 16, 22, 23, 24, 30, 31, 32, 33,
                             51, 52, 53, 62, 63, 64};
    int k = ks[r.below(20)];
    u64t v = enc_double(t, ldexp(1.0, k)) + (u64t)(i64t)r.range(-3, 3);
    if (r.chance(1, 3)) v = enc_double(t, ldexp(1.0, k) + (double)r.range(-4, 4) * 0.5);
    return (v & (M >> 1)) | sign;
  }
  case 5: { // moderate magnitude, random mantissa
    int lo = -12, hi = 12;
    u64t ex = (u64t)(bias + r.range(lo, hi));
    return sign | (ex << m) | (r.next() & ((1ull << m) - 1));
  }
  case 6: { // few mantissa bits
    u64t ex = r.below(1ull << e);
    u64t mm = r.chance(1, 2) ? (1ull << r.below(m)) : (((1ull << m) - 1) ^ (1ull << r.below(m)));
    return sign | (ex << m) | mm;
  }
  case 7: { // random exponent uniformly
    return sign | (r.below(1ull << e) << m) | (r.next() & ((1ull << m) - 1));
  }
  case 8: // k + 0.5 with larger k
    return (enc_double(t, (double)r.range(-100000, 100000) + 0.5));
  default: // near one
    return (sign | ((u64t)bias << m)) + (u64t)(i64t)r.range(-4, 4);
  }
}
static inline u64t gen_val(Rng &r, Ty t) {
  return is_float(t) ? gen_flt(r, t) : gen_int(r, t);
}
// a second operand related to the first
static inline u64t gen_related(Rng &r, Ty t, u64t a) {
  u64t M = ty_mask(t);
  if (is_float(t)) {
    u64t sb = (M >> 1) + 1;
    switch (r.below(6)) {
    case 0: return a;
    case 1: return a ^ sb;
    case 2: return (a + (u64t)(i64t)r.range(-2, 2)) & M;
    case 3: return ((a ^ sb) + (u64t)(i64t)r.range(-2, 2)) & M;
    case 4: return a ^ (1ull << r.below(f_mant(t)));
    default: { // same exponent neighbourhood, other mantissa
      u64t mm = (1ull << f_mant(t)) - 1;
      return (a & ~mm & M) ^ (r.next() & mm);
    }
    }
  }
  switch (r.below(8)) {
  case 0: return a;
  case 1: return (u64t)0 - a & M;
  case 2: return ~a & M;
  case 3: return (a + (u64t)(i64t)r.range(-2, 2)) & M;
  case 4: return ((M >> 1) - a + (u64t)(i64t)r.range(-1, 1)) & M; // MAX - a
  case 5: return (((M >> 1) + 1) - a + (u64t)(i64t)r.range(-1, 1)) & M; // MIN - a
  case 6: return (a - ((M >> 1) + 1) + (u64t)(i64t)r.range(-1, 1)) & M; // a - MIN
  default: return a ^ (1ull << r.below(8 * ty_size(t)));
  }
}
static inline std::string hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef"; std::string s;
  for (size_t i = 0; i < n; i++) { s += d[((const u8t *)p)[i] >> 4]; s += d[((const u8t *)p)[i] & 15]; }
  return s;
}
static inline std::vector<u8t> unhex(const std::string &s) {
  std::vector<u8t> v;
  for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((u8t)strtol(s.substr(i, 2).c_str(), 0, 16));
  return v;
}
static inline std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static inline std::string lane_str(Ty t, u64t v) {
  char b[80];
  if (is_float(t)) snprintf(b, 80, "%.17g[0x%llx]", fval(t, v), (unsigned long long)(v & ty_mask(t)));
  else if (is_signed(t)) snprintf(b, 80, "%lld", (long long)ival(t, v));
  else snprintf(b, 80, "%llu", (unsigned long long)(v & ty_mask(t)));
  return b;
}
struct vp_entry {
  const char *op, *t, *to, *layer; int lanes, reglanes;
  void (*fn)(void *const *, const long long *);
};
#endif
