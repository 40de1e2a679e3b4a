// Every allocation entry point of nsimd, compiled with various C++ standards.
#include <nsimd/nsimd-all.hpp>
#include <new>
#include <vector>
#include <exception>
#define TYPES(M) M(0, i8) M(1, u8) M(2, i16) M(3, u16) M(4, i32) M(5, u32) M(6, i64) M(7, u64) M(8, f32) M(9, f64) M(10, f16)
extern "C" {
int sh_std(void) { return NSIMD_CXX; }
int sh_max_align(void) { return NSIMD_MAX_ALIGNMENT; }
// kinds: 0 C function, 1 C++ function, 2 aligned_alloc_for, 3 allocator
void *sh_alloc(int kind, int t, long long n, int *threw) {
  *threw = 0;
  try {
    if (kind == 0) return nsimd_aligned_alloc((nsimd_nat)n);
    if (kind == 1) return nsimd::aligned_alloc((nsimd_nat)n);
#define A(I, T) if (t == I && kind == 2) return nsimd::aligned_alloc_for<T>((nsimd_nat)n);
    TYPES(A)
#undef A
#define A(I, T) if (t == I && kind == 3) { nsimd::allocator<T> a; return a.allocate((size_t)n); }
    TYPES(A)
#undef A
  } catch (std::exception &) { *threw = 1; }
  return 0;
}
void sh_free(int kind, int t, void *p, long long n) {
  if (kind == 0) { nsimd_aligned_free(p); return; }
  if (kind == 1) { nsimd::aligned_free(p); return; }
#define A(I, T) if (t == I && kind == 2) { nsimd::aligned_free_for<T>(p); return; }
  TYPES(A)
#undef A
#define A(I, T) if (t == I && kind == 3) { nsimd::allocator<T> a; a.deallocate((T *)p, (size_t)n); return; }
  TYPES(A)
#undef A
}
void *sh_scoped_new(int t, long long n) {
#define A(I, T) if (t == I) return new nsimd::scoped_aligned_mem_for<T>((int)n);
  TYPES(A)
#undef A
  return 0;
}
void *sh_scoped_get(int t, void *s, int cst) {
#define A(I, T) if (t == I) { nsimd::scoped_aligned_mem_for<T> *p = (nsimd::scoped_aligned_mem_for<T> *)s; const nsimd::scoped_aligned_mem_for<T> *c = p; return cst ? (void *)c->get() : (void *)p->get(); }
  TYPES(A)
#undef A
  return 0;
}
void sh_scoped_del(int t, void *s) {
#define A(I, T) if (t == I) delete (nsimd::scoped_aligned_mem_for<T> *)s;
  TYPES(A)
#undef A
}
// vectors using the allocator: i32 and f64 and u8
typedef std::vector<i32, nsimd::allocator<i32> > V;
void *sh_vec_new(void) { return new V; }
void sh_vec_del(void *v) { delete (V *)v; }
// one operation; returns -1 if it threw
int sh_vec_op(void *v_, void *w_, int k, long long a, long long b) {
  V &v = *(V *)v_, &w = *(V *)w_;
  try {
    switch (k) {
    case 0: v.push_back((i32)a); break;
    case 1: if (!v.empty()) v.pop_back(); break;
    case 2: v.resize((size_t)a, (i32)b); break;
    case 3: v.insert(v.begin() + (v.empty() ? 0 : (size_t)a % v.size()), (size_t)(b % 300), (i32)a); break;
    case 4: if (!v.empty()) { size_t i = (size_t)a % v.size(), j = i + (size_t)b % (v.size() - i + 1); v.erase(v.begin() + i, v.begin() + j); } break;
    case 5: v.assign((size_t)a, (i32)b); break;
    case 6: v = w; break;
    case 7: v.swap(w); break;
    case 8: { V c(w); v = c; v.insert(v.end(), w.begin(), w.end()); break; }
    case 9: v.clear(); break;
    case 10: v.reserve((size_t)a); break;
    case 11: { V c(v.begin(), v.end()); c.swap(v); break; }
    }
  } catch (std::exception &) { return -1; }
  return 0;
}
long long sh_vec_size(void *v) { return (long long)((V *)v)->size(); }
int *sh_vec_data(void *v) { return ((V *)v)->empty() ? 0 : (int *)&(*(V *)v)[0]; }
int sh_eq(void) { nsimd::allocator<i32> a, b; nsimd::allocator<f64> c; nsimd::allocator<i32> d(c); return (a == b) && !(a != b) && (d == a); }
}
