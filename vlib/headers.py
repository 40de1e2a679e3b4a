"""C30: programs made of several translation units with generated choices of
headers, languages, standards, compilers and optimisation levels must build,
link and give the same answers."""
import concurrent.futures
import json
import os
import random
import shutil
import subprocess

from . import core

CXX_STD = ['c++98', 'c++11', 'c++14', 'c++17', 'c++20']
C_STD = ['gnu89', 'c99', 'c11', 'gnu17']

# header -> (includes, file-scope code, body). A body adds to `bad` when a
# result is wrong; @ is replaced by a number unique to the translation unit.
CXX = {
    'base': ('nsimd/nsimd.h', '', '''
  { @T a[NSIMD_MAX_LEN(@T)], b[NSIMD_MAX_LEN(@T)]; int n = nsimd::len(@T());
    for (int i = 0; i < n; i++) a[i] = (@T)(i + 3);
    nsimd::storeu(b, nsimd::add(nsimd::loadu(a, @T()), nsimd::set1((@T)2, @T()), @T()), @T());
    for (int i = 0; i < n; i++) if (b[i] != (@T)(i + 5)) bad++;
    if (n != (int)vlen(@T)) bad++; }'''),
    'pack': ('nsimd/cxx_adv_api.hpp', '', '''
  { typedef nsimd::pack<@T, @N> P; @T a[@N * NSIMD_MAX_LEN(@T)]; int n = nsimd::len(P());
    for (int i = 0; i < n; i++) a[i] = (@T)(i + 1);
    P v = nsimd::loadu<P>(a); P w = nsimd::if_else(nsimd::gt(v, P((@T)4)), nsimd::mul(v, v), v);
    nsimd::storeu(a, w);
    for (int i = 0; i < n; i++) if (a[i] != (@T)((@T)(i + 1) > (@T)4 ? (@T)((@T)(i + 1) * (@T)(i + 1)) : (@T)(i + 1))) { bad++; } }'''),
    'all': ('nsimd/nsimd-all.hpp', '', '''
  { typedef nsimd::pack<@T, @N> P; @T a[@N * NSIMD_MAX_LEN(@T)]; int n = nsimd::len(P());
    for (int i = 0; i < n; i++) a[i] = (@T)(i % 7);
    P v = nsimd::loadu<P>(a); v += (@T)1; v = v * v - v; nsimd::storeu(a, v);
    for (int i = 0; i < n; i++) if (a[i] != (@T)((i % 7 + 1) * (i % 7))) bad++;
    if (!nsimd::all(v == v) || nsimd::any(v != v)) bad++; }'''),
    'calls': ('nsimd/nsimd-all.h', '', '''
  { @T a[NSIMD_MAX_LEN(@T)]; vec(@T) v = vset1((@T)5, @T); vstoreu(a, vsub(v, vset1((@T)3, @T), @T), @T);
    for (int i = 0; i < vlen(@T); i++) if (a[i] != (@T)2) bad++; }'''),
    'scalar': ('nsimd/nsimd.h', '', '''
  { if (nsimd::scalar_add((@T)3, (@T)4) != (@T)7) bad++; if (nsimd::scalar_max((@T)3, (@T)4) != (@T)4) bad++; }'''),
    'fixed': ('nsimd/modules/fixed_point.hpp', '', '''
  { typedef nsimd::fixed_point::fp_t<4, 4> fp; fp a(1.5f), b(0.25f); if ((float)(a + b) != 1.75f) bad++;
    fp m[256]; for (int i = 0; i < 256; i++) m[i] = fp(0.5f); typedef nsimd::fixed_point::pack<fp> P;
    P p = nsimd::fixed_point::loadu<P>(m); nsimd::fixed_point::storeu(m, p + p);
    if ((float)m[0] != 1.0f) bad++; }'''),
    'memory': ('nsimd/modules/memory_management.hpp', '', '''
  { nsimd::paired_pointers_t<int> p = nsimd::pair_calloc<int>(10); for (int i = 0; i < 10; i++) if (p.host_ptr[i]) bad++;
    p.host_ptr[3] = 8; nsimd::copy_to_device(p); nsimd::copy_to_host(p); if (p.host_ptr[3] != 8) bad++; nsimd::pair_free(p); }'''),
    'random': ('nsimd/modules/random/functions.hpp', '', '''
  { nsimd::packx4<u32> c; nsimd::packx2<u32> k; c.v0 = c.v1 = c.v2 = c.v3 = nsimd::pack<u32>((u32)0); k.v0 = k.v1 = nsimd::pack<u32>((u32)0);
    u32 o[NSIMD_MAX_LEN(u32)]; nsimd::storeu(o, nsimd::random::philox_4x32_10(c, k).v0); if (o[0] != 0x6627e8d5u) bad++; }'''),
    'spmd': ('nsimd/modules/spmd.hpp', '''
namespace tu@ {
spmd_dev_func(k_int twice, k_int v)
  return v + v;
spmd_dev_func_end
spmd_kernel_1d(kern, int *d, int *a)
  k_int x(k_load(a)); k_if (x > 2) k_set(x, spmd_call_dev_func(twice, x)); k_endif k_store(d, x);
spmd_kernel_end
}''', '''
  { int a[37], d[37]; for (int i = 0; i < 37; i++) { a[i] = i % 5; d[i] = -1; } using namespace tu@;
    int *pd = d, *pa = a; spmd_launch_kernel_1d(kern, 32, 1, 37, pd, pa);
    for (int i = 0; i < 37; i++) if (d[i] != (i % 5 > 2 ? 2 * (i % 5) : i % 5)) bad++; }'''),
    'tet1d': ('nsimd/modules/tet1d.hpp', '', '''
  { @T a[41], d[41]; for (int i = 0; i < 41; i++) { a[i] = (@T)(i % 9); d[i] = (@T)0; }
    tet1d::out(d) = tet1d::in(a, 41) + tet1d::in(a, 41); for (int i = 0; i < 41; i++) if (d[i] != (@T)(2 * (i % 9))) bad++; }'''),
    'alloc': ('nsimd/nsimd.h', '#include <vector>', '''
  { std::vector<@T, nsimd::allocator<@T> > v; for (int i = 0; i < 9; i++) v.push_back((@T)i); if (v[8] != (@T)8) bad++;
    @T *p = nsimd::aligned_alloc_for<@T>(5); if (!p || (size_t)p % NSIMD_MAX_ALIGNMENT) bad++; nsimd::aligned_free_for<@T>(p); }'''),
}
C = {
    'base': ('nsimd/nsimd.h', '', '''
  { @T a[NSIMD_MAX_LEN(@T)], b[NSIMD_MAX_LEN(@T)]; int i, n = vlen(@T);
    for (i = 0; i < n; i++) a[i] = (@T)(i + 3);
    vstoreu(b, vadd(vloadu(a, @T), vset1((@T)2, @T), @T), @T);
    for (i = 0; i < n; i++) if (b[i] != (@T)(i + 5)) bad++; }'''),
    'all': ('nsimd/nsimd-all.h', '', '''
  { @T a[NSIMD_MAX_LEN(@T)]; int i; vec(@T) v = vset1((@T)6, @T); vecl(@T) l = vgt(v, vset1((@T)5, @T), @T);
    vstoreu(a, vif_else1(l, v, vsub(v, v, @T), @T), @T); if (!vall(l, @T)) bad++;
    for (i = 0; i < vlen(@T); i++) if (a[i] != (@T)6) bad++; }'''),
    'c11': ('nsimd/c_adv_api.h', '', '''
#if NSIMD_C >= 2011
  { @T a[NSIMD_MAX_LEN(@T)]; int i; nsimd_pack(@T) v; for (i = 0; i < NSIMD_MAX_LEN(@T); i++) a[i] = (@T)(i % 11);
    v = nsimd_loadu(nsimd_pack(@T), a); nsimd_storeu(a, nsimd_mul(v, v)); for (i = 0; i < vlen(@T); i++) if (a[i] != (@T)((i % 11) * (i % 11))) bad++; }
#endif'''),
    'scalar': ('nsimd/nsimd.h', '', '''
  { if (nsimd_scalar_add_@T((@T)3, (@T)4) != (@T)7) bad++; if (nsimd_scalar_min_@T((@T)3, (@T)4) != (@T)3) bad++; }'''),
    'memory': ('nsimd/nsimd.h', '', '''
  { char *p = (char *)nsimd_aligned_alloc(100); int i; if (!p) bad++; for (i = 0; i < 100; i++) p[i] = (char)i; if (p[99] != 99) bad++; nsimd_aligned_free(p); }'''),
    'f16': ('nsimd/nsimd.h', '', '''
  { if (nsimd_f32_to_u16(1.5f) != 0x3e00 || nsimd_u16_to_f32(0x4000) != 2.0f) bad++; if (nsimd_ufp_f32(1.0f, 1.0f) < 23) bad++; }'''),
}
TYPES = 'i8 u8 i16 u16 i32 u32 i64 u64 f32 f64'.split()


def gen(r, exts):
    """One configuration."""
    c = {'ext': r.choice(exts), 'cc': r.choice(['gcc', 'gcc', 'clang']),
         'opt': r.choice(['-O0', '-O1', '-O2']), 'flags': [], 'tus': []}
    for f, p in (('-DNDEBUG', .5), ('-fPIC', .3), ('-fwrapv', .3),
                 ('-g', .1), ('-pedantic', .1),
                 ('-ffast-math', .05)):
        if r.random() < p:
            c['flags'].append(f)
    for i in range(r.choice([1, 2, 2, 3])):
        lang = 'c' if r.random() < .3 else 'cpp'
        pool = C if lang == 'c' else CXX
        hs = r.sample(sorted(pool), min(len(pool), r.choice([1, 1, 2, 3])))
        c['tus'].append({'lang': lang, 'headers': hs, 'type': r.choice(TYPES),
                         'unroll': r.choice([1, 2, 3]),
                         'twice': r.random() < .2,
                         'std': r.choice(C_STD if lang == 'c' else CXX_STD)})
    if len(c['tus']) > 1 and r.random() < .4:
        # the same headers in two units: one definition each
        a, b = c['tus'][0], c['tus'][1]
        if a['lang'] == b['lang']:
            b['headers'] = list(a['headers'])
    return c


def source(c, i):
    tu = c['tus'][i]
    pool = C if tu['lang'] == 'c' else CXX
    inc, top, body = [], [], []
    for h in tu['headers']:
        a, b, d = pool[h]
        inc.append('#include <%s>' % a)
        top.append(b)
        body.append(d)
    if tu['twice']:
        inc = inc + inc[::-1]

    def sub(s):
        return s.replace('@T', tu['type']).replace(
            '@N', str(tu['unroll'])).replace('@', str(i))
    ext = '' if tu['lang'] == 'c' else 'extern "C" '
    return '%s\n%s\n%sint tu%d_run(void) { int bad = 0;%s\n  return bad; }\n' % (
        '\n'.join(inc), sub('\n'.join(top)), ext, i, sub('\n'.join(body)))


def build_run(ctx, c, d, libs):
    """Returns None or what went wrong."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cxx = 'clang++' if c['cc'] == 'clang' else 'g++'
    m = core.MFLAGS[c['ext']]
    if c['cc'] == 'clang':
        m = [x for x in m if x not in ('-mavx512pf', '-mavx512er')]
    objs = []
    for i, tu in enumerate(c['tus']):
        s = os.path.join(d, 'tu%d.%s' % (i, tu['lang']))
        with open(s, 'w') as f:
            f.write(source(c, i))
        o = os.path.join(d, 'tu%d.o' % i)
        r = subprocess.run([c['cc'] if tu['lang'] == 'c' else cxx,
                            '-std=' + tu['std'], c['opt'], '-w',
                            '-I' + ctx.inc] + m + c['flags'] +
                           ['-c', s, '-o', o], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            return 'tu%d does not compile: %s' % (i, first_error(r.stdout))
        objs.append(o)
    mc = os.path.join(d, 'main.c')
    with open(mc, 'w') as f:
        f.write('#include <stdio.h>\n')
        for i in range(len(objs)):
            f.write('extern int tu%d_run(void);\n' % i)
        f.write('int main(void) { int b, bad = 0;\n')
        for i in range(len(objs)):
            f.write('  b = tu%d_run(); if (b) { printf("tu%d: %%d wrong '
                    'values\\n", b); bad = 1; }\n' % (i, i))
        f.write('  return bad; }\n')
    exe = os.path.join(d, 'prog')
    r = subprocess.run(['gcc', '-c', mc, '-o', mc + '.o'])
    r = subprocess.run([cxx, '-o', exe, mc + '.o'] + objs + libs + ['-lm'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return 'does not link: ' + first_error(r.stdout)
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=30)
    except subprocess.TimeoutExpired:
        return 'does not end'
    if r.returncode:
        return 'runs wrong (exit %d): %s' % (
            r.returncode, r.stdout.decode(errors='replace')[:300])
    return None


def first_error(b):
    s = b.decode(errors='replace').splitlines()
    e = [l for l in s if 'error' in l or 'multiple definition' in l or
         'undefined' in l]
    return (e or s or [''])[0][:300]


def kind(w):
    return w.split(':')[0].split('(')[0].strip()


def shrink(ctx, c, w, d, libs):
    """Greedy removal of units, headers and options; bounded."""
    k, budget = kind(w).replace('tu', '')[1:], 40
    best = (c, w)

    def tries(c):
        for i in range(len(c['tus'])):
            if len(c['tus']) > 1:
                x = json.loads(json.dumps(c))
                del x['tus'][i]
                yield x
        for i, tu in enumerate(c['tus']):
            for h in tu['headers']:
                if len(tu['headers']) > 1:
                    x = json.loads(json.dumps(c))
                    x['tus'][i]['headers'].remove(h)
                    yield x
            for key, v in (('twice', False), ('unroll', 1), ('type', 'i32'),
                           ('std', 'c++98' if tu['lang'] == 'cpp' else
                            'c99')):
                if tu[key] != v:
                    x = json.loads(json.dumps(c))
                    x['tus'][i][key] = v
                    yield x
        for f in c['flags']:
            x = json.loads(json.dumps(c))
            x['flags'].remove(f)
            yield x
        for key, v in (('opt', '-O0'), ('cc', 'gcc'), ('ext', 'cpu')):
            if c[key] != v:
                x = json.loads(json.dumps(c))
                x[key] = v
                yield x
    again = True
    while again and budget > 0:
        again = False
        for x in tries(best[0]):
            budget -= 1
            if budget <= 0:
                break
            y = build_run(ctx, x, d, libs)
            if y and kind(y).replace('tu', '')[1:] == k:
                best = (x, y)
                again = True
                break
    return best


def check(ctx):
    ctx.rule = (
        'Each case is a generated program of 1 to 3 translation units, each '
        'with its own language (C or C++), standard, headers (any subset, '
        'any order, possibly included twice), element type and unroll, for a '
        'generated extension, compiler, optimisation level and flags; it '
        'must compile, link and compute the expected values. Non-trivial: '
        'more than one unit or more than one header; distinct programs are '
        'counted by their configuration.')
    ctx.assumptions = ['gcc 13 and clang 18; only documented headers are '
                       'included directly']
    ctx.hatch()
    lc, lo = ctx.lib_cmds('cpu')
    ctx.run_jobs(lc, 'library')
    d = os.path.join(ctx.work, 'cfg')
    if ctx.replay:
        for l in open(ctx.replay):
            if l.startswith('config '):
                w = build_run(ctx, json.loads(l[7:]), d, lo)
                print('replay ' + ('FAILS: ' + w if w else 'passes'))
                return 1 if w else 0
        return 2
    n = int(os.environ.get('VP_ITERS', 120 if ctx.quick else 3000))
    r = random.Random(ctx.seed)
    cs = [gen(r, ctx.exts) for _ in range(n)]

    def one(i):
        p = '%s_%d' % (d, i)
        w = build_run(ctx, cs[i], p, lo)
        shutil.rmtree(p, ignore_errors=True)
        return w
    with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
        res = list(ex.map(one, range(n)))
    seen = set()
    for i, w in enumerate(res):
        c = cs[i]
        js = json.dumps(c, sort_keys=True)
        nt = len(c['tus']) > 1 or len(c['tus'][0]['headers']) > 1
        ctx.evals += 1
        if nt and js not in seen:
            ctx.distinct += 1
        seen.add(js)
        if i < 3:
            ctx.samples.append(js)
    keys = set()
    for i, w in enumerate(res):
        if w and len(keys) < 5:
            c, w = shrink(ctx, cs[i], w, d, lo)
            key = 'build:' + w[:60]
            if key in keys:
                continue
            keys.add(key)
            ctx.fail(key, w, 'config %s\n# %s\n' % (
                json.dumps(c, sort_keys=True), w))
    ctx.extra['configurations'] = n
    return None
