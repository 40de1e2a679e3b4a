"""Generation of uniform-ABI wrappers around the public nsimd API.

Every wrapper has type `void f(void *const *p, const long long *q)`:
  p[0]   result buffer (k registers stored one after the other for vxk)
  p[1+i] buffer of the i-th parameter (vector/logical contents, scalar value
         or the raw pointer handed to the operator)
  q[i]   value of the i-th parameter when it is an int
The wrappers only use the documented API (names, argument order), never
library internals.
"""

ITYPES = ['i8', 'i16', 'i32', 'i64']
UTYPES = ['u8', 'u16', 'u32', 'u64']
FTYPES = ['f16', 'f32', 'f64']
IUTYPES = ITYPES + UTYPES
TYPES = IUTYPES + FTYPES
SIZE = {t: int(t[1:]) // 8 for t in TYPES}
GATHER_TYPES = ['i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f16', 'f32', 'f64']

EXTS = ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl', 'avx512_skylake']
BITS = {'cpu': 128, 'sse2': 128, 'sse42': 128, 'avx': 256, 'avx2': 256,
        'avx512_knl': 512, 'avx512_skylake': 512}


def itype(t):
    return 'i' + t[1:]


def utype(t):
    return 'u' + t[1:]


SIG = {}
OPTYPES = {}


def _def(names, sig, types=TYPES):
    for n in names.split():
        SIG[n] = sig.split()
        OPTYPES[n] = list(types)


_def('loadu loada', 'v c*')
_def('loadlu loadla', 'l c*')
_def('load2u load2a', 'vx2 c*')
_def('load3u load3a', 'vx3 c*')
_def('load4u load4a', 'vx4 c*')
_def('masko_loadu1 masko_loada1', 'v l c* v')
_def('maskz_loadu1 maskz_loada1', 'v l c*')
_def('storeu storea', '_ * v')
_def('storelu storela', '_ * l')
_def('store2u store2a', '_ * v v')
_def('store3u store3a', '_ * v v v')
_def('store4u store4a', '_ * v v v v')
_def('mask_storeu1 mask_storea1', '_ l * v')
_def('gather', 'v c* vi', GATHER_TYPES)
_def('scatter', '_ * vi v', GATHER_TYPES)
_def('gather_linear', 'v c* p')
_def('scatter_linear', '_ * p v')
_def('set1', 'v s')
_def('set1l', 'l p')
_def('len', 'p')
_def('iota', 'v')
_def('mask_for_loop_tail', 'l p p')
_def('orb andb andnotb xorb', 'v v v')
_def('notb', 'v v')
_def('orl andl andnotl xorl', 'l l l')
_def('notl', 'l l')
_def('add sub mul div min max adds subs', 'v v v')
_def('neg abs ceil floor trunc round_to_even', 'v v')
_def('addv', 's v', FTYPES)
_def('shr shl shra', 'v v p', IUTYPES)
_def('eq ne gt ge lt le', 'l v v')
_def('if_else1', 'v l v v')
_def('fma fnma fms fnms', 'v v v v')
_def('all any nbtrue', 'p l')
_def('reinterpret cvt', 'v v')
_def('reinterpretl', 'l l')
_def('upcvt', 'vx2 v')
_def('downcvt', 'v v v')
_def('rec rec11 rec8 sqrt rsqrt11 rsqrt8', 'v v', FTYPES)
_def('ziplo ziphi unziplo unziphi', 'v v v')
_def('zip unzip', 'vx2 v v')
_def('to_mask', 'v l')
_def('to_logical', 'l v')
MATH1 = '''sin_u35 cos_u35 tan_u35 asin_u35 acos_u35 atan_u35 log_u35 cbrt_u35
sin_u10 cos_u10 tan_u10 asin_u10 acos_u10 atan_u10 log_u10 cbrt_u10 exp_u10
sinh_u10 cosh_u10 tanh_u10 sinh_u35 cosh_u35 tanh_u35 asinh_u10 acosh_u10
atanh_u10 exp2_u10 exp2_u35 exp10_u10 exp10_u35 expm1_u10 log10_u10 log2_u10
log2_u35 log1p_u10 sinpi_u05 cospi_u05 lgamma_u10 tgamma_u10 erf_u10
erfc_u15'''.split()
MATH2 = 'atan2_u35 atan2_u10 pow_u10 hypot_u05 hypot_u35 remainder fmod'.split()
_def(' '.join(MATH1), 'v v', FTYPES)
_def(' '.join(MATH2), 'v v v', FTYPES)

CONV = ['reinterpret', 'reinterpretl', 'cvt', 'upcvt', 'downcvt']


def totypes(op, t):
    w = int(t[1:])
    if op in ('reinterpret', 'reinterpretl', 'cvt'):
        r = ['i%d' % w, 'u%d' % w] + (['f%d' % w] if w > 8 else [])
    elif op == 'upcvt':
        if w == 64:
            return []
        r = ['i%d' % (2 * w), 'u%d' % (2 * w), 'f%d' % (2 * w)]
    else:
        if w == 8:
            return []
        r = ['i%d' % (w // 2), 'u%d' % (w // 2)] + \
            (['f%d' % (w // 2)] if w > 16 else [])
    return r


# operators with an overloaded C++ symbol on packs (and their unary arity)
CXXOP = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'orb': '|',
         'andb': '&', 'xorb': '^', 'orl': '||', 'andl': '&&', 'eq': '==',
         'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<=',
         'shl': '<<', 'shr': '>>'}
CXXUN = {'neg': '-', 'notb': '~', 'notl': '!'}
CXXASSIGN = ['add', 'sub', 'mul', 'div', 'orb', 'andb', 'xorb', 'shl', 'shr']

SCALAR_OPS = '''orb andb andnotb xorb notb add sub mul div min max adds subs neg
abs ceil floor trunc round_to_even shr shl shra eq ne gt ge lt le fma fnma fms
fnms reinterpret cvt rec rec11 rec8 sqrt rsqrt11 rsqrt8 to_mask to_logical
orl andl andnotl xorl notl'''.split() + MATH1 + MATH2


class Layer:
    unroll = 1
    name = ''
    lang = 'cpp'

    def supports(self, op, t, to):
        return True


class LC(Layer):
    """C base API, explicit function names."""
    name = 'c'

    def __init__(self, ext):
        self.ext = ext

    def fn(self, op, t, to):
        if to:
            return 'nsimd_%s_%s_%s_%s' % (op, self.ext, to, t)
        return 'nsimd_%s_%s_%s' % (op, self.ext, t)

    def call(self, op, t, to, args):
        return '%s(%s)' % (self.fn(op, t, to), ', '.join(args))

    def ty(self, kind, t):
        e = self.ext
        if kind == 'l':
            return 'nsimd_%s_vl%s' % (e, t)
        return 'nsimd_%s_v%s%s' % (e, t, kind[1:])

    def ld(self, kind, t, ptr):
        if kind == 'l':
            return self.call('loadlu', t, None, ['(%s*)%s' % (t, ptr)])
        return self.call('loadu', t, None, ['(%s*)%s' % (t, ptr)])

    def st(self, kind, t, ptr, e):
        op = 'storelu' if kind == 'l' else 'storeu'
        return self.call(op, t, None, ['(%s*)%s' % (t, ptr), e]) + ';'


class LCM(LC):
    """C base API through the generic macros (vadd, ...)."""
    name = 'cm'

    def call(self, op, t, to, args):
        return 'v%s(%s)' % (op, ', '.join(args + [t] + ([to] if to else [])))

    def ty(self, kind, t):
        if kind == 'l':
            return 'vecl(%s)' % t
        return 'vec%s(%s)' % (kind[1:], t)


class LCXX(LC):
    """C++ base API."""
    name = 'cxx'

    def call(self, op, t, to, args):
        return 'nsimd::%s(%s)' % (op, ', '.join(
            args + [t + '()'] + ([to + '()'] if to else [])))

    def ty(self, kind, t):
        return 'nsimd::simd_traits<%s, nsimd::%s>::simd_vector%s' % (
            t, self.ext, 'l' if kind == 'l' else kind[1:])


class LP(Layer):
    """C++ packs, named functions."""

    def __init__(self, ext, n):
        self.ext = ext
        self.unroll = n
        self.name = 'p%d' % n

    def supports(self, op, t, to):
        # addv on f16 packs with several registers has no scalar operator+
        if op == 'addv' and t == 'f16' and self.unroll > 1:
            return False
        return True

    def ty(self, kind, t):
        return 'nsimd::pack%s<%s, %d>' % (
            'l' if kind == 'l' else kind[1:], t, self.unroll)

    def call(self, op, t, to, args):
        rk = SIG[op][0]
        if op == 'len':
            return 'nsimd::len<%s >()' % self.ty('v', t)
        if to:
            return 'nsimd::%s<%s >(%s)' % (op, self.ty(rk, to),
                                           ', '.join(args))
        if not any(k in ('v', 'l', 'vi') for k in SIG[op][1:]):
            return 'nsimd::%s<%s >(%s)' % (op, self.ty(rk, t),
                                           ', '.join(args))
        return 'nsimd::%s(%s)' % (op, ', '.join(args))

    def ld(self, kind, t, ptr):
        return 'nsimd::%s<%s >((const %s*)%s)' % (
            'loadlu' if kind == 'l' else 'loadu', self.ty(kind, t), t, ptr)

    def st(self, kind, t, ptr, e):
        return 'nsimd::%s((%s*)%s, %s);' % (
            'storelu' if kind == 'l' else 'storeu', t, ptr, e)


class LO(LP):
    """C++ packs, overloaded operators."""

    def __init__(self, ext, n):
        LP.__init__(self, ext, n)
        self.name = 'o%d' % n

    def supports(self, op, t, to):
        return op in CXXOP or op in CXXUN

    def call(self, op, t, to, args):
        if op in CXXUN:
            return '(%s(%s))' % (CXXUN[op], args[0])
        return '((%s) %s (%s))' % (args[0], CXXOP[op], args[1])


class LA(LP):
    """C++ packs, compound assignment operators."""

    def __init__(self, ext, n):
        LP.__init__(self, ext, n)
        self.name = 'a%d' % n

    def supports(self, op, t, to):
        return op in CXXASSIGN

    def call(self, op, t, to, args):
        return '(tmp_ = (%s), tmp_ %s= (%s), tmp_)' % (
            args[0], CXXOP[op], args[1])


class LCA(Layer):
    """C11 generic API."""
    name = 'ca'
    lang = 'c'

    def __init__(self, ext):
        self.ext = ext

    def ty(self, kind, t):
        return 'nsimd_pack%s_%s' % ('l' if kind == 'l' else kind[1:], t)

    def supports(self, op, t, to):
        # no documented generic form: the destination logical type is ambiguous
        return True

    def call(self, op, t, to, args):
        rk = SIG[op][0]
        if op == 'len':
            return 'nsimd_len(nsimd_pack_%s)' % t
        if to:
            return 'nsimd_%s(%s)' % (op, ', '.join([self.ty(rk, to)] + args))
        if not any(k in ('v', 'l', 'vi') for k in SIG[op][1:]) or \
           op == 'gather':
            return 'nsimd_%s(%s)' % (op, ', '.join([self.ty(rk, t)] + args))
        return 'nsimd_%s(%s)' % (op, ', '.join(args))

    def ld(self, kind, t, ptr):
        return 'nsimd_%s(%s, (const %s*)%s)' % (
            'loadlu' if kind == 'l' else 'loadu', self.ty(kind, t), t, ptr)

    def st(self, kind, t, ptr, e):
        return 'nsimd_%s((%s*)%s, %s);' % (
            'storelu' if kind == 'l' else 'storeu', t, ptr, e)


ALIGN_OPS = {}
for _o in ('load', 'loadl', 'load2', 'load3', 'load4', 'store', 'storel',
           'store2', 'store3', 'store4'):
    for _a in 'ua':
        ALIGN_OPS[_o + _a] = (_o, _a)
MASK_OPS = {}
for _o in ('masko_load', 'maskz_load', 'mask_store'):
    for _a in 'ua':
        MASK_OPS[_o + _a + '1'] = (_o, _a)
ALN = {'u': 'unaligned', 'a': 'aligned'}


class LCMA(LCM):
    """C macros parametrized by the alignment: vload(ptr, T, NSIMD_ALIGNED)."""
    name = 'cma'

    def supports(self, op, t, to):
        return op in ALIGN_OPS

    def call(self, op, t, to, args):
        if op not in ALIGN_OPS:
            return LCM.call(self, op, t, to, args)
        b, a = ALIGN_OPS[op]
        return 'v%s(%s)' % (b, ', '.join(
            args + [t, 'NSIMD_' + ALN[a].upper()]))

    def ld(self, kind, t, ptr):
        return LCM.call(self, 'loadlu' if kind == 'l' else 'loadu', t, None,
                        ['(%s*)%s' % (t, ptr)])

    def st(self, kind, t, ptr, e):
        return LCM.call(self, 'storelu' if kind == 'l' else 'storeu', t, None,
                        ['(%s*)%s' % (t, ptr), e]) + ';'


class LCME(LCMA):
    """Same macros with an explicit SIMD extension: vload_e(...)."""
    name = 'cme'

    def call(self, op, t, to, args):
        if op not in ALIGN_OPS:
            return LCM.call(self, op, t, to, args)
        b, a = ALIGN_OPS[op]
        return 'v%s_e(%s)' % (b, ', '.join(
            args + [t, self.ext, 'NSIMD_' + ALN[a].upper()]))


class LCXA(LCXX):
    """C++ base API with an alignment tag."""
    name = 'cxa'

    def supports(self, op, t, to):
        return op in ALIGN_OPS

    def call(self, op, t, to, args):
        if op not in ALIGN_OPS:
            return LCXX.call(self, op, t, to, args)
        b, a = ALIGN_OPS[op]
        return 'nsimd::%s(%s)' % (b, ', '.join(
            args + [t + '()', 'nsimd::%s()' % ALN[a]]))

    def ld(self, kind, t, ptr):
        return LCXX.call(self, 'loadlu' if kind == 'l' else 'loadu', t, None,
                         ['(%s*)%s' % (t, ptr)])

    def st(self, kind, t, ptr, e):
        return LCXX.call(self, 'storelu' if kind == 'l' else 'storeu', t,
                         None, ['(%s*)%s' % (t, ptr), e]) + ';'


class LCXE(LCXA):
    """... and an explicit SIMD extension."""
    name = 'cxe'

    def call(self, op, t, to, args):
        if op not in ALIGN_OPS:
            return LCXX.call(self, op, t, to, args)
        b, a = ALIGN_OPS[op]
        return 'nsimd::%s(%s)' % (b, ', '.join(
            args + [t + '()', 'nsimd::%s()' % self.ext,
                    'nsimd::%s()' % ALN[a]]))


class LT(LP):
    """C++ packs, loads/stores templated on the alignment."""

    def __init__(self, ext, n):
        LP.__init__(self, ext, n)
        self.name = 't%d' % n

    def supports(self, op, t, to):
        return op in ALIGN_OPS or op in MASK_OPS

    def call(self, op, t, to, args):
        b, a = ALIGN_OPS.get(op) or MASK_OPS.get(op)
        al = 'nsimd::' + ALN[a]
        if b.startswith('load'):
            return 'nsimd::%s<%s, %s >(%s)' % (
                b, self.ty(SIG[op][0], t), al, ', '.join(args))
        return 'nsimd::%s<%s >(%s)' % (b, al, ', '.join(args))


class LM(LP):
    """C++ packs, mask_storeu/maskz_loadu/masko_loadu with a mask built for
    another element type of the same width."""

    def __init__(self, ext, n):
        LP.__init__(self, ext, n)
        self.name = 'm%d' % n

    def supports(self, op, t, to):
        return op in MASK_OPS

    def call(self, op, t, to, args):
        b, a = MASK_OPS[op]
        other = ('u' if t[0] == 'i' else 'i') + t[1:]
        args = ['nsimd::reinterpretl<%s >(%s)' % (self.ty('l', other),
                                                  args[0])] + args[1:]
        return 'nsimd::%s(%s)' % (b + a, ', '.join(args))


SCALAR_LANES = 16


class LS(Layer):
    """Scalar functions, C names ('s') or C++ overloads ('sx')."""

    def __init__(self, ext, cxx):
        self.ext = ext
        self.cxx = cxx
        self.name = 'sx' if cxx else 's'

    def supports(self, op, t, to):
        return op in SCALAR_OPS


NEED_RT = ['masko_loadu1']


def fid(op, t, to, layer):
    return 'w_%s_%s_%s_%s' % (op, t, to or '0', layer.name)


def vec_body(L, op, t, to, ext):
    sig = SIG[op]
    rk = sig[0]
    nbytes = BITS[ext] // 8 * L.unroll
    rt = to or t
    decl, args = [], []
    for i, k in enumerate(sig[1:]):
        src = 'p[%d]' % (i + 1)
        if k in ('v', 'l'):
            if L.lang == 'c':
                # _Generic macros expand their arguments many times
                decl.append('%s a%d = %s;' % (L.ty(k, t), i, L.ld(k, t, src)))
                args.append('a%d' % i)
            else:
                args.append(L.ld(k, t, src))
        elif k == 'vi':
            if L.lang == 'c':
                decl.append('%s a%d = %s;' % (L.ty('v', itype(t)), i,
                                              L.ld('v', itype(t), src)))
                args.append('a%d' % i)
            else:
                args.append(L.ld('v', itype(t), src))
        elif k == 's':
            args.append('*(%s const*)%s' % (t, src))
        elif k == 'p':
            args.append('(int)q[%d]' % i)
        elif k == 'c*':
            args.append('(%s const*)%s' % (t, src))
        elif k == '*':
            args.append('(%s*)%s' % (t, src))
        else:
            raise Exception(k)
    if isinstance(L, LA):
        decl.append('%s tmp_;' % L.ty('v', t))
    e = L.call(op, t, to, args)
    if rk == '_':
        body = e + ';'
    elif rk in ('v', 'l'):
        if L.lang == 'c':
            body = '%s r = %s; %s' % (L.ty(rk, rt), e, L.st(rk, rt, 'p[0]', 'r'))
        else:
            body = L.st(rk, rt, 'p[0]', e)
    elif rk == 's':
        body = '*(%s*)p[0] = %s;' % (t, e)
    elif rk == 'p':
        body = '*(int*)p[0] = %s;' % e
    else:  # vxk
        k = int(rk[2:])
        body = '%s r = %s;' % (L.ty(rk, rt), e)
        for i in range(k):
            body += ' ' + L.st('v', rt, '((char*)p[0] + %d)' % (i * nbytes),
                               'r.v%d' % i)
    return ' '.join(decl) + ' ' + body


def scalar_body(L, op, t, to):
    sig = SIG[op]
    rk = sig[0]
    rt = to or t
    logical_in = [k == 'l' for k in sig[1:]]
    args = []
    for i, k in enumerate(sig[1:]):
        if k == 'p':
            args.append('(int)q[%d]' % i)
        elif k == 'l':
            # same convention as loadl: non zero is true
            if t == 'f16':
                args.append('(nsimd_f16_to_f32(((f16*)p[%d])[i]) != 0)'
                            % (i + 1))
            else:
                args.append('(((%s*)p[%d])[i] != 0)' % (t, i + 1))
        else:
            args.append('((%s*)p[%d])[i]' % (t, i + 1))
    if op in ('orl', 'andl', 'andnotl', 'xorl', 'notl'):
        name = ('nsimd::scalar_%s' if L.cxx else 'nsimd_scalar_%s') % op
    elif L.cxx:
        name = 'nsimd::scalar_%s' % op
        if to or op == 'to_mask':
            args = [rt + '()'] + args
    elif to:
        name = 'nsimd_scalar_%s_%s_%s' % (op, to, t)
    else:
        name = 'nsimd_scalar_%s_%s' % (op, t)
    e = '%s(%s)' % (name, ', '.join(args))
    if rk == 'l':
        one = 'nsimd_f32_to_f16(1.0f)' if rt == 'f16' else '(%s)1' % rt
        zero = 'nsimd_f32_to_f16(0.0f)' if rt == 'f16' else '(%s)0' % rt
        e = '((%s) ? %s : %s)' % (e, one, zero)
    return 'int i; for (i = 0; i < %d; i++) { ((%s*)p[0])[i] = %s; }' % (
        SCALAR_LANES, rt, e)


HEAD = '''
typedef struct { const char *op, *t, *to, *layer; int lanes, reglanes;
  void (*fn)(void *const *, const long long *); } vp_entry;
'''


def emit(ext, combos, lang):
    """combos: list of (op, type, to or None, layer). Returns source text."""
    out = []
    if lang == 'cpp':
        out.append('#include <nsimd/nsimd-all.hpp>\n#include <nsimd/scalar_utilities.h>\n')
    else:
        out.append('#include <nsimd/nsimd-all.h>\n')
    out.append(HEAD)
    rows = []
    for (op, t, to, L) in combos:
        if L.lang != lang or not L.supports(op, t, to):
            continue
        f = fid(op, t, to, L)
        if isinstance(L, LS):
            body = scalar_body(L, op, t, to)
            lanes = reg = SCALAR_LANES
        else:
            body = vec_body(L, op, t, to, ext)
            reg = BITS[ext] // 8 // SIZE[t]
            lanes = reg * L.unroll
        out.append('static void %s(void *const *p, const long long *q) '
                   '{ (void)q; (void)p; %s }' % (f, body))
        rows.append('{"%s","%s","%s","%s",%d,%d,%s}' %
                    (op, t, to or '', L.name, lanes, reg, f))
    ex = 'extern "C" ' if lang == 'cpp' else ''
    out.append('static const vp_entry vp_rows[] = {\n%s,\n'
               '{0,0,0,0,0,0,0}};' % ',\n'.join(rows) if rows else
               'static const vp_entry vp_rows[] = {{0,0,0,0,0,0,0}};')
    out.append('%sconst vp_entry *vp_table_%s(void);' % (ex, lang))
    out.append('%sconst vp_entry *vp_table_%s(void) { return vp_rows; }' %
               (ex, lang))
    return '\n'.join(out) + '\n'


def layers(ext, names):
    mk = {'c': lambda: LC(ext), 'cm': lambda: LCM(ext),
          'cma': lambda: LCMA(ext), 'cxa': lambda: LCXA(ext),
          'cme': lambda: LCME(ext), 'cxe': lambda: LCXE(ext),
          'cxx': lambda: LCXX(ext), 'ca': lambda: LCA(ext),
          's': lambda: LS(ext, False), 'sx': lambda: LS(ext, True)}
    r = []
    for n in names:
        if n in mk:
            r.append(mk[n]())
        elif n[0] == 'p':
            r.append(LP(ext, int(n[1:])))
        elif n[0] == 'o':
            r.append(LO(ext, int(n[1:])))
        elif n[0] == 't':
            r.append(LT(ext, int(n[1:])))
        elif n[0] == 'm':
            r.append(LM(ext, int(n[1:])))
        elif n[0] == 'a':
            r.append(LA(ext, int(n[1:])))
    return r


def combos(ext, ops, layer_names, types=None):
    r = []
    ls = layers(ext, layer_names)
    for op in ops:
        for t in OPTYPES[op]:
            if types and t not in types:
                continue
            tos = totypes(op, t) if op in CONV else [None]
            for to in tos:
                for L in ls:
                    r.append((op, t, to, L))
    return r
