"""Random and systematic tet1d expressions, with the C++ of a reference."""
import random

TYPES = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f16', 'f32',
         'f64']
SIZE = {t: int(t[1:]) for t in TYPES}
CMPS = [('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'),
        ('>=', 'ge')]


def isf(t):
    return t[0] == 'f'


class Nd:
    """cpp: tet1d expression; ref: RV of element i; root: Root or None."""

    def __init__(self, ty, cpp, ref, root=None, logical=False):
        self.ty, self.cpp, self.ref, self.logical = ty, cpp, ref, logical
        self.root = root


def call(op, ty, args, cpp, to=None, p=0):
    to = to or ty
    r = [a.ref for a in args] + ['val(0)'] * (3 - len(args))
    tail = '%s,%s,%s,%s,%s,%s,%d' % ('O_' + op, ty.upper(), to.upper(), r[0],
                                     r[1], r[2], p)
    return Nd(to, cpp, 'op(%s)' % tail, 'Root{%s}' % tail)


class Gen:
    def __init__(self, rnd, t, u):
        self.r, self.t, self.u = rnd, t, u

    def leaf(self, t=None, k=None):
        t = t or self.t
        if t == self.u and self.u != self.t:
            k = 3
        elif k is None:
            k = self.r.randrange(3)
        return Nd(t, 'E.leaf<%s>(%d)' % (t, k), 'E.ref(%d,i)' % k)

    def num(self, t, nonzero=False):
        r = self.r
        if isf(t):
            v = r.choice(['0.5', '2', '3', '1.25', '4', '-1', '-2.5', '7'])
        else:
            n = SIZE[t]
            c = ['1', '2', '3', '5', '7', '100']
            if not nonzero:
                c += ['0']
            if t[0] == 'i':
                c += ['-2', '-3', '-100']
            if n <= 32:
                c += [str(2 ** (n - 1) - 1) + ('u' if n == 32 else '')]
            c += ['2.0', '3.0f']
            v = r.choice(c)
        return v

    def lit(self, t, **k):
        v = self.num(t, **k)
        return Nd(t, v, 'lit(%s,(double)(%s))' % (t.upper(), v))

    def sca(self, t, **k):
        v = self.num(t, **k)
        return Nd(t, 'SC<%s>((double)(%s))' % (t, v),
                  'lit(%s,(double)(%s))' % (t.upper(), v))

    def binop(self, op, sym, t, a, b):
        if sym and self.r.random() < 0.75:
            return call(op, t, [a, b], '(%s %s %s)' % (a.cpp, sym, b.cpp))
        return call(op, t, [a, b], 'tet1d::%s(%s, %s)' % (op, a.cpp, b.cpp))

    def divisor(self, t, d):
        if isf(t):
            return self.v(t, d)
        # (x & 6) | 1: between 1 and 7
        x = self.v(t, d)
        a = call('andb', t, [x, Nd(t, '6', 'lit(%s,6)' % t.upper())],
                 '(%s & 6)' % x.cpp)
        return call('orb', t, [a, Nd(t, '1', 'lit(%s,1)' % t.upper())],
                    '(%s | 1)' % a.cpp)

    def v(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            return self.leaf(t)
        f = isf(t)
        c = ['bin'] * 5 + ['lit'] * 3 + ['un'] * 2 + ['fma', 'div', 'conv']
        if not f:
            c += ['shift', 'shift', 'mask']
        if f and t != 'f16':
            c += ['selm']
        k = r.choice(c)
        if k in ('bin', 'lit'):
            ops = [('add', '+'), ('sub', '-'), ('mul', '*'), ('min', ''),
                   ('max', ''), ('adds', ''), ('subs', '')]
            if t != 'f16':
                ops += [('andb', '&'), ('orb', '|'), ('xorb', '^'),
                        ('andnotb', '')]
            op, sym = r.choice(ops)
            if k == 'bin':
                return self.binop(op, sym, t, self.v(t, d - 1),
                                  self.v(t, d - 1))
            return self.withlit(op, sym, t, self.v(t, d - 1), r.random() < .5)
        if k == 'un':
            ops = [('neg', '-'), ('abs', '')]
            if t[0] == 'u':
                ops = [('abs', '')]
            if t != 'f16':
                ops += [('notb', '~')]
            if f:
                ops += [(x, '') for x in ('floor', 'ceil', 'trunc',
                                          'round_to_even', 'sqrt')]
            op, sym = r.choice(ops)
            return self.unop(op, sym, t, self.v(t, d - 1))
        if k == 'fma':
            a = [self.v(t, d - 1) for _ in range(3)]
            op = r.choice(['fma', 'fms', 'fnma', 'fnms'])
            i = r.randrange(6)
            if i < 3:
                a[i] = self.sca(t)
            return call(op, t, a, 'tet1d::%s(%s)' % (
                op, ', '.join(x.cpp for x in a)))
        if k == 'div':
            return self.binop('div', '/', t, self.v(t, d - 1),
                              self.divisor(t, d - 1))
        if k == 'conv':
            o = self.u if t == self.t else self.t
            if o == t or 'f16' in (o, t):
                return self.unop('abs', '', t, self.v(t, d - 1))
            return self.conv(r.choice(['cvt', 'reinterpret']), t,
                             self.v(o, d - 1))
        if k == 'shift':
            return self.shift(r.choice(['shl', 'shr', 'shra']), t,
                              self.v(t, d - 1), r.random() < 0.5)
        if k == 'mask':
            l = self.l(t, d - 1)
            return Nd(t, 'tet1d::to_mask(%s)' % l.cpp,
                      'op(O_sub,%s,%s,val(0),%s,val(0),0)' % (
                          t.upper(), t.upper(), l.ref))
        l, x = self.l(t, d - 1), self.v(t, d - 1)
        return Nd(t, '(tet1d::to_mask(%s) & %s)' % (l.cpp, x.cpp),
                  'selm(%s,%s,%s)' % (t.upper(), l.ref, x.ref))

    def conv(self, k, to, x):
        return call(k, x.ty, [x], 'tet1d::%s<%s>(%s)' % (k, to, x.cpp), to=to)

    def unop(self, op, sym, t, x):
        if sym and self.r.random() < 0.7:
            return call(op, t, [x], '(%s%s)' % (sym, x.cpp))
        return call(op, t, [x], 'tet1d::%s(%s)' % (op, x.cpp))

    def shift(self, op, t, x, infix):
        p = self.r.randrange(SIZE[t])
        s = {'shl': '<<', 'shr': '>>'}.get(op)
        if infix and s:
            return call(op, t, [x], '(%s %s %d)' % (x.cpp, s, p), p=p)
        return call(op, t, [x], 'tet1d::%s(%s, %d)' % (op, x.cpp, p), p=p)

    def withlit(self, op, sym, t, x, left, nonzero=False):
        if sym:
            y = self.lit(t, nonzero=nonzero)
            a, b = (y, x) if left else (x, y)
            return call(op, t, [a, b], '(%s %s %s)' % (a.cpp, sym, b.cpp))
        y = self.sca(t, nonzero=nonzero)
        a, b = (y, x) if left else (x, y)
        return call(op, t, [a, b], 'tet1d::%s(%s, %s)' % (op, a.cpp, b.cpp))

    def cmp(self, op, sym, a, b):
        t = a.ty
        if self.r.random() < 0.8:
            s = '(%s %s %s)' % (a.cpp, sym, b.cpp)
        else:
            # the named form takes scalars of the exact type
            def ex(x):
                return (x.cpp if 'E.' in x.cpp else
                        'SC<%s>((double)(%s))' % (t, x.cpp))
            s = 'tet1d::%s(%s, %s)' % (op, ex(a), ex(b))
        return Nd(t, s, 'cmp(O_%s,%s,%s,%s)' % (op, t.upper(), a.ref, b.ref),
                  logical=True)

    def l(self, t, d):
        r = self.r
        k = r.choice(['cmp'] * 4 + (['log'] * 4 if d > 0 else []) + ['tol'])
        if k == 'cmp':
            sym, op = r.choice(CMPS)
            a, b = self.v(t, d - 1), self.v(t, d - 1)
            m = r.randrange(4)
            if m == 0:
                a = self.lit(t)
            elif m == 1:
                b = self.lit(t)
            return self.cmp(op, sym, a, b)
        if k == 'tol':
            x = self.v(t, d - 1)
            return Nd(t, 'tet1d::to_logical(%s)' % x.cpp,
                      'tolog(%s,%s)' % (t.upper(), x.ref), logical=True)
        return self.log(r.choice(['andl', 'orl', 'xorl', 'andnotl', 'notl']),
                        t, d, r.random() < .6)

    def log(self, op, t, d, infix):
        a = self.l(t, d - 1)
        sym = {'andl': '&&', 'orl': '||', 'notl': '!'}.get(op)
        if op == 'notl':
            s = '(!%s)' % a.cpp if infix else 'tet1d::notl(%s)' % a.cpp
            return Nd(t, s, 'lg(O_notl,%s,val(0))' % a.ref, logical=True)
        b = self.l(t, d - 1)
        if sym and infix:
            s = '(%s %s %s)' % (a.cpp, sym, b.cpp)
        else:
            s = 'tet1d::%s(%s, %s)' % (op, a.cpp, b.cpp)
        return Nd(t, s, 'lg(O_%s,%s,%s)' % (op, a.ref, b.ref), logical=True)

    def systematic(self):
        """(value, mask or None) pairs naming every operator and form."""
        t, out = self.t, []
        f = isf(t)
        A, B, C = (self.leaf(t, k) for k in range(3))
        if t == self.u:
            A, B, C = (Nd(t, 'E.leaf<%s>(%d)' % (t, k), 'E.ref(%d,i)' % k)
                       for k in range(3))
        bins = [('add', '+'), ('sub', '-'), ('mul', '*'), ('min', ''),
                ('max', ''), ('adds', ''), ('subs', '')]
        if f:
            bins += [('div', '/')]
        if t != 'f16':
            bins += [('andb', '&'), ('orb', '|'), ('xorb', '^'),
                     ('andnotb', '')]
        for op, sym in bins:
            if sym:
                out.append(call(op, t, [A, B], 'A %s B' % sym))
            out.append(call(op, t, [B, A], 'tet1d::%s(B, A)' % op))
            out.append(self.withlit(op, sym, t, A, True))
            out.append(self.withlit(op, sym, t, A, False))
        if not f:
            out.append(self.withlit('div', '/', t, A, False, nonzero=True))
            out.append(self.binop('div', '/', t, B, self.divisor(t, 0)))
            for op in ('shl', 'shr', 'shra'):
                for i in (0, 1):
                    out.append(self.shift(op, t, A, i))
        uns = [('abs', '')] + ([] if t[0] == 'u' else [('neg', '-')])
        uns += [] if t == 'f16' else [('notb', '~')]
        uns += [(x, '') for x in ('floor', 'ceil', 'trunc', 'round_to_even')]
        if f:
            uns += [(x, '') for x in ('sqrt', 'rec', 'rec11', 'rec8',
                                      'rsqrt11', 'rsqrt8')]
        for op, sym in uns:
            if sym:
                out.append(call(op, t, [A], '%sA' % sym))
            out.append(call(op, t, [B], 'tet1d::%s(B)' % op))
        for op in ('fma', 'fms', 'fnma', 'fnms'):
            out.append(call(op, t, [A, B, C], 'tet1d::%s(A, B, C)' % op))
            out.append(call(op, t, [C, A, B], 'tet1d::%s(C, A, B)' % op))
        if self.u != t and 'f16' not in (t, self.u):
            D = self.leaf(self.u)
            out.append(self.conv('cvt', t, D))
            out.append(self.conv('reinterpret', t, D))
            out.append(self.withlit('add', '+', t, self.conv('cvt', t, D), 0))
            out.append(self.withlit('mul', '*', t, self.conv('cvt', t, D), 1))
        res = [(o, None) for o in out]
        for sym, op in CMPS:
            res.append((B, self.cmp(op, sym, A, B)))
            res.append((B, self.cmp(op, sym, A, self.lit(t))))
            res.append((C, self.cmp(op, sym, self.lit(t), A)))
        for op in ('andl', 'orl', 'xorl', 'andnotl', 'notl'):
            for i in (0, 1):
                res.append((self.lit(t), self.log(op, t, 1, i)))
        res.append((C, Nd(t, 'tet1d::to_logical(A)',
                          'tolog(%s,E.ref(0,i))' % t.upper(), logical=True)))
        return res

    def random(self):
        t, r = self.t, self.r
        ot = t
        x = self.v(t, r.randrange(1, 5))
        m = self.l(t, r.randrange(1, 4)) if r.random() < 0.4 else None
        if m and r.random() < 0.2:
            x = self.lit(t)
        return x, m


def same_size(t):
    return [x for x in TYPES if SIZE[x] == SIZE[t]]


def emit(seed, ext, t, nrandom):
    rnd = random.Random('%s/%s/%s' % (seed, ext, t))
    u = rnd.choice([x for x in same_size(t) if x != t and x != 'f16'] or [t])
    g = Gen(rnd, t, u)
    if t == 'f16':
        u = g.u = t
    pairs = g.systematic() + [g.random() for _ in range(nrandom)]
    s = ['#include "c21.hpp"', 'using namespace c21;',
         'template <typename T> T SC(double d) { return tet1d::literal_to<T>'
         '::impl(d); }']
    reg = []
    for k, (x, m) in enumerate(pairs):
        n = 'e%d' % k
        un = rnd.choice([1, 1, 1, 2, 3])
        P = 'nsimd::pack<%s, %d>' % (t, un)
        if un == 1 and rnd.random() < 0.5:
            o = 'tet1d::out((%s *)o)' % t
            oty = 'TET1D_OUT(%s)' % t
        else:
            o = 'tet1d::out<%s, %s >((%s *)o, 128, 0)' % (t, P, t)
            oty = 'TET1D_OUT_EX(%s, %d, nsimd::simd_ext_t)' % (t, un)
            oty = 'tet1d::node<tet1d::out_t, tet1d::none_t, tet1d::none_t, ' \
                  '%s >' % P
        s.append('struct %s {' % n)
        ins = ''.join('const TET1D_IN(%s) %s = E.leaf<%s>(%d); (void)%s; ' % (
            t, v, t, i, v) for i, v in enumerate('ABC'))
        if m is None:
            body = '%s = %s;' % (o, x.cpp)
        else:
            body = '%s Z = %s; Z(%s) = %s;' % (oty, o, m.cpp, x.cpp)
        s.append('static void run(const Env &E, void *o) { %s%s }' % (ins,
                                                                     body))
        root = x.root or 'Root{O_none,%s,%s,%s,val(0),val(0),0}' % (
            t.upper(), t.upper(), x.ref)
        s.append('static Root ref(const Env &E, int i) { (void)E; (void)i; '
                 'Root r = %s; return r; }' % root)
        s.append('static RV mask(const Env &E, int i) { (void)E; (void)i; '
                 'return %s; } };' % (m.ref if m else 'val(1)'))
        txt = ('out(%s) = %s' % (m.cpp, x.cpp) if m else 'out = %s' % x.cpp)
        txt = txt.replace('E.leaf', 'leaf').replace('"', "'")
        reg.append('{ Expr e = {"%s_%s_%s", "%s", %s, %s, %s, %d * nsimd::'
                   'len(%s()), %s, %s::run, %s::ref, %s::mask}; '
                   'table().push_back(e); }' % (
                       ext, t, n, txt, t.upper(), u.upper(), t.upper(), un,
                       t, 'true' if m else 'false', n, n, n))
    s.append('void reg_%s() { %s }' % (t, '\n'.join(reg)))
    s.append('int main(int argc, char **argv) { reg_%s(); return '
             'main_(argc, argv, "%s"); }' % (t, seed))
    return '\n'.join(s) + '\n'


if __name__ == '__main__':
    import sys
    print(emit(int(sys.argv[1]), sys.argv[2], sys.argv[3], int(sys.argv[4])))
