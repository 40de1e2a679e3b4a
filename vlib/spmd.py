"""Random SPMD kernels, with the C++ of a per-element reference."""
import random

CM = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


class G:
    def __init__(self, rnd, bits):
        self.r, self.bits = rnd, bits
        self.kinds = ['i', 'u'] + (['f'] if bits >= 32 else [])
        self.vars = {'i': ['vi0', 'vi1', 'vi2'], 'u': ['vu0', 'vu1'],
                     'f': ['vf0', 'vf1']}
        self.bools = ['vb0', 'vb1']
        self.loops = 0
        self.nfun = 0
        self.decl = []
        self.funcs = []      # (name, kind, argument kinds)
        self.vfuncs = []

    def ty(self, k):
        return '%s%d' % (k, self.bits)

    def T(self, k):
        return self.ty(k).upper()

    def kt(self, k):
        return {'i': 'k_int', 'u': 'k_uint', 'f': 'k_float', 'b': 'k_bool'}[k]

    def lit(self, k):
        r = self.r
        if k == 'f':
            v = r.choice(['0.5', '1', '2', '-3', '0', '4.25', '-0.75'])
        elif k == 'u':
            v = r.choice(['0', '1', '2', '3', '7', '100', '255'])
        else:
            v = r.choice(['0', '1', '-1', '3', '-5', '7', '100', '-128'])
        t = self.ty(k)
        return '(%s)(%s)' % (t, v), 'bitsof((%s)(%s))' % (t, v)

    def call(self, f):
        if f[3]:
            return 'spmd_call_tmpl_dev_func(%s, %s' % (f[0], f[3])
        return 'spmd_call_dev_func(%s' % f[0]

    def val(self, k, d):
        """(DSL text, reference text) of a value of kind k."""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.15:
            if r.random() < 0.2 and self.arrays:
                a = r.choice(self.arrays[k])
                return 'k_load(%s)' % a, 'M.ld(%s, i)' % a
            v = r.choice(self.vars[k])
            return v, v
        if x < 0.22 and self.funcs and self.infun == 0:
            f = r.choice(self.funcs)
            if f[1] == k:
                a = [self.val(q, d - 1) for q in f[2]]
                # arguments of generic functions must have the exact type
                return ('%s, %s)' % (
                            self.call(f), ', '.join('%s(%s)' % (self.kt(q), s[0])
                                            for q, s in zip(f[2], a))),
                        'ref_%s(M, i, %s)' % (f[0], ', '.join(
                            s[1] for s in a)))
        T = self.T(k)
        if k == 'f':
            ops = ['add', 'sub', 'min', 'max', 'add', 'sub']
            un = ['neg', 'abs', 'floor', 'ceil', 'trunc', 'round_to_even']
        else:
            ops = ['add', 'sub', 'mul', 'min', 'max', 'andb', 'orb', 'xorb',
                   'andnotb', 'adds', 'subs']
            un = ['notb'] + (['neg'] if k == 'i' else [])
        m = r.random()
        if m < 0.6:
            op = r.choice(ops)
            a, b = self.val(k, d - 1), self.val(k, d - 1)
            if r.random() < 0.3:
                b = self.lit(k)
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'andb': '&',
                   'orb': '|', 'xorb': '^'}.get(op)
            ref = 'rop(O_%s, %s, %s, %s)' % (op, T, a[1], b[1])
            if sym and self.bits >= 32 and r.random() < 0.4:
                return '(%s %s %s)' % (a[0], sym, b[0]), ref
            return 'k_%s(%s, %s)' % (op, a[0], b[0]), ref
        if m < 0.72:
            op = r.choice(un)
            a = self.val(k, d - 1)
            return ('k_%s(%s)' % (op, a[0]),
                    'rop(O_%s, %s, %s, 0)' % (op, T, a[1]))
        if m < 0.82 and k != 'f':
            op = r.choice(['shl', 'shr', 'shra'])
            a = self.val(k, d - 1)
            p = r.randrange(self.bits)
            return ('k_%s(%s, %d)' % (op, a[0], p),
                    'rop(O_%s, %s, %s, 0, 0, %d)' % (op, T, a[1], p))
        if m < 0.9 and k != 'f':
            o = 'u' if k == 'i' else 'i'
            a = self.val(o, d - 1)
            op = r.choice(['cvt', 'reinterpret'])
            return 'k_%s(%s, %s)' % (op, self.kt(k), a[0]), a[1]
        if m < 0.95 and k != 'f':
            a = self.log(d - 1)
            return ('k_to_mask(%s, %s)' % (self.kt(k), a[0]),
                    '(%s ? ty_mask(%s) : 0)' % (a[1], T))
        if k != 'f':
            op = r.choice(['fma', 'fms', 'fnma', 'fnms'])
            a = [self.val(k, d - 1) for _ in range(3)]
            return ('k_%s(%s)' % (op, ', '.join(x[0] for x in a)),
                    'rop(O_%s, %s, %s)' % (op, T, ', '.join(x[1] for x in a)))
        a = self.val(k, d - 1)
        m = r.randrange(3)
        if m == 0:
            return ('k_sqrt(k_abs(%s))' % a[0],
                    'rop(O_sqrt, %s, rop(O_abs, %s, %s, 0), 0)' % (T, T, a[1]))
        if m == 1:
            v = r.choice(['3', '-7', '0.1', '1e9'])
            return ('k_div(%s, (%s)%s)' % (a[0], self.ty(k), v),
                    'rop(O_div, %s, %s, bitsof((%s)%s))' % (T, a[1],
                                                            self.ty(k), v))
        return ('k_mul(%s, (%s)0.5)' % (a[0], self.ty(k)),
                'rop(O_mul, %s, %s, bitsof((%s)0.5))' % (T, a[1], self.ty(k)))

    def log(self, d):
        r = self.r
        m = r.random()
        if m < 0.12 and self.bools:
            b = r.choice(self.bools)
            return b, b
        if m < 0.18:
            k = r.choice(['i', 'u'])
            a = self.val(k, d - 1)
            return 'k_to_logical(%s)' % a[0], '(%s != 0)' % a[1]
        if d <= 0 or m < 0.7:
            k = r.choice(self.kinds)
            op = r.choice(CM)
            a, b = self.val(k, d - 1), self.val(k, d - 1)
            if r.random() < 0.5:
                b = self.lit(k)
            sym = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>',
                   'ge': '>='}[op]
            ref = '(rop(O_%s, %s, %s, %s) != 0)' % (op, self.T(k), a[1], b[1])
            if r.random() < 0.3 and self.bits >= 32:
                return '(%s %s %s)' % (a[0], sym, b[0]), ref
            return 'k_%s(%s, %s)' % (op, a[0], b[0]), ref
        op = r.choice(['andl', 'orl', 'xorl', 'andnotl', 'notl'])
        a = self.log(d - 1)
        if op == 'notl':
            return 'k_notl(%s)' % a[0], '(!%s)' % a[1]
        b = self.log(d - 1)
        e = {'andl': '(%s & %s)', 'orl': '(%s | %s)', 'xorl': '(%s != %s)',
             'andnotl': '(%s & !%s)'}[op]
        return 'k_%s(%s, %s)' % (op, a[0], b[0]), e % (a[1], b[1])

    def stmts(self, n, depth, inloop, ret):
        out, ref = [], []
        for _ in range(n):
            a, b = self.stmt(depth, inloop, ret)
            out += a
            ref += b
        return out, ref

    def stmt(self, depth, inloop, ret):
        r = self.r
        c = ['set'] * 6 + ['setb'] * 2
        if self.arrays and not self.pure:
            c += ['store'] * 3
        if depth > 0:
            c += ['if'] * 4 + ['while'] * 3
        if inloop:
            c += ['break', 'continue', 'break', 'continue']
        if depth < 3 and ret:
            c += ['return']
        if depth > 0:
            c += ['for']
        # every lane is on here: the unmasked variants are allowed
        top = self.infun == 0 and depth == 3 and not inloop and not self.gone
        if self.vfuncs and self.infun == 0:
            c += ['vcall']
        k = r.choice(c)
        ind = lambda ls: ['  ' + x for x in ls]
        if k == 'set':
            q = r.choice(self.kinds)
            v = r.choice(self.vars[q])
            a = self.val(q, r.randrange(3)) if r.random() < .8 else self.lit(q)
            u = 'unmasked_' if top and r.random() < .4 else ''
            return ['k_%sset(%s, %s);' % (u, v, a[0])], ['%s = %s;' % (v, a[1])]
        if k == 'setb':
            if not self.bools:
                return [], []
            v = r.choice(self.bools)
            if r.random() < 0.15:
                x = r.choice(['true', 'false'])
                return ['k_set(%s, %s);' % (v, x)], ['%s = %s;' % (v, x)]
            a = self.log(r.randrange(2))
            return ['k_set(%s, %s);' % (v, a[0])], ['%s = %s;' % (v, a[1])]
        if k == 'store':
            q = r.choice(self.kinds)
            m = self.outs[q]
            a = self.val(q, r.randrange(3)) if r.random() < .8 else self.lit(q)
            u = 'unmasked_' if top and r.random() < .5 else ''
            return (['k_%sstore(%s, %s);' % (u, m, a[0])],
                    ['M.st(%s, i, %s);' % (m, a[1])])
        if k == 'for': # plain C++, the same for every lane
            n = self.loops
            self.loops += 1
            x = self.stmts(r.randrange(1, 3), depth - 1, False, ret)
            h = 'for (int q%d = 0; q%d < %d; q%d++) {' % (n, n,
                                                         r.randrange(4), n)
            return [h] + ind(x[0]) + ['}'], [h] + ind(x[1]) + ['}']
        if k == 'if':
            o, f = [], []
            c = self.log(1)
            x = self.stmts(r.randrange(1, 4), depth - 1, inloop, ret)
            o += ['k_if (%s)' % c[0]] + ind(x[0])
            f += ['if (%s) {' % c[1]] + ind(x[1]) + ['}']
            for _ in range(r.choice([0, 0, 1, 2])):
                c = self.log(1)
                x = self.stmts(r.randrange(1, 3), depth - 1, inloop, ret)
                o += ['k_elseif (%s)' % c[0]] + ind(x[0])
                f += ['else if (%s) {' % c[1]] + ind(x[1]) + ['}']
            if r.random() < 0.6:
                x = self.stmts(r.randrange(1, 3), depth - 1, inloop, ret)
                o += ['k_else'] + ind(x[0])
                f += ['else {'] + ind(x[1]) + ['}']
            return o + ['k_endif'], f
        if k == 'while':
            n = self.loops
            self.loops += 1
            cv = 'cnt%d' % n
            self.decl.append(cv)
            lim = r.randrange(1, 6)
            c = self.log(1)
            x = self.stmts(r.randrange(1, 4), depth - 1, True, ret)
            T = self.T('i')
            t = self.ty('i')
            cond = 'k_andl(k_lt(%s, (%s)%d), %s)' % (cv, t, lim, c[0])
            rc = '(%s < %d && %s)' % (cv, lim, c[1])
            if r.random() < 0.3:
                cond = 'k_lt(%s, (%s)%d)' % (cv, t, lim)
                rc = '(%s < %d)' % (cv, lim)
            return (['k_set(%s, (%s)0);' % (cv, t), 'k_while (%s)' % cond,
                     '  k_set(%s, k_add(%s, (%s)1));' % (cv, cv, t)] +
                    ind(x[0]) + ['k_endwhile'],
                    ['%s = 0;' % cv, 'while (%s) {' % rc, '  %s++;' % cv] +
                    ind(x[1]) + ['}'])
        if k == 'vcall':
            f = r.choice(self.vfuncs)
            q = f[1]
            a = self.val(q, 1)
            return (['%s, %s, %s(%s));' % (
                self.call(f), self.outs[q], self.kt(q), a[0])],
                ['ref_%s(M, i, %s, %s);' % (f[0], self.outs[q], a[1])])
        if k == 'return':
            self.gone = self.gone or self.infun == 0
            return ['k_return;'], [ret]
        return ['k_%s;' % k], ['%s;' % k]

    def function(self, void):
        """A device function of one or two arguments."""
        r = self.r
        n = '%s_f%d' % (self.name, self.nfun)
        self.nfun += 1
        k = r.choice(self.kinds)
        args = [k] if void else [r.choice(self.kinds)
                                 for _ in range(r.randrange(1, 3))]
        if not void:
            args[0] = k
        save = (self.vars, self.bools, self.decl, self.arrays, self.pure,
                self.infun)
        self.vars = {q: ['w%s' % q] + ['p%d' % j for j, z in enumerate(args)
                                      if z == q] for q in self.kinds}
        self.bools, self.decl = ['wb'], []
        self.infun = 1
        self.arrays = {} if not void else {q: [] for q in self.kinds}
        self.pure = not void
        outs = None
        if void:
            self.pure = True
        head, rh = [], []
        for q in self.kinds:
            l = self.lit(q)
            head.append('  %s w%s(%s);' % (self.kt(q), q, l[0]))
            rh.append('  u64t w%s = %s;' % (q, l[1]))
        arrs = self.arrays
        self.arrays = {}
        ret = 'return;' if void else 'return w%s;' % k
        b, f = self.stmts(r.randrange(2, 6), 2, False, ret)
        if void:
            b.append('k_store(dst, w%s);' % k)
            f.append('M.st(dst, i, w%s);' % k)
        self.arrays = arrs
        dcl = ['  k_bool wb(false);'] + [
            '  k_int %s((%s)0);' % (c, self.ty('i')) for c in self.decl]
        rd = ['  bool wb = false;'] + ['  i64t %s = 0;' % c
                                       for c in self.decl]
        pa = ', '.join('%s p%d' % (self.kt(q), j) for j, q in enumerate(args))
        rp = ', '.join('u64t p%d' % j for j, q in enumerate(args))
        tm = self.ty(k) if r.random() < 0.3 else None
        if void:
            pa = '%s *dst, ' % ('TT_' if tm else self.ty(k)) + pa
            rp = 'Arr dst, ' + rp
        src = ['spmd_%sdev_func(%s %s, %s%s)' % (
            'tmpl_' if tm else '', 'void' if void else self.kt(k), n,
            'TT_, ' if tm else '', pa)]
        src += head + dcl + ['  ' + x for x in b]
        src += ([] if void else ['  return w%s;' % k]) + ['spmd_dev_func_end']
        src += ['static %s ref_%s(Mem &M, int i, %s) {' % (
            'void' if void else 'u64t', n, rp)]
        src += ['  (void)M; (void)i;'] + rh + rd + ['  ' + x for x in f]
        src += ([] if void else ['  return w%s;' % k]) + ['}']
        (self.vars, self.bools, self.decl, self.arrays, self.pure,
         self.infun) = save
        (self.vfuncs if void else self.funcs).append((n, k, args, tm))
        return src

    def kernel(self, name):
        r = self.r
        self.name = name
        self.funcs, self.vfuncs, self.nfun, self.loops = [], [], 0, 0
        self.decl, self.pure, self.infun = [], False, 0
        self.gone = False
        self.vars = {'i': ['vi0', 'vi1', 'vi2'], 'u': ['vu0', 'vu1'],
                     'f': ['vf0', 'vf1']}
        self.bools = ['vb0', 'vb1']
        self.arrays = {q: ['a%s0' % q, 'a%s1' % q, 'd' + q]
                       for q in self.kinds}
        self.outs = {q: 'd' + q for q in self.kinds}
        src = []
        for _ in range(r.choice([0, 0, 1, 2])):
            src += self.function(False)
        for _ in range(r.choice([0, 0, 1])):
            src += self.function(True)
        b, f = self.stmts(r.randrange(3, 8), 3, False, 'return;')
        par, rpar, dcl, rd = [], [], [], []
        for q in self.kinds:
            par += ['%s *a%s0' % (self.ty(q), q), '%s *a%s1' % (self.ty(q), q),
                    '%s *d%s' % (self.ty(q), q)]
            rpar += ['Arr a%s0' % q, 'Arr a%s1' % q, 'Arr d' + q]
            for j, v in enumerate(self.vars[q]):
                a = 'a%s%d' % (q, j) if j < 2 else 'd' + q
                u = r.random() < 0.3
                if u:
                    dcl.append('%s %s(k_unmasked_load(%s));' % (
                        self.kt(q), v, a))
                else:
                    dcl.append('%s %s(k_load(%s));' % (self.kt(q), v, a))
                rd.append('u64t %s = M.ld(%s, i);' % (v, a))
        dcl += ['k_bool vb0(false), vb1(true);']
        rd += ['bool vb0 = false, vb1 = true; (void)vb0; (void)vb1;']
        for c in self.decl:
            dcl.append('k_int %s((%s)0);' % (c, self.ty('i')))
            rd.append('i64t %s = 0;' % c)
        # what the lanes ended with
        for q in self.kinds:
            e = r.choice(self.vars[q])
            b.append('k_store(d%s, %s);' % (q, e))
            f.append('M.st(d%s, i, %s);' % (q, e))
        self.tmpl = self.ty('u') if r.random() < 0.3 else None
        if self.tmpl:
            par = [x.replace(self.tmpl + ' ', 'TT_ ') for x in par]
            src += ['spmd_tmpl_kernel_1d(%s, TT_, %s)' % (name,
                                                          ', '.join(par))]
        else:
            src += ['spmd_kernel_1d(%s, %s)' % (name, ', '.join(par))]
        src += ['  ' + x for x in dcl + b] + ['spmd_kernel_end']
        src += ['static void ref_%s(Mem &M, int i, %s) {' % (
            name, ', '.join(rpar))]
        src += ['  ' + x for x in rd + f] + ['}']
        return src


def emit(seed, ext, bits, count):
    rnd = random.Random('%s/%s/%d' % (seed, ext, bits))
    g = G(rnd, bits)
    s = ['#include "c22.hpp"', 'using namespace c22;']
    reg = []
    for k in range(count):
        n = 'k%d' % k
        body = g.kernel(n)
        s += body
        un = rnd.choice([1, 1, 1, 2, 3])
        ar, ra = [], []
        j = 0
        for q in g.kinds:
            for a in range(3):
                ar.append('(%s *)M.p[%d]' % (g.ty(q), j))
                ra.append('Arr{%d, %s}' % (j, g.T(q)))
                j += 1
        s.append('static void run_%s(Mem &M, int n) { spmd_launch_%skernel_1d('
                 '%s, %s%d, %d, n, %s); }' % (
                     n, 'tmpl_' if g.tmpl else '', n,
                     g.tmpl + ', ' if g.tmpl else '', bits, un,
                     ', '.join(ar)))
        s.append('static void all_%s(Mem &M, int n) { for (int i = 0; i < n; '
                 'i++) ref_%s(M, i, %s); }' % (n, n, ', '.join(ra)))
        s.append('static const char txt_%s[] = R"VP(%s)VP";' % (
            n, '\n'.join(body)))
        reg.append('{ Ker e = {"%s_%d_%s", txt_%s, %d, %d, %d * nsimd::len('
                   'i%d()), run_%s, all_%s}; table().push_back(e); }' % (
                       ext, bits, n, n, bits, j, un, bits, n, n))
    s.append('int main(int argc, char **argv) { %s return main_(argc, argv, '
             '"%s"); }' % ('\n'.join(reg), seed))
    return '\n'.join(s) + '\n'


if __name__ == '__main__':
    import sys
    print(emit(int(sys.argv[1]), sys.argv[2], int(sys.argv[3]),
               int(sys.argv[4])))
