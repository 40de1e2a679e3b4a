"""Random straight-line programs over SIMD registers or C++ packs."""
import random

from . import wrap

IUF = ('i', 'u', 'f')


NOOP = ('set1', 'set1l', 'mask_for_loop_tail')


def fam(w):
    return ['i%d' % w, 'u%d' % w] + (['f%d' % w] if w > 8 else [])


def isf(t):
    return t[0] == 'f'


class Prog:
    """flavor: 'cxx' (C and C++ base API mixed), 'c' (C base API and macros),
    'c11' (C11 generic API), 'pack' (C++ packs, unroll n)."""

    def __init__(self, rnd, ext, w, n, flavor, name, std=''):
        self.r, self.ext, self.w, self.n = rnd, ext, w, n
        self.flavor, self.name, self.std = flavor, name, std
        E = ext
        if flavor == 'pack':
            self.L = [wrap.LP(E, n)]
            self.alt = [wrap.LO(E, n), wrap.LO(E, n), wrap.LA(E, n),
                        wrap.LT(E, n), wrap.LM(E, n)]
        elif flavor == 'c':
            self.L = [wrap.LC(E), wrap.LCM(E)]
            self.alt = [wrap.LCMA(E), wrap.LCME(E)]
        elif flavor == 'c11':
            self.L, self.alt = [wrap.LCA(E)], []
        else:
            self.L = [wrap.LC(E), wrap.LCM(E), wrap.LCXX(E)]
            self.alt = [wrap.LCMA(E), wrap.LCXA(E), wrap.LCME(E),
                        wrap.LCXE(E)]
        self.T = self.L[0]
        self.narrow = fam(w)
        self.wide = fam(2 * w) if w < 64 else []
        self.types = self.narrow + self.wide
        self.reg, self.ins, self.par, self.body = [], [], [], []
        self.tmp = 0
        for t in self.narrow:
            self.inp('v', t)
            self.inp('v', t)
        for t in self.wide:
            self.inp('v', t)
        for t in self.types:
            self.inp('l', t)
        self.nin = len(self.reg)
        self.nbytes = wrap.BITS[ext] // 8
        self.rb = self.nbytes * n

    def inp(self, k, t):
        self.reg.append((k, t))
        i = len(self.reg) - 1
        return i

    def ty(self, k, t):
        return self.T.ty(k, t)

    def new(self, k, t, expr):
        self.reg.append((k, t))
        i = len(self.reg) - 1
        # C90-style declaration order is not needed: C99 and up
        self.body.append('%s r%d = %s;' % (self.ty(k, t), i, expr))
        return i

    def stmt(self, s):
        self.body.append(s)

    def param(self, k, t, arg=0):
        self.par.append((k, t, arg))
        return len(self.par) - 1

    def sc(self, q, t):
        return '(*(const %s *)(q + %d))' % (t, q)

    def pick(self, k, t):
        c = [i for i, x in enumerate(self.reg) if x == (k, t)]
        late = [i for i in c if i >= self.nin]
        if late and self.r.random() < 0.7:
            return late[-1 - min(int(self.r.expovariate(0.6)), len(late) - 1)]
        return self.r.choice(c)

    def sup(self, L, op, t, to=None):
        return L.supports(op, t, to)

    def call(self, op, t, to, args, plain=False):
        c = [L for L in self.alt if L.supports(op, t, to)]
        if c and not plain and self.r.random() < 0.6:
            L = self.r.choice(c)
        else:
            L = self.r.choice([x for x in self.L if x.supports(op, t, to)])
        if isinstance(L, wrap.LA):
            self.tmp += 1
            v = 'm%d' % self.tmp
            self.stmt('%s %s = %s;' % (self.ty('v', t), v, args[0]))
            self.stmt('%s %s= %s;' % (v, wrap.CXXOP[op], args[1]))
            return v
        return L.call(op, t, to, args)

    def add(self, text, code, op, t, to, ins, d, p=(-1, -1)):
        ins = list(ins) + [-1] * (4 - len(ins))
        d = list(d) + [-1] * (4 - len(d))
        p = list(p) + [-1] * (2 - len(p))
        self.ins.append((text.replace('\\', '').replace('"', ''), code,
                         'O_' + op if op and op not in NOOP else 'O_none', t, to or t, ins, d, p))

    def R(self, *a):
        return ['r%d' % x for x in a]

    # -- instructions ------------------------------------------------------
    def step(self):
        r = self.r
        t = r.choice(self.narrow if r.random() < 0.75 or not self.wide
                     else self.wide)
        kinds = (['bin'] * 7 + ['un'] * 3 + ['cmp'] * 4 + ['logic'] * 4 +
                 ['select'] * 3 + ['conv'] * 4 + ['perm'] * 4 + ['fma'] * 2 +
                 ['div'] + ['shift'] * 3 + ['updown'] * 3 + ['mask'] * 2 +
                 ['const'] * 2 + ['red'] * 1 + ['mem'] * 5)
        if self.flavor == 'pack':
            kinds += ['scalar'] * 5 + ['packx'] * 2 + ['alias'] + ['lscal'] + \
                ['addv', 'len']
        getattr(self, 'k_' + r.choice(kinds))(t)

    def lane(self, op, t, regs, to=None, code='K_LANE', args=None, p=(),
             kind='v', plain=False):
        e = self.call(op, t, to, args or self.R(*regs), plain)
        d = self.new(kind, to or t, e)
        self.add('r%d = %s' % (d, e), code, op, t, to, regs, [d], p)
        return d

    def k_bin(self, t):
        ops = ['add', 'sub', 'mul', 'min', 'max', 'adds', 'subs']
        if t != 'f16':
            ops += ['orb', 'andb', 'xorb', 'andnotb']
        self.lane(self.r.choice(ops), t, [self.pick('v', t),
                                          self.pick('v', t)])

    def k_un(self, t):
        ops = ['abs']
        if t[0] != 'u':
            ops += ['neg']
        if t != 'f16':
            ops += ['notb']
        if isf(t):
            ops += ['ceil', 'floor', 'trunc', 'round_to_even', 'sqrt', 'rec',
                    'rec11', 'rec8', 'rsqrt11', 'rsqrt8']
        elif self.r.random() < 0.2:
            ops = ['ceil', 'floor', 'trunc', 'round_to_even']
        self.lane(self.r.choice(ops), t, [self.pick('v', t)])

    def k_cmp(self, t):
        self.lane(self.r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), t,
                  [self.pick('v', t), self.pick('v', t)], kind='l')

    def k_logic(self, t):
        op = self.r.choice(['andl', 'orl', 'xorl', 'andnotl', 'notl'])
        n = 1 if op == 'notl' else 2
        self.lane(op, t, [self.pick('l', t) for _ in range(n)], kind='l',
                  code='K_LOGIC')

    def k_select(self, t):
        lt = t
        a = [self.pick('l', t), self.pick('v', t), self.pick('v', t)]
        if self.r.random() < 0.4:
            lt = self.r.choice(self.narrow if t in self.narrow else self.wide)
            a[0] = self.pick('l', lt)
            if self.flavor == 'pack':
                e = 'nsimd::if_else(%s)' % ', '.join(self.R(*a))
            elif self.flavor == 'cxx':
                e = 'nsimd::if_else(%s, %s(), %s())' % (
                    ', '.join(self.R(*a)), lt, t)
            else:
                lt = t
                a[0] = self.pick('l', lt)
                e = self.call('if_else1', t, None, self.R(*a))
        else:
            e = self.call('if_else1', t, None, self.R(*a))
        d = self.new('v', t, e)
        self.add('r%d = %s' % (d, e), 'K_SELECT', 'if_else1', lt, t, a, [d])

    def k_conv(self, t):
        to = self.r.choice(self.narrow if t in self.narrow else self.wide)
        k = self.r.random()
        if k < 0.4:
            self.lane('cvt', t, [self.pick('v', t)], to)
        elif k < 0.7:
            self.lane('reinterpret', t, [self.pick('v', t)], to)
        else:
            self.lane('reinterpretl', t, [self.pick('l', t)], to, kind='l',
                      code='K_LOGIC')

    def k_perm(self, t):
        op, code = self.r.choice([('ziplo', 'K_ZIPLO'), ('ziphi', 'K_ZIPHI'),
                                  ('unziplo', 'K_UNZIPLO'),
                                  ('unziphi', 'K_UNZIPHI'),
                                  ('zip', 'K_ZIP2'), ('unzip', 'K_UNZIP2')])
        a = [self.pick('v', t), self.pick('v', t)]
        e = self.call(op, t, None, self.R(*a))
        if op in ('zip', 'unzip'):
            d = self.pair(t, e)
        else:
            d = [self.new('v', t, e)]
        self.add('%s = %s' % (','.join(self.R(*d)), e), code, op, t, None, a,
                 d)

    def pair(self, t, e, k=2):
        self.tmp += 1
        x = 'x%d' % self.tmp
        self.stmt('%s %s = %s;' % (self.ty('vx%d' % k, t), x, e))
        return [self.new('v', t, '%s.v%d' % (x, i)) for i in range(k)]

    def k_fma(self, t):
        self.lane(self.r.choice(['fma', 'fms', 'fnma', 'fnms']), t,
                  [self.pick('v', t) for _ in range(3)])

    def const(self, t, v):
        if t == 'f16':
            s = 'nsimd_f32_to_f16((f32)%s)' % v
        else:
            s = '(%s)%s' % (t, v)
        L = self.T
        return L.call('set1', t, None, [s])

    def k_div(self, t):
        a = [self.pick('v', t), self.pick('v', t)]
        if isf(t):
            self.lane('div', t, a)
            return
        b = self.T.call('orb', t, None, [
            self.T.call('andb', t, None, ['r%d' % a[1], self.const(t, 6)]),
            self.const(t, 1)])
        self.tmp += 1
        self.stmt('%s d%d = %s;' % (self.ty('v', t), self.tmp, b))
        self.lane('div', t, a, args=['r%d' % a[0], 'd%d' % self.tmp],
                  code='K_SDIV')

    def k_shift(self, t):
        if isf(t):
            return self.k_bin(t)
        op = self.r.choice(['shl', 'shr', 'shra'])
        # the infix >> and >>= of packs are those of shr
        q = self.param('P_SHIFT', t)
        a = self.pick('v', t)
        self.lane(op, t, [a], args=['r%d' % a, '(int)q[%d]' % q], p=[q])

    def k_updown(self, t):
        if not self.wide:
            return self.k_conv(t)
        if t in self.narrow:
            to = self.r.choice(self.wide)
            a = self.pick('v', t)
            e = self.call('upcvt', t, to, self.R(a))
            d = self.pair(to, e)
            self.add('%s = %s' % (','.join(self.R(*d)), e), 'K_UP', 'upcvt', t,
                     to, [a], d)
        else:
            to = self.r.choice(self.narrow)
            a = [self.pick('v', t), self.pick('v', t)]
            e = self.call('downcvt', t, to, self.R(*a))
            d = self.new('v', to, e)
            self.add('r%d = %s' % (d, e), 'K_DOWN', 'downcvt', t, to, a, [d])

    def k_mask(self, t):
        if self.r.random() < 0.5:
            self.lane('to_mask', t, [self.pick('l', t)])
        else:
            a = self.pick('v', t)
            self.lane('to_logical', t, [a], kind='l', code='K_TOLOG')

    def k_const(self, t):
        k = self.r.randrange(4)
        if k == 0:
            q = self.param('P_SCALAR', t)
            self.lane('set1', t, [], code='K_SET1', args=[self.sc(q, t)],
                      p=[q])
        elif k == 1:
            q = self.param('P_BOOL', t)
            self.lane('set1l', t, [], code='K_SET1L', args=['(int)q[%d]' % q],
                      p=[q], kind='l')
        elif k == 2:
            e = self.call('iota', t, None, [])
            d = self.new('v', t, e)
            self.add('r%d = %s' % (d, e), 'K_IOTA', None, t, None, [], [d])
        else:
            q, m = self.param('P_INT', t), self.param('P_INT', t, 1)
            self.lane('mask_for_loop_tail', t, [], code='K_TAIL', args=[
                '(int)q[%d]' % q, '(int)q[%d]' % m], p=[q, m], kind='l')

    def k_red(self, t):
        if isf(t):
            t = 'i' + t[1:]
        op = self.r.choice(['all', 'any', 'nbtrue'])
        a = self.pick('l', t)
        e = self.call(op, t, None, self.R(a))
        if op != 'nbtrue':
            e = '(%s ? 1 : 0)' % e
        s = self.T.call('set1', t, None, ['(%s)%s' % (t, e)])
        d = self.new('v', t, s)
        self.add('r%d = set1 %s' % (d, e), 'K_RED', op, t, None, [a], [d])

    # memory instructions go through the scratch area
    def ld(self, t, off=0, k='v'):
        op = ('load' if k == 'v' else 'loadl') + self.r.choice('ua')
        return self.call(op, t, None, ['(const %s *)(s + %d)' % (t, off)])

    def st(self, t, reg, off=0):
        return self.call('store' + self.r.choice('ua'), t, None,
                         ['(%s *)(s + %d)' % (t, off), 'r%d' % reg]) + ';'

    def k_mem(self, t):
        r = self.r
        c = ['masko', 'maskz', 'mstore', 'loadl', 'struct', 'lin', 'slin']
        if wrap.SIZE[t] > 1:
            c += ['gather', 'scatter', 'gather', 'scatter']
        k = r.choice(c)
        cp = '(const %s *)s' % t
        mp = '(%s *)s' % t
        ua = r.choice('ua')
        if k in ('masko', 'maskz'):
            a = [self.pick('l', t), self.pick('v', t)]
            self.stmt(self.st(t, a[1]))
            if k == 'masko':
                a.append(self.pick('v', t))
                e = self.call('masko_load%s1' % ua, t, None,
                              ['r%d' % a[0], cp, 'r%d' % a[2]])
            else:
                e = self.call('maskz_load%s1' % ua, t, None,
                              ['r%d' % a[0], cp])
            d = self.new('v', t, e)
            self.add('r%d = %s of r%d' % (d, e, a[1]),
                     'K_MASKO' if k == 'masko' else 'K_MASKZ', None, t, None,
                     a, [d])
        elif k == 'mstore':
            a = [self.pick('l', t), self.pick('v', t), self.pick('v', t)]
            self.stmt(self.st(t, a[2]))
            e = self.call('mask_store%s1' % ua, t, None,
                          ['r%d' % a[0], mp, 'r%d' % a[1]])
            self.stmt(e + ';')
            d = self.new('v', t, self.ld(t))
            self.add('r%d = %s over r%d' % (d, e, a[2]), 'K_MSTORE', None, t,
                     None, a, [d])
        elif k == 'loadl':
            a = self.pick('l', t)
            e = self.call('storel' + ua, t, None, [mp, 'r%d' % a])
            self.stmt(e + ';')
            d = self.new('l', t, self.ld(t, 0, 'l'))
            self.add('r%d = loadl after %s' % (d, e), 'K_COPY', None, t, None,
                     [a], [d])
        elif k == 'struct':
            n = r.choice([2, 3, 4])
            a = [self.pick('v', t) for _ in range(n)]
            e = self.call('store%d%s' % (n, ua), t, None, [mp] + self.R(*a))
            self.stmt(e + ';')
            f = self.call('load%d%s' % (n, r.choice('ua')), t, None, [cp])
            d = self.pair(t, f, n)
            self.add('%s = %s after %s' % (','.join(self.R(*d)), f, e),
                     'K_COPY', None, t, None, a, d)
        elif k == 'lin':
            q = self.param('P_STEP', t, 2)
            a = [self.pick('v', t), self.pick('v', t)]
            self.stmt(self.st(t, a[0]))
            self.stmt(self.st(t, a[1], self.rb))
            e = self.call('gather_linear', t, None, [cp, '(int)q[%d]' % q]) \
                if self.flavor != 'pack' else \
                'nsimd::gather_linear<%s >(%s, (int)q[%d])' % (
                    self.ty('v', t), cp, q)
            d = self.new('v', t, e)
            self.add('r%d = %s of r%d,r%d' % (d, e, a[0], a[1]), 'K_GLIN',
                     None, t, None, a, [d], [q])
        elif k == 'slin':
            q = self.param('P_STEP', t, 2)
            a = [self.pick('v', t) for _ in range(3)]
            self.stmt(self.st(t, a[0]))
            self.stmt(self.st(t, a[1], self.rb))
            e = self.call('scatter_linear', t, None,
                          [mp, '(int)q[%d]' % q, 'r%d' % a[2]])
            self.stmt(e + ';')
            d = [self.new('v', t, self.ld(t)),
                 self.new('v', t, self.ld(t, self.rb))]
            self.add('%s = %s over r%d,r%d' % (','.join(self.R(*d)), e, a[0],
                                               a[1]),
                     'K_SLIN', None, t, None, a, d, [q])
        elif k == 'gather':
            it = 'i' + t[1:]
            a = [self.pick('v', t), self.pick('v', it)]
            m = self.nbytes // wrap.SIZE[t]
            m *= {1: 1, 2: 2, 3: 2, 4: 4}[self.n]
            self.stmt(self.st(t, a[0]))
            ix = self.T.call('andb', it, None,
                             ['r%d' % a[1], self.const(it, m - 1)])
            self.tmp += 1
            self.stmt('%s g%d = %s;' % (self.ty('v', it), self.tmp, ix))
            e = self.call('gather', t, None, [cp, 'g%d' % self.tmp])
            d = self.new('v', t, e)
            self.add('r%d = %s of r%d, indices r%d & %d' % (d, e, a[0], a[1],
                                                           m - 1), 'K_GATHER',
                     None, t, None, a, [d], [-1, m])
        else:
            it = 'i' + t[1:]
            m = self.nbytes // wrap.SIZE[t]
            q = self.param('P_XOR', t, m)
            a = self.pick('v', t)
            ix = self.T.call('xorb', it, None, [
                self.T.call('iota', it, None, []),
                self.T.call('set1', it, None, ['(%s)q[%d]' % (it, q)])])
            self.tmp += 1
            self.stmt('%s g%d = %s;' % (self.ty('v', it), self.tmp, ix))
            e = self.call('scatter', t, None,
                          [mp, 'g%d' % self.tmp, 'r%d' % a])
            self.stmt(e + ';')
            d = self.new('v', t, self.ld(t))
            self.add('r%d = %s, indices iota ^ q%d' % (d, e, q), 'K_SCATTER',
                     None, t, None, [a], [d], [q])

    # packs only
    def k_scalar(self, t):
        r = self.r
        a = self.pick('v', t)
        left = r.random() < 0.5
        c = r.random()
        if c < 0.4:
            op = r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
        elif isf(t) or c < 0.8:
            op = r.choice(['add', 'sub', 'mul'] + (['div'] if isf(t) else []))
        else:
            op = r.choice(['orb', 'andb', 'xorb', 'div'])
        if op == 'div' and not isf(t):
            left = False
        q = self.param('P_SMALL' if op == 'div' else 'P_SCALAR', t)
        x, y = 'r%d' % a, self.sc(q, t)
        if left:
            x, y = y, x
        e = '%s %s %s' % (x, wrap.CXXOP[op], y)
        k = 'l' if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') else 'v'
        d = self.new(k, t, e)
        self.add('r%d = %s' % (d, e), 'K_SCAL', op, t, None, [a], [d],
                 [q, 1 if left else 0])

    def k_lscal(self, t):
        r = self.r
        op = r.choice(['andl', 'orl'])
        a = self.pick('l', t)
        if r.random() < 0.5:
            q, left = self.param('P_BOOL', t), r.random() < 0.5
            x, y = 'r%d' % a, '(q[%d] != 0)' % q
            if left:
                x, y = y, x
            e = '%s %s %s' % (x, wrap.CXXOP[op], y)
            d = self.new('l', t, e)
            self.add('r%d = %s' % (d, e), 'K_LOGIC', op, t, None, [a], [d],
                     [q, 1 if left else 0])
        else:
            o = r.choice(self.narrow if t in self.narrow else self.wide)
            b = self.pick('l', o)
            e = 'r%d %s r%d' % (a, wrap.CXXOP[op], b)
            d = self.new('l', t, e)
            self.add('r%d = %s' % (d, e), 'K_LOGIC', op, t, None, [a, b], [d])

    def k_alias(self, t):
        op, f = self.r.choice([('abs', 'fabs'), ('min', 'fmin'),
                               ('max', 'fmax')])
        a = [self.pick('v', t) for _ in range(1 if op == 'abs' else 2)]
        e = 'nsimd::%s(%s)' % (f, ', '.join(self.R(*a)))
        d = self.new('v', t, e)
        self.add('r%d = %s' % (d, e), 'K_LANE', op, t, None, a, [d])

    def k_packx(self, t):
        r = self.r
        n = r.choice([2, 3, 4])
        a = [self.pick('v', t) for _ in range(n)]
        self.tmp += 1
        x = 'x%d' % self.tmp
        self.stmt('%s %s; %s' % (self.ty('vx%d' % n, t), x, ' '.join(
            '%s.v%d = r%d;' % (x, i, a[i]) for i in range(n))))
        k = r.randrange(3)
        if k == 0:
            d = [self.new('v', t, 'nsimd::get_pack<%d>(%s)' % (i, x))
                 for i in range(n)]
            self.add('%s = get_pack' % ','.join(self.R(*d)), 'K_COPY', None,
                     t, None, a, d)
            return
        f = ['', 'to_pack', 'to_pack_interleave'][k]
        big = 'nsimd::pack<%s, %d>' % (t, n * self.n)
        self.stmt('nsimd::storeu((%s *)s, nsimd::%s(%s));' % (t, f, x))
        d = [self.new('v', t, 'nsimd::loadu<%s >((const %s *)(s + %d))' % (
            self.ty('v', t), t, i * self.rb)) for i in range(n)]
        self.add('%s = %s of %s' % (','.join(self.R(*d)), f,
                                    ','.join(self.R(*a))),
                 'K_COPY' if k == 1 else 'K_INTERLEAVE', None, t, None, a, d)

    def k_addv(self, t):
        if not isf(t) or (t == 'f16' and self.n > 1):
            return self.k_len(t)
        a = self.pick('v', t)
        e = 'nsimd::addv(r%d)' % a
        d = self.new('v', t, self.T.call('set1', t, None, [e]))
        self.add('r%d = set1 %s' % (d, e), 'K_ADDV', None, t, None, [a], [d])

    def k_len(self, t):
        if isf(t):
            t = 'i' + t[1:]
        e = self.r.choice(['nsimd::len(r%d)' % self.pick('v', t),
                           'nsimd::len(r%d)' % self.pick('l', t),
                           'nsimd::len<%s >()' % self.ty('v', t)])
        d = self.new('v', t, self.T.call('set1', t, None,
                                         ['(%s)%s' % (t, e)]))
        self.add('r%d = set1 %s' % (d, e), 'K_LEN', None, t, None, [], [d])

    # -- output ------------------------------------------------------------
    def shim(self):
        b = ['void %s(const unsigned char *in, unsigned char *out, '
             'unsigned char *s, const long long *q) {' % self.name,
             '(void)in; (void)out; (void)s; (void)q;']
        for i in range(self.nin):
            k, t = self.reg[i]
            b.append('%s r%d = %s;' % (self.ty(k, t), i, self.T.ld(
                k, t, '(in + %d)' % (i * self.rb))))
        b += self.body
        for i in range(self.nin, len(self.reg)):
            k, t = self.reg[i]
            b.append(self.T.st(k, t, '(out + %d)' % ((i - self.nin) *
                                                     self.rb), 'r%d' % i))
        b.append('}')
        return '\n'.join(b)

    def entry(self):
        """(static tables, call adding the program to the table)."""
        def lst(x):
            return '{' + ','.join(str(y) for y in x) + '}'
        m = self.name
        regs = ','.join("{'%s',%s}" % (k, t.upper()) for k, t in self.reg)
        par = ','.join('{%s,%s,%d}' % (k, t.upper(), a)
                       for k, t, a in self.par + [('P_BOOL', 'i8', 0)])
        ins = ',\n'.join('{"%s",%s,%s,%s,%s,%s,%s,%s}' % (
            tx, c, o, t.upper(), to.upper(), lst(i), lst(d), lst(p))
            for tx, c, o, t, to, i, d, p in self.ins)
        tab = ('static const Reg %s_r[] = {%s};\n'
               'static const Param %s_q[] = {%s};\n'
               'static const Ins %s_i[] = {%s};\n' % (m, regs, m, par, m,
                                                      ins))
        add = 'add("%s",%d,%d,%d,%s_r,%d,%s_q,%d,%s_i,%d,%s);\n' % (
            m, self.n, self.nbytes, self.nin, m, len(self.reg), m,
            len(self.par), m, len(self.ins), m)
        return tab, add


def emit(seed, ext, w, specs, length):
    """specs: list of (flavor, number of programs). Returns (main source,
    {flavor: shim source})."""
    m = '#include "regprog.hpp"\nusing namespace rp;\n'
    fill, shims = '', {}
    for flavor, count in specs:
        rnd = random.Random('%s %s %s %s' % (seed, ext, w, flavor))
        if flavor in ('c', 'c11'):
            sh, ex = '#include <nsimd/nsimd-all.h>\n', ''
        else:
            sh, ex = '#include <nsimd/nsimd-all.hpp>\n', 'extern "C" '
        for k in range(count):
            n = rnd.choice([1, 2, 2, 3, 4]) if flavor == 'pack' else 1
            p = Prog(rnd, ext, w, n, flavor, 'p_%s_%d_%d' % (flavor, w, k))
            for _ in range(length):
                p.step()
            sh += ex + p.shim() + '\n'
            m += ('extern "C" void %s(const unsigned char *, unsigned char *, '
                  'unsigned char *, const long long *);\n' % p.name)
            tab, add = p.entry()
            m += tab
            fill += add
        shims[flavor] = sh
    m += ('int main(int c, char **v) {\n%sreturn main_(c, v, "%s");\n}\n'
          % (fill, seed))
    return m, shims
