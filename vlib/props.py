"""Property id -> check function."""
from . import elem, hatch, headers, prog, regprog, spmd, tet1d

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@prop('C01')
def c01(ctx):
    return elem.check(ctx, 'add sub mul div neg abs min max fma fnma fms '
                      'fnms'.split(), 2000, 60000, types=elem.wrap.IUTYPES)


@prop('C02')
def c02(ctx):
    return elem.check(ctx, ['adds', 'subs'], 15000, 400000)


@prop('C03')
def c03(ctx):
    return elem.check(ctx, 'add sub mul div sqrt rec neg abs fma fnma fms fnms '
                      'min max addv'.split(), 6000, 200000,
                      types=elem.wrap.FTYPES, full=True)


@prop('C04')
def c04(ctx):
    return elem.check(ctx, 'orb andb andnotb xorb notb shl shr shra'.split(),
                      3000, 60000)


@prop('C05')
def c05(ctx):
    return elem.check(ctx, 'eq ne gt ge lt le orl andl andnotl xorl notl '
                      'if_else1 all any nbtrue to_mask to_logical '
                      'reinterpretl'.split(), 1500, 40000)


@prop('C06')
def c06(ctx):
    return elem.check(ctx, 'floor ceil trunc round_to_even'.split(), 8000,
                      300000, full=True)


@prop('C07')
def c07(ctx):
    return elem.check(ctx, 'cvt upcvt downcvt reinterpret reinterpretl'.split(),
                      4000, 100000, full=True)


@prop('C12')
def c12(ctx):
    return elem.check(ctx, 'ziplo ziphi unziplo unziphi zip unzip'.split(),
                      4000, 100000)


@prop('C13')
def c13(ctx):
    return elem.check(ctx, 'rec8 rec11 rsqrt8 rsqrt11'.split(), 40000, 400000,
                      full=True)


VALUE_OPS = [o for o in elem.wrap.SIG
             if o not in elem.wrap.MATH1 + elem.wrap.MATH2 and
             not any(k in ('c*', '*', 's') for k in elem.wrap.SIG[o][1:]) and
             o not in ('set1l', 'len', 'iota', 'mask_for_loop_tail')]


@prop('C16')
def c16(ctx):
    ops = [o for o in VALUE_OPS if o in elem.wrap.SCALAR_OPS]
    return elem.check_diff(
        ctx, 'scalar', ops, ['c', 's', 'sx'], 1500, 60000,
        'Each case fills operand registers with edge-biased values and '
        'evaluates the same elements with the vector operator of one '
        'extension (C base API) and with the scalar C function and C++ '
        'overload; results are compared element by element. Non-trivial: the '
        'vector result holds at least two different lane values; distinct '
        'cases are counted by hash.')


@prop('C18')
def c18(ctx):
    layers = ['c', 'cm', 'cxx', 'p1', 'p2', 'p3', 'p4', 'o1', 'o2', 'o3',
              'a1', 'a2', 'a3', 'ca']
    return elem.check_diff(
        ctx, 'diff', VALUE_OPS, layers, 250, 10000,
        'Each case fills operand registers with edge-biased values and '
        'evaluates the same elements through every API layer (C functions, C '
        'macros, C++ base, packs of 1-4 registers, overloaded operators, '
        'compound assignments, C11 generics); all results must be identical '
        'to the C base API bit for bit (NaN payload aside). Non-trivial: the '
        'reference result holds at least two different lane values; distinct '
        'cases are counted by hash.')


@prop('C08')
def c08(ctx):
    return elem.check_mem(ctx, 'loadu loada loadlu loadla storeu storea '
                          'storelu storela set1 set1l len iota'.split(),
                          1500, 60000)


@prop('C09')
def c09(ctx):
    return elem.check_mem(ctx, 'masko_loadu1 masko_loada1 maskz_loadu1 '
                          'maskz_loada1 mask_storeu1 mask_storea1 '
                          'mask_for_loop_tail'.split(), 1500, 60000)


@prop('C10')
def c10(ctx):
    return elem.check_mem(ctx, [o + k + a for o in ('load', 'store')
                                for k in '234' for a in 'ua'], 600, 30000)


@prop('C11')
def c11(ctx):
    return elem.check_mem(ctx, 'gather scatter gather_linear '
                          'scatter_linear'.split(), 1500, 40000)


def src(name):
    return elem.os.path.join(elem.core.CPP, name)


@prop('C15')
def c15(ctx):
    ctx.rule = (
        'nsimd_f32_to_u16 is evaluated on all 2^32 bit patterns and '
        'nsimd_u16_to_f32 on all 2^16; the other entry points, the '
        'classification helpers and the f16 vector conversions of every '
        'extension on strided and boundary-biased patterns (all of them in '
        'the thorough tier). Each evaluation compares with a bit-level model '
        'written from IEEE-754. Every evaluated pattern is non-trivial; '
        'patterns are distinct per entry point by construction.')
    ctx.extra['exhaustive'] = ['nsimd_f32_to_u16', 'nsimd_u16_to_f32',
                               'f16 loads and stores', 'f16 classification']
    ctx.hatch()
    ps = [dict(name='c15_' + e, src=src('c15.cpp'), ext=e, opt='-O2')
          for e in ctx.exts]
    full = 0 if ctx.quick else 1
    jobs = [('c15_cpu', 'cpu', 200000, (i, 16, full, 1)) for i in range(16)]
    jobs += [('c15_' + e, e, 100000 if ctx.quick else 1000000, (0, 1, full, 0))
             for e in ctx.exts]
    return prog.go(ctx, ps, jobs)


@prop('C25')
def c25(ctx):
    ctx.rule = (
        'Pairs of normal numbers: f16 pairs of close magnitude enumerated '
        '(strided in the quick tier), f32 and f64 pairs generated as related '
        'values (one bit flipped, few ulps apart, neighbouring binades, '
        'equal). The C and C++ helpers are compared with an exact integer '
        'model and with the swapped call. Non-trivial: the numbers differ or '
        'agree on at least one bit; distinct pairs are counted by hash.')
    ctx.hatch()
    ps = [dict(name='c25', src=src('c25.cpp'), ext='cpu', opt='-O2')]
    jobs = [('c25', 'cpu', 1500000 if ctx.quick else 40000000, (i, 8))
            for i in range(8)]
    return prog.go(ctx, ps, jobs)


@prop('C14')
def c14(ctx):
    import subprocess
    ctx.rule = (
        'Each case evaluates one elementary function on 192 generated '
        'arguments (uniform at several scales, multiples of pi/2, values '
        'around range-reduction switches, thresholds of overflow, powers of '
        'two, all f16 values, specials), through every extension and API '
        'layer, and compares each lane with a 113-bit reference '
        '(libquadmath): the error in ulps must not exceed the bound in the '
        'name of the function, special values must match. All cases are '
        'non-trivial; distinct argument blocks are counted by hash.')
    ctx.assumptions = ['libquadmath is accurate to well below one f64 ulp']
    ctx.hatch()
    ops = elem.wrap.MATH1 + elem.wrap.MATH2
    layers = ['c', 'cm', 'cxx', 'p1', 'p2', 'ca', 's', 'sx']
    libs = elem.build_libs(ctx, ops, layers, sleef=True)
    drv = elem.driver(ctx, 'drv_math', libs=('-ldl', '-lquadmath'))
    ctx.log('built %d libraries' % len(libs))
    la = ['%s=%s' % l for l in libs]
    rerun = None
    if ctx.replay:
        rerun = [l.split()[1] for l in open(ctx.replay)
                 if l.startswith('rerun ')]
        if not rerun:
            return subprocess.run([drv, '1', '1', '/dev/null', '*',
                                   ctx.replay] + la).returncode
        rerun = rerun[0]
    iters = int(elem.os.environ.get('VP_ITERS', 1500 if ctx.quick else 30000))

    def mk(i, op):
        def f():
            o = elem.os.path.join(ctx.work, 'm%d.json' % i)
            r = elem.core.supervised(ctx, [drv, str(ctx.seed), str(iters), o,
                                           op, '-'] + la, o, op)
            if r[2] and elem.os.environ.get('VP_STAT'):
                print(r[2], end='')
            return r
        return f
    if rerun:
        ops = [rerun]
    elem.collect(ctx, elem.core.run_parallel([mk(i, o) for i, o in
                                              enumerate(ops)]))
    if rerun:
        return 1 if ctx.failures else 0
    return None


HIST_RULE = (
    'Each history is a generated sequence of operations run in a child '
    'process against the real code, with a model of the expected memory '
    'contents checked throughout; evaluations counts operations. '
    'Non-trivial: every history holds allocations, frees and content checks; '
    'distinct histories are counted by hash. Failing histories are shrunk.')


@prop('C19')
def c19(ctx):
    ctx.rule = HIST_RULE
    ctx.hatch()
    ps, jobs = [], []
    for std in ('c++98', 'c++11', 'c++17', 'c++20'):
        n = 'c19_' + std.replace('+', 'x')
        ps.append(dict(name=n, src=src('c19.cpp'), ext='avx2',
                       more=[(src('c19_shim.cpp'), std)]))
        jobs.append((n, std, 400 if ctx.quick else 20000, ()))
    for std in ('c++98', 'c++17'):
        n = 'c19a_' + std.replace('+', 'x')
        ps.append(dict(name=n, src=src('c19.cpp'), ext='avx2', opt='-O1',
                       more=[(src('c19_shim.cpp'), std)],
                       extra=['-fsanitize=address'],
                       ldflags=['-fsanitize=address']))
        jobs.append((n, std + '-asan', 120 if ctx.quick else 4000, ('asan',)))
    elem.os.environ['ASAN_OPTIONS'] = (
        'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1')
    return prog.go(ctx, ps, jobs)


@prop('C24')
def c24(ctx):
    ctx.rule = HIST_RULE
    ctx.hatch()
    elem.os.environ['ASAN_OPTIONS'] = (
        'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1')
    ps, jobs = [], []
    for k in ('plain', 'asan'):
        f = ['-fsanitize=address'] if k == 'asan' else []
        ps.append(dict(name='c24_' + k, src=src('c24.cpp'), ext='cpu',
                       extra=f, ldflags=f))
        jobs.append(('c24_' + k, k, 1000 if ctx.quick else 40000, (k,)))
    return prog.go(ctx, ps, jobs)


@prop('C23')
def c23(ctx):
    ctx.rule = (
        'Each case gives every lane its own edge-biased counter and key '
        '(zeros, ones, single bits, half words, consecutive counters, random) '
        'and compares each output word of each lane with an independent '
        'implementation of the published algorithm, itself checked against '
        'published known answers. All cases are non-trivial; distinct '
        '(counter, key) blocks are counted by hash.')
    ctx.hatch()
    ps = [dict(name='c23_' + e, src=src('c23.cpp'), ext=e) for e in ctx.exts]
    jobs = [('c23_' + e, e, 40000 if ctx.quick else 3000000, ())
            for e in ctx.exts]
    return prog.go(ctx, ps, jobs)


@prop('C20')
def c20(ctx):
    ctx.rule = (
        'For each of 25 formats (8, 16, 32 and 64-bit storage, 0 to 31 '
        'fraction bits) a case fills three registers of raw values (zero, '
        'one ulp, extremes, whole numbers, powers of two, neighbours, random) '
        'and a float, and compares scalar, mixed, pack and compound '
        'operations, comparisons, conversions, loads and stores with exact '
        'integer arithmetic wherever the intermediate fits the storage; storage, '
        'conversions, scalar arithmetic and comparisons are also checked for '
        'all 1000 or so formats that exist. All '
        'cases are non-trivial; distinct cases are counted by hash.')
    ctx.hatch()
    ps = [dict(name='c20_' + e, src=src('c20.cpp'), ext=e) for e in ctx.exts]
    n = 4
    jobs = [('c20_' + e, e, 6000 if ctx.quick else 300000, (i, n))
            for e in ctx.exts for i in range(n)]
    ps.append(dict(name='c20f', src=src('c20f.cpp'), ext='cpu',
                   extra=['-ftemplate-depth=2000']))
    jobs.append(('c20f', 'c20f', 1000 if ctx.quick else 50000, ()))
    return prog.go(ctx, ps, jobs)


def gseed(ctx):
    """Seed of the generated programs: the one of the replayed failure."""
    if ctx.replay:
        for l in open(ctx.replay):
            if l.startswith('gseed '):
                return int(l.split()[1])
    return ctx.seed


def generated(ctx, progs):
    """progs: list of (name, ext, source text, iters)."""
    ps, jobs = [], []
    for name, ext, text, iters in progs:
        f = elem.os.path.join(ctx.work, name + '.cpp')
        with open(f, 'w') as g:
            g.write(text)
        # signed overflow wraps in the vector part; the scalar part is held
        # to the same meaning
        ps.append(dict(name=name, src=f, ext=ext, extra=['-fwrapv']))
        jobs.append((name, name, iters, ()))
    return prog.go(ctx, ps, jobs)


@prop('C21')
def c21(ctx):
    ctx.rule = (
        'Expressions are generated by type and extension: every operator and '
        'function in every form (infix and named, literal on either side, '
        'masked outputs), plus random trees up to depth 4 mixing arithmetic, '
        'bitwise, shift, comparison, logical, conversion and mask nodes, '
        'with unroll 1 to 3. Each case evaluates one expression on a '
        'generated length (0, around multiples of the register length), '
        'generated slices (positive, negative, nested), inputs and output '
        'against guard pages, and compares every element with a reference '
        'evaluation; unselected and outside elements must not change. '
        'Non-trivial: at least one element; distinct cases are counted by '
        'hash of expression and data.')
    ctx.hatch()
    s, nr = gseed(ctx), 20 if ctx.quick else 150
    it = 250 if ctx.quick else 8000
    return generated(ctx, [
        ('c21_%s_%s' % (e, t), e, tet1d.emit(s, e, t, nr), it)
        for e in ctx.exts for t in tet1d.TYPES])


@prop('C22')
def c22(ctx):
    ctx.rule = (
        'Kernels are generated at random: nested k_if/k_elseif/k_else, '
        'k_while with k_break and k_continue, k_return, k_set on values and '
        'booleans, k_load/k_store and device functions, on int, uint and '
        'float variables of 8 to 64 bits with unroll 1 to 3. Each case '
        'launches one kernel on a generated length and generated arrays '
        'ending at guard pages and compares all arrays with the same program '
        'run element by element with plain C++ control flow; a kernel that '
        'does not end is a failure. Non-trivial: at least one element; '
        'distinct cases are counted by hash of kernel and data.')
    ctx.hatch()
    s, nk = gseed(ctx), 14 if ctx.quick else 80
    it = 400 if ctx.quick else 6000
    return generated(ctx, [
        ('c22_%s_%d' % (e, b), e, spmd.emit(s, e, b, nk), it)
        for e in ctx.exts for b in (8, 16, 32, 64)])


STDS = ['c++98', 'c++11', 'c++17', 'c++20']


def registers(ctx, specs, length, iters):
    """Generated register programs, one executable per extension and width."""
    ctx.hatch()
    ps, jobs, s = [], [], gseed(ctx)
    for i, e in enumerate(ctx.exts):
        for j, w in enumerate((8, 16, 32, 64)):
            n = '%s_%s_%d' % (ctx.prop.lower(), e, w)
            m, sh = regprog.emit(s, e, w, specs, length)
            f = elem.os.path.join(ctx.work, n + '.cpp')
            with open(f, 'w') as g:
                g.write(m)
            more = []
            for fl in sorted(sh):
                c = fl in ('c', 'c11')
                x = elem.os.path.join(ctx.work, '%s_%s.%s' % (
                    n, fl, 'c' if c else 'cpp'))
                with open(x, 'w') as g:
                    g.write(sh[fl])
                more.append((x, 'gnu11' if c else STDS[(i + j + s) % 4]))
            ps.append(dict(name=n, src=f, ext=e, more=more,
                           opt=['-O1', '-O2'][(i + s) % 2],
                           # GCC 13 miscompiles some AVX-512 mask stores when
                           # it vectorizes straight-line code
                           extra=['-ffp-contract=off',
                                  '-fno-tree-vectorize']))
            jobs.append((n, n, iters, ()))
    return prog.go(ctx, ps, jobs)


REG_RULE = (
    'Each case runs one generated straight-line program of %d instructions '
    'over registers kept live throughout (inputs: edge-biased, small and '
    'fractional values, dense and sparse logicals) and compares every '
    'intermediate register, lane by lane, with the reference meaning of the '
    'instruction that produced it. evaluations counts instructions executed '
    'and compared; all cases are non-trivial; distinct cases are counted by '
    'hash of program and inputs.')


@prop('C17')
def c17(ctx):
    n = 30 if ctx.quick else 60
    ctx.rule = REG_RULE % n + (
        ' Programs use packs of 1 to 4 registers: named functions, infix and '
        'compound operators, scalar operands on either side, if_else across '
        'types, masked and templated loads and stores, reductions, '
        'get_pack/to_pack, compiled as C++98, 11, 17 and 20.')
    return registers(ctx, [('pack', 14 if ctx.quick else 60)], n,
                     3000 if ctx.quick else 6000)


@prop('C26')
def c26(ctx):
    n = 35 if ctx.quick else 80
    ctx.rule = REG_RULE % n + (
        ' Programs mix the C functions, the C macros, the C++ overloads and '
        '(separately) the C11 generic macros, for element widths 8 to 64 and '
        'the next wider types, on every extension.')
    return registers(ctx, [('cxx', 8), ('c', 4), ('c11', 5)] if ctx.quick else
                     [('cxx', 40), ('c', 20), ('c11', 24)], n,
                     3000 if ctx.quick else 6000)


@prop('C27')
def c27(ctx):
    return hatch.check(ctx)


@prop('C28')
def c28(ctx):
    ctx.rule = (
        'Each case prints one register, logical or pack of generated lanes '
        'through one entry point (put, putl, vput, vput_e, stream operators '
        'of pack and packl), with the default or a generated format, to a '
        'stream that may hold earlier text and may fail after a generated '
        'number of bytes, and compares text and return value with the '
        'expected ones. Non-trivial: lanes differ; distinct cases are '
        'counted by hash.')
    ctx.hatch()
    ps, jobs = [], []
    for e in ctx.exts:
        ps.append(dict(name='c28_' + e, src=src('c28.cpp'), ext=e,
                       more=[(elem.os.path.join(
                           ctx.src, 'api_%s.cpp' % e), 'c++98')]))
        jobs.append(('c28_' + e, e, 40000 if ctx.quick else 300000, ()))
    return prog.go(ctx, ps, jobs)


@prop('C29')
def c29(ctx):
    import subprocess
    ctx.rule = (
        'For every operator, type, extension and layer (C, pack of 2, '
        'scalar), 16 generated operand sets are evaluated alone, then by 8 '
        'threads calling the operator at the same time on different '
        'operands, then again after a different history of calls; the bytes '
        'of the results must not change and no call may change the '
        'floating-point control registers. Whole tasks (memory operators, '
        'modules, allocation, printing) are compared in the same way. All '
        'cases are non-trivial; distinct operand sets are counted by hash.')
    ctx.hatch()
    os = elem.os
    if ctx.replay and 'entry ' not in open(ctx.replay).read() and \
            'rerun pure' not in open(ctx.replay).read():
        libs = []
    else:
        libs = elem.build_libs(ctx, VALUE_OPS + elem.wrap.MATH1 +
                               elem.wrap.MATH2, ['c', 'p2', 's'], sleef=True)
    drv = elem.driver(ctx, 'drv_pure', libs=('-ldl', '-lpthread'))
    ps, jobs = [], []
    for e in ctx.exts:
        ps.append(dict(name='c29_' + e, src=src('c29.cpp'), ext=e,
                       more=[(os.path.join(ctx.src, 'api_%s.cpp' % e),
                              'c++98')]))
        jobs.append(('c29_' + e, e, 300 if ctx.quick else 5000, ()))
    exes = prog.build(ctx, ps)
    ctx.log('built %d libraries, %d programs' % (len(libs), len(exes)))
    js = [(n, exes[n], l, it, a) for n, l, it, a in jobs]
    rerun = [l.split()[1][5:] for l in open(ctx.replay)
             if l.startswith('rerun pure:')] if ctx.replay else []
    if ctx.replay and not rerun:
        if not libs:
            return prog.replay(ctx, js)
        ext = [l.split()[1].split(':')[-2] for l in open(ctx.replay)
               if l.startswith('entry ')][0]
        return subprocess.run([drv, dict(libs)[ext], ext, '1', '1',
                               os.path.join(ctx.work, 'r.json'),
                               ctx.replay]).returncode
    n = 400 if ctx.quick else 20000
    outs = []
    for e, so in libs:  # one extension at a time: it uses all the cores
        if rerun and e not in rerun:
            continue
        o = os.path.join(ctx.work, 'pure_%s.json' % e)
        outs.append(elem.core.supervised(
            ctx, [drv, so, e, str(ctx.seed), str(n), o], o, 'pure:' + e))
    elem.collect(ctx, outs)
    if rerun:
        return 1 if ctx.failures else 0
    ctx.log('operators done')
    for j in js:
        prog.run(ctx, [j])
    return None


@prop('C30')
def c30(ctx):
    return headers.check(ctx)


ASAN_ENV = {'ASAN_OPTIONS': 'detect_stack_use_after_return=0:detect_leaks=0:allow_user_segv_handler=1:'
                            'handle_segv=0:handle_sigbus=0:handle_sigfpe=0:'
                            'handle_sigill=0:exitcode=1'}


@prop('C31')
def c31(ctx):
    ctx.rule = (
        'Every operator wrapper (operator, type, extension; C functions, '
        'scalar functions, packs of 2, masked and templated forms) is '
        'compiled with AddressSanitizer and called on '
        'generated registers and memory blocks; operands are heap blocks of '
        'exactly the documented size and memory blocks end at unmapped '
        'pages. No call may touch anything else, and all results must still '
        'be right. Non-trivial: the result holds two different lanes '
        '(memory operators: always); distinct cases are counted by hash.')
    ctx.assumptions = ['vector intrinsics that access memory through masks '
                       'are not instrumented; unmapped pages catch those']
    ctx.extra['extensions'] = ctx.exts
    ctx.hatch()
    mem = ('loadu loada loadlu loadla storeu storea storelu storela set1 '
           'set1l len iota masko_loadu1 masko_loada1 maskz_loadu1 '
           'maskz_loada1 mask_storeu1 mask_storea1 mask_for_loop_tail gather '
           'scatter gather_linear scatter_linear').split() + [
               o + k + a for o in ('load', 'store') for k in '234'
               for a in 'ua']
    fl = ('-fsanitize=address', '-fno-sanitize-recover=all')
    rep = open(ctx.replay).read() if ctx.replay else ''
    memkind = [l for l in rep.split('\n') if l.startswith('place ') or
               l.startswith('rerun mem')]
    sets = []
    if not ctx.replay or not memkind:
        sets.append(('oracle', 'drv_elem', elem.build_libs(
            ctx, VALUE_OPS, ['c'] if ctx.quick else ['c', 's', 'p2'],
            extra=fl, tag='v'),
            60 if ctx.quick else 2000))
    if not ctx.replay or memkind:
        sets.append(('mem', 'drv_mem', elem.build_libs(
            ctx, mem, ['c', 't2'] if ctx.quick else ['c', 'm2', 't2', 'p2'],
            extra=fl, tag='m'),
            60 if ctx.quick else 2000))
    ctx.log('built %d libraries' % sum(len(s[2]) for s in sets))
    env = dict(ASAN_ENV, VP_NOEX='1' if ctx.quick else '')
    for mode, d, libs, it in sets:
        drv = elem.driver(ctx, d, flags=('-fsanitize=address', '-g1'))
        if ctx.replay:
            return elem.replay(ctx, drv, libs, ctx.replay, mode, it, env)
        elem.run_driver(ctx, drv, mode, libs, it, env=env)
    return None
