"""Checks that run wrappers lane by lane against the reference model."""
import json
import os
import subprocess

from . import core, wrap

ALL_LAYERS = ['c', 'cm', 'cxx', 'p1', 'p2', 'p3', 'o1', 'o2', 'a1', 'a3', 'ca',
              's', 'sx']


def build_libs(ctx, ops, layers=ALL_LAYERS, sleef=False, opt='-O1', cc='g++',
               types=None, tag='', split=1, std='c++98', extra=()):
    """Builds one shared library of wrappers per runnable extension."""
    ccc = 'clang' if 'clang' in cc else 'gcc'
    cmds, libs = [], []
    for ext in ctx.exts:
        d = os.path.join(ctx.work, 'w%s_%s' % (tag, ext))
        os.makedirs(d, exist_ok=True)
        co = wrap.combos(ext, ops, layers, types)
        objs = []
        parts = [('cpp', co)]
        if 'ca' in layers:
            parts.append(('c', co))
        for lang, cmb in parts:
            src = os.path.join(d, 'w.' + lang)
            with open(src, 'w') as f:
                f.write(wrap.emit(ext, cmb, lang))
            o = os.path.join(d, 'w_%s.o' % lang)
            if lang == 'cpp':
                cmds.append(('%s %s wrappers' % (ext, lang),
                             ctx.cxx(ext, std=std, opt=opt, cc=cc,
                                     extra=extra) + ['-c', src, '-o', o]))
            else:
                cmds.append(('%s %s wrappers' % (ext, lang),
                             ctx.cxx(ext, std='gnu11', opt=opt, cc=ccc,
                                     extra=extra) + ['-c', src, '-o', o]))
            objs.append(o)
        libs.append((ext, d, objs))
    lc, lo = ctx.lib_cmds('all' if sleef else 'cpu', sleef=sleef)
    ctx.run_jobs(sorted(cmds, key=lambda c: -len(c[0])) + lc, 'compile')
    links, res = [], []
    for ext, d, objs in libs:
        so = os.path.join(d, 'lib.so')
        links.append((ext + ' link', ['g++', '-shared', '-o', so] + objs + lo +
                      ['-lm']))
        res.append((ext, so))
    ctx.run_jobs(links, 'link')
    return res


def driver(ctx, name='drv_elem', libs=('-ldl',), flags=()):
    out = os.path.join(ctx.work, name)
    try:
        ctx.run_jobs([(name, ['g++', '-std=gnu++17', '-O2', '-w',
                              '-ffp-contract=off', '-fno-strict-aliasing'] +
                       list(flags) + ['-I' + core.CPP,
                                      os.path.join(core.CPP, name + '.cpp'), '-o',
                                      out] + list(libs))], 'driver')
    except core.BuildError as e:
        raise RuntimeError(e.what + '\n' + e.log)
    return out


def collect(ctx, outs):
    for o, rc, log in outs:
        try:
            r = json.load(open(o))
        except Exception:
            raise RuntimeError('driver produced no result (exit %s): %s' %
                               (rc, log[-2000:]))
        ctx.add_cov(r['evaluations'], r['distinct'], r['samples'])
        for f in r['failures']:
            ctx.fail(f['key'], f['desc'], f['replay'])


def run_driver(ctx, drv, mode, libs, iters, timeout=None, env=None, tag=''):
    def mk(ext, so):
        def f():
            o = os.path.join(ctx.work, 'out_%s%s_%s.json' % (mode, tag, ext))
            return core.supervised(ctx, [drv, mode, so, ext, str(ctx.seed),
                                         str(iters), o], o,
                                   '%s:%s' % (mode, ext), env, timeout)
        return f
    outs = core.run_parallel([mk(e, s) for e, s in libs])
    collect(ctx, outs)


def replay(ctx, drv, libs, path, mode='oracle', iters=None, env=None):
    key, rerun = None, None
    for l in open(path):
        if l.startswith('entry '):
            key = l.split()[1]
        if l.startswith('rerun '):
            rerun = l.split()[1].split(':')[1]
    ext = rerun or (key.split(':')[-2] if key else None)
    for e, so in libs:
        if e == ext and rerun:
            run_driver(ctx, drv, mode, [(e, so)], iters or 100, env=env)
            for f in ctx.failures:
                print('replay FAILS %s: %s' % f[:2])
            return 1 if ctx.failures else 0
        if e == ext:
            en = dict(os.environ)
            en.update(env or {})
            r = subprocess.run([drv, mode, so, e, '1', '1',
                                os.path.join(ctx.work, 'r.json'), path],
                               env=en)
            return r.returncode
    return 2


RULE = ('Each case is one call of one operator wrapper (operator, type, '
        'extension, API layer) on whole registers filled by edge-biased '
        'generators (type limits, powers of two +-1, byte/half-word patterns, '
        'related operands, NaN/inf/subnormal/tie values; all 8-bit operand '
        'pairs and all 16-bit operands exhaustively); every lane is compared '
        'with the reference model. Non-trivial: the result register holds at '
        'least two different lane values (reductions: some lane is true; '
        'permutations: always); distinct cases are counted by hash.')

ASSUME = ['harness and library are compiled with -fwrapv '
          '-fno-strict-aliasing (signed overflow in scalar code wraps)',
          'x86 extensions supported by this CPU are executed: all seven '
          'unless listed otherwise in coverage.extensions',
          'NaN payloads and NaN signs are not compared']


def check(ctx, ops, iters_quick, iters_thorough, layers=ALL_LAYERS,
          types=None, full=False):
    ctx.rule = RULE
    ctx.assumptions = list(ASSUME)
    ctx.extra['extensions'] = ctx.exts
    ctx.extra['operators'] = ops
    ctx.hatch()
    libs = build_libs(ctx, ops, layers, types=types)
    drv = driver(ctx)
    ctx.log('built %d libraries' % len(libs))
    if ctx.replay:
        return replay(ctx, drv, libs, ctx.replay, iters=iters_quick)
    run_driver(ctx, drv, 'oracle', libs,
               iters_quick if ctx.quick else iters_thorough,
               env={'VP_FULL': '1'} if (full and not ctx.quick) else None)
    if not ctx.quick:
        for cc, opt, std in (('clang++', '-O2', 'c++17'),
                             ('g++', '-O3', 'c++20'), ('g++', '-O0', 'c++98')):
            try:
                libs = build_libs(ctx, ops, layers, types=types, cc=cc,
                                  opt=opt, std=std, tag='_' + cc[:2] + opt)
            except core.BuildError as e:
                ctx.log('variant %s %s not built: %s' % (cc, opt, e.what))
                continue
            run_driver(ctx, drv, 'oracle', libs, iters_quick, timeout=20000,
                       tag=cc[:2] + opt)
    return None


def check_diff(ctx, mode, ops, layers, iters_quick, iters_thorough, rule,
               types=None):
    ctx.rule = rule
    ctx.assumptions = list(ASSUME)
    ctx.extra['extensions'] = ctx.exts
    ctx.extra['operators'] = ops
    ctx.extra['layers'] = layers
    ctx.hatch()
    libs = build_libs(ctx, ops, layers, types=types)
    drv = driver(ctx)
    ctx.log('built %d libraries' % len(libs))
    if ctx.replay:
        return replay(ctx, drv, libs, ctx.replay, mode, iters=iters_quick)
    run_driver(ctx, drv, mode, libs,
               iters_quick if ctx.quick else iters_thorough)
    if not ctx.quick:
        for cc, opt, std in (('clang++', '-O2', 'c++17'),
                             ('g++', '-O3', 'c++20'), ('g++', '-O0', 'c++98')):
            try:
                libs = build_libs(ctx, ops, layers, types=types, cc=cc,
                                  opt=opt, std=std, tag='_' + cc[:2] + opt)
            except core.BuildError as e:
                ctx.log('variant %s %s not built: %s' % (cc, opt, e.what))
                continue
            run_driver(ctx, drv, mode, libs, iters_quick, timeout=20000,
                       tag=cc[:2] + opt)
    return None


MEM_RULE = (
    'Each case is one call of one wrapper (operator, type, extension, API '
    'layer) on a memory block of generated elements placed flush against an '
    'unmapped page before or after it, at a random offset, or (masked '
    'operators) partly unmapped with inactive lanes there; register operands, '
    'masks, indices and steps are generated. Result lanes and the whole '
    'surrounding memory are compared with the documented addressing. '
    'Non-trivial: masked cases with at least one active lane, all others; '
    'distinct cases are counted by hash of operands and placement.')
MEM_LAYERS = ['c', 'cm', 'cxx', 'ca', 'p1', 'p2', 'p3', 'p4', 'cma', 'cme',
              'cxa', 'cxe', 't1', 't2', 't3', 'm1', 'm2', 'm3']


def check_mem(ctx, ops, iters_quick, iters_thorough, types=None):
    ctx.rule = MEM_RULE
    ctx.assumptions = ['pointers handed to the a forms are aligned on the '
                       'register size, pointers handed to the u forms on the '
                       'element size', 'NaN payloads of f16 are not compared']
    ctx.extra['extensions'] = ctx.exts
    ctx.extra['operators'] = ops
    ctx.hatch()
    libs = build_libs(ctx, ops, MEM_LAYERS, types=types)
    drv = driver(ctx, 'drv_mem')
    ctx.log('built %d libraries' % len(libs))
    if ctx.replay:
        return replay(ctx, drv, libs, ctx.replay, 'mem', iters=iters_quick)
    run_driver(ctx, drv, 'mem', libs,
               iters_quick if ctx.quick else iters_thorough)
    if not ctx.quick:
        for cc, opt, std in (('clang++', '-O2', 'c++17'),
                             ('g++', '-O3', 'c++20'), ('g++', '-O0', 'c++98')):
            libs = build_libs(ctx, ops, MEM_LAYERS, types=types, cc=cc,
                              opt=opt, std=std, tag='_' + cc[:2] + opt)
            run_driver(ctx, drv, 'mem', libs, iters_quick, timeout=20000,
                       tag=cc[:2] + opt)
    return None
