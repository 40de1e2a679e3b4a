"""Checks made of standalone programs compiled against the public headers."""
import os
import re
import subprocess

from . import core, elem


def build(ctx, progs, sleef=False, lib=True):
    """progs: list of dicts name, src (path), ext, and optionally std, opt,
    cc, extra (flags), defs. Returns {name: path of the executable}."""
    lc, lo = (ctx.lib_cmds('all' if sleef else 'cpu', sleef=sleef)
              if lib else ([], []))
    cmds, links, res = [], [], {}
    for p in progs:
        o = os.path.join(ctx.work, p['name'] + '.o')
        e = os.path.join(ctx.work, p['name'])
        cc = p.get('cc', 'g++')
        cmds.append((p['name'], ctx.cxx(p['ext'], std=p.get('std', 'c++17'),
                                        opt=p.get('opt', '-O1'), cc=cc,
                                        extra=p.get('extra', ())) +
                     ['-I' + core.CPP, '-c', p['src'], '-o', o]))
        more = []
        for k, (src, std) in enumerate(p.get('more', ())):
            m = os.path.join(ctx.work, '%s_%d.o' % (p['name'], k))
            c1 = cc
            if src.endswith('.c'):
                c1 = 'clang' if 'clang' in cc else 'gcc'
            cmds.append((p['name'], ctx.cxx(p['ext'], std=std,
                                            opt=p.get('opt', '-O1'), cc=c1,
                                            extra=p.get('extra', ())) +
                         ['-I' + core.CPP, '-c', src, '-o', m]))
            more.append(m)
        links.append((p['name'], [cc, '-o', e, o] + more + lo +
                      list(p.get('ldflags', ())) + ['-lm', '-ldl',
                                                    '-lpthread']))
        res[p['name']] = e
    ctx.run_jobs(cmds + lc, 'compile')
    ctx.run_jobs(links, 'link')
    return res


def run(ctx, jobs, timeout=None):
    """jobs: list of (name, exe, ext, iters, extra args)."""
    def mk(i, j):
        name, exe, ext, iters, args = j

        def f():
            o = os.path.join(ctx.work, 'out_%s_%d.json' % (name, i))
            return core.supervised(ctx, [exe, ext, str(ctx.seed), str(iters),
                                         o] + [str(a) for a in args], o, name,
                                   timeout=timeout)
        return f
    outs = core.run_parallel([mk(i, j) for i, j in enumerate(jobs)])
    elem.collect(ctx, outs)


def replay(ctx, jobs):
    ext = None
    for l in open(ctx.replay):
        m = re.match(r'prog (\S+)', l)
        if m:
            ext = m.group(1)
        m = re.match(r'rerun (\S+)', l)
        if m:
            run(ctx, [j for j in jobs if j[0] == m.group(1)])
            for f in ctx.failures:
                print('replay FAILS %s: %s' % f[:2])
            return 1 if ctx.failures else 0
    for name, exe, e, iters, args in jobs:
        if e == ext:
            r = subprocess.run([exe, e, '1', '1',
                                os.path.join(ctx.work, 'r.json'), '-r',
                                ctx.replay] + [str(a) for a in args])
            return r.returncode
    return 2


def go(ctx, progs, jobs, sleef=False, lib=True):
    """jobs: list of (program name, label, iters, args)."""
    exes = build(ctx, progs, sleef=sleef, lib=lib)
    ctx.log('built %d programs' % len(exes))
    ctx.extra['programs'] = len(exes)
    js = [(n, exes[n], label, it, args) for n, label, it, args in jobs]
    if ctx.replay:
        return replay(ctx, js)
    run(ctx, js)
    return None
