"""C27: the generator under generated configurations, against one full run."""
import filecmp
import os
import random
import shutil
import subprocess
import sys

from . import core

SIMDS = ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl',
         'avx512_skylake', 'neon128', 'aarch64', 'sve', 'sve128', 'sve256',
         'sve512', 'sve1024', 'sve2048', 'vmx', 'vsx']
DEPS = {'cpu': 'cpu', 'sse2': 'cpu sse2', 'sse42': 'cpu sse2 sse42',
        'avx': 'cpu sse2 sse42 avx', 'avx2': 'cpu sse2 sse42 avx avx2',
        'avx512_knl': 'cpu sse2 sse42 avx avx2 avx512_knl',
        'avx512_skylake': 'cpu sse2 sse42 avx avx2 avx512_skylake',
        'neon128': 'cpu neon128', 'aarch64': 'cpu aarch64', 'vmx': 'cpu vmx',
        'vsx': 'cpu vmx vsx'}
for _s in SIMDS:
    DEPS.setdefault(_s, 'cpu aarch64 ' + _s)
GROUPS = ['x86', 'arm', 'ppc', 'all']


def gen_steps(r):
    """A generator history: list of (hash seed, argument list)."""
    steps = []
    for k in range(r.choice([1, 1, 1, 2, 3])):
        a = ['-l']
        if k == 0 or r.random() < 0.5:
            a.append('-f')
        c = r.random()
        if c < 0.15:
            pass
        elif c < 0.3:
            a += ['-D', r.choice(GROUPS)]
        else:
            n = r.choice([1, 1, 2, 2, 3, 5, 8])
            a += ['-D', ','.join(r.sample(SIMDS, n))]
        steps.append((r.choice(['0', str(r.randrange(1, 1 << 31))]), a))
    return steps


def gen_edit_steps(r):
    """A history with a listing, or with an unforced run over edited files.

    Pseudo steps: `list ARGS` runs the generator with -L; `edit K` appends a
    line to K generated files chosen by the step's seed."""
    steps = gen_steps(r)[:r.choice([0, 0, 1])]
    c = r.random()
    sel = [] if r.random() < 0.3 else \
        ['-D', ','.join(r.sample(SIMDS, r.choice([1, 2, 4])))]
    if c < 0.5:
        steps.append((str(r.randrange(1 << 31)), ['-L'] + sel))
    else:
        if not steps:
            steps = [('0', ['-lf'] + sel)]
        steps.append((str(r.randrange(1 << 31)),
                      ['edit', r.choice(['1', '5', '50', '500'])]))
        if r.random() < 0.3:
            steps.append(('3', ['-L']))
        steps.append((str(r.randrange(1 << 31)), ['-l'] + sel))
    return steps


def text(steps):
    return ''.join('step %s %s\n' % (h, ' '.join(a)) for h, a in steps)


def parse(path):
    r = []
    for l in open(path):
        f = l.split()
        if f and f[0] == 'step':
            r.append((f[1], f[2:]))
    return r


def files(root):
    r = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith('.pyc'):
                r.add(os.path.relpath(os.path.join(d, f), root))
    return r


def run_steps(ctx, dst, steps, sources):
    """Runs the history in a fresh copy; returns an error text or None."""
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(sources, dst)
    for h, a in steps:
        e = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-B',
                            os.path.join(dst, 'egg', 'hatch.py')] + a,
                           cwd=dst, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0:
            return 'hatch.py %s failed: %s' % (
                ' '.join(a), p.stdout.decode(errors='replace')[-300:])
    return None


def snapshot(root):
    r = {}
    for f in files(root):
        with open(os.path.join(root, f), 'rb') as fh:
            r[f] = fh.read()
    return r


def hatch(dst, h, a):
    e = dict(os.environ, PYTHONHASHSEED=h)
    return subprocess.run([sys.executable, '-W', 'ignore', '-B',
                           os.path.join(dst, 'egg', 'hatch.py')] + a,
                          cwd=dst, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True,
                          errors='replace')


def library_files(names):
    return set(f for f in names if f.startswith(('include' + os.sep,
                                                 'src' + os.sep)))


def judge_edit(ctx, dst, steps, sources):
    """Listings write nothing and name what a generation writes; unforced
    runs leave existing files alone."""
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(sources, dst)
    given = files(dst)
    for h, a in steps:
        before = snapshot(dst)
        if a[0] == 'edit':
            r = random.Random(int(h))
            gen = sorted(library_files(before) - given)
            for f in r.sample(gen, min(len(gen), int(a[1]))):
                with open(os.path.join(dst, f), 'ab') as fh:
                    fh.write(b'// edited\n')
            continue
        p = hatch(dst, h, a)
        if p.returncode != 0:
            return 'failed', 'hatch.py %s failed: %s' % (' '.join(a),
                                                         p.stdout[-300:])
        after = snapshot(dst)
        if '-L' in a:
            if after != before:
                f = sorted(k for k in set(after) | set(before)
                           if after.get(k) != before.get(k))[0]
                return 'list-writes', 'hatch.py %s wrote %s' % (' '.join(a),
                                                                f)
            listed = []
            for l in p.stdout.split('\n'):
                if os.path.isabs(l.strip()):
                    listed.append(os.path.relpath(os.path.realpath(l.strip()),
                                                  os.path.realpath(dst)))
            lib = library_files(listed)
            if len(lib) != len([l for l in listed if l in lib]):
                return 'list-twice', 'hatch.py %s names a file twice' % \
                    ' '.join(a)
            ref = dst + '_ref'
            shutil.rmtree(ref, ignore_errors=True)
            shutil.copytree(sources, ref)
            q = hatch(ref, h, ['-lf'] + [x for x in a if x != '-L'])
            want = library_files(files(ref) - given) if q.returncode == 0 \
                else None
            shutil.rmtree(ref, ignore_errors=True)
            if want is not None and want != lib:
                d = sorted(want ^ lib)[0]
                return 'list', 'hatch.py %s %s %s' % (
                    ' '.join(a), 'does not name' if d in want else
                    'names but does not write', d)
        elif not any(x in ('-f', '-lf') for x in a):
            for f in sorted(before):
                if after.get(f) != before[f]:
                    return 'rewritten', 'unforced hatch.py %s rewrote %s' % (
                        ' '.join(a), f)
    return None


def arch_dirs(root):
    """{extension: directory} of the generated per-extension files."""
    r = {}
    for plat in ('cpu', 'x86', 'arm', 'ppc'):
        d = os.path.join(root, 'include', 'nsimd', plat)
        if not os.path.isdir(d):
            continue
        for s in os.listdir(d):
            if os.path.isdir(os.path.join(d, s)):
                r[s] = os.path.join('include', 'nsimd', plat, s) + os.sep
    return r


def judge(ctx, full, fullset, archs, dst, steps, sources):
    err = run_steps(ctx, dst, steps, sources)
    if err:
        return 'failed', err
    got = files(dst)
    want_ext = set()
    for _, a in steps:
        v = a[a.index('-D') + 1] if '-D' in a else 'all'
        want_ext |= set({'all': SIMDS, 'x86': SIMDS[1:7], 'arm': SIMDS[7:15],
                         'ppc': SIMDS[15:]}.get(v, v.split(',')))
    extra = sorted(got - fullset)
    if extra:
        return 'extra', '%s exists only with %s' % (extra[0], steps)
    have = arch_dirs(dst)
    for s in sorted(set(' '.join(DEPS[x] for x in want_ext).split())):
        if s in archs and s not in have:
            return 'absent', (
                'no files for %s, requested or needed by a requested '
                'extension' % s)
    for f in sorted(fullset):
        owner = [s for s, d in archs.items() if f.startswith(d)]
        if f not in got:
            # files of an extension that was not asked for may be absent
            if owner and owner[0] not in have:
                continue
            return 'missing', '%s is not generated with %s' % (f, steps)
        if not filecmp.cmp(os.path.join(full, f), os.path.join(dst, f),
                           shallow=False):
            return 'differs', '%s differs from a full generation' % f
    return None


def shrink(test, steps):
    again = True
    while again:
        again = False
        for i in range(len(steps)):
            if len(steps) > 1:
                t = steps[:i] + steps[i + 1:]
                if test(t):
                    steps, again = t, True
                    break
        if again:
            continue
        for i, (h, a) in enumerate(steps):
            if '-D' in a and ',' in a[a.index('-D') + 1]:
                k = a.index('-D') + 1
                l = a[k].split(',')
                for j in range(len(l)):
                    b = a[:k] + [','.join(l[:j] + l[j + 1:])] + a[k + 1:]
                    t = steps[:i] + [(h, b)] + steps[i + 1:]
                    if test(t):
                        steps, again = t, True
                        break
            if again:
                break
    return steps


def check(ctx):
    ctx.rule = (
        'Each case is a generated history of one to three generator runs in '
        'one tree (a list of extensions in random order or a group, forced or '
        'not, each with its own hash seed); the resulting files are compared '
        'byte by byte with one full forced run: shared files must be '
        'identical, requested extensions must be present, and no file may '
        'differ. A quarter of the histories instead list files (-L: nothing '
        'is written, and exactly the library files the same options generate '
        'are named) or edit generated files before an unforced run, which '
        'must leave every existing file as it was. Non-trivial: all; distinct histories are counted.')
    src = os.path.join(ctx.work, 'src')
    os.makedirs(src)
    ls = subprocess.run(['git', '-C', core.REPO, 'ls-files', '-co',
                         '--exclude-standard', '-z', '--', 'egg', 'include',
                         'src'], capture_output=True, check=True).stdout
    for f in ls.decode().split('\0'):
        s = os.path.join(core.REPO, f)
        if f and os.path.isfile(s):
            d = os.path.join(src, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
    os.makedirs(os.path.join(src, 'tests'), exist_ok=True)
    os.makedirs(os.path.join(src, 'doc', 'html'), exist_ok=True)
    os.makedirs(os.path.join(src, 'doc', 'markdown'), exist_ok=True)
    full = os.path.join(ctx.work, 'full')
    err = run_steps(ctx, full, [('0', ['-lf'])], src)
    if err:
        raise core.BuildError('generator failed', err)
    fullset, archs = files(full), arch_dirs(full)

    def one(steps, tag):
        dst = os.path.join(ctx.work, 't_' + tag)
        if any(a[0] in ('edit', '-L') for _, a in steps):
            r = judge_edit(ctx, dst, steps, src)
        else:
            r = judge(ctx, full, fullset, archs, dst, steps, src)
        shutil.rmtree(dst, ignore_errors=True)
        return r
    if ctx.replay:
        r = one(parse(ctx.replay), 'r')
        print('replay', 'FAILS %s: %s' % r if r else 'passes')
        return 1 if r else 0
    n = 150 if ctx.quick else 1500
    rnd = random.Random(ctx.seed)
    cases = [[('0', ['-lf'])], [('1', ['-lf'])]]
    cases += [[(str(i + 7), ['-l', '-f', '-D', s])]
              for i, s in enumerate(SIMDS)]
    while len(cases) < n:
        cases.append(gen_steps(rnd))
    rnd = random.Random(ctx.seed + 1)
    cases += [[('0', ['-L'])]]
    cases += [gen_edit_steps(rnd) for _ in range(30 if ctx.quick else n // 3)]
    res = core.run_parallel([lambda i=i, c=c: one(c, str(i))
                             for i, c in enumerate(cases)])
    seen = set()
    for i, (c, r) in enumerate(zip(cases, res)):
        if r and r[0] not in seen:
            seen.add(r[0])
            c = shrink(lambda t: (one(t, 's') or ('',))[0] == r[0], c)
            r = one(c, 's') or r
            ctx.fail(r[0], '%s; history: %s' % (r[1], text(c).replace(
                '\n', '; ')), text(c))
    ctx.add_cov(len(cases), len(set(text(c) for c in cases)),
                [text(c).strip() for c in cases[20:26]])
    ctx.extra['files_compared'] = len(fullset)
    return None
