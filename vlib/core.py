"""Shared machinery: regenerate nsimd from /repo's working tree, build harness
objects, run drivers in parallel, replay failures, write evidence."""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = os.path.join(VERIF, 'cpp')
JOBS = 8

MFLAGS = {
    'cpu': ['-DCPU'],
    'sse2': ['-DSSE2', '-msse2'],
    'sse42': ['-DSSE42', '-msse4.2'],
    'avx': ['-DAVX', '-mavx'],
    'avx2': ['-DAVX2', '-mavx2', '-mfma', '-DFP16', '-mf16c', '-DFMA'],
    'avx512_knl': ['-DAVX512_KNL', '-mavx512f', '-mavx512pf', '-mavx512er',
                   '-mavx512cd', '-mfma', '-DFP16', '-mf16c'],
    'avx512_skylake': ['-DAVX512_SKYLAKE', '-mavx512f', '-mavx512dq',
                       '-mavx512cd', '-mavx512bw', '-mavx512vl', '-mfma',
                       '-DFP16', '-mf16c'],
}
CLANG_DROP = []
EXTS = list(MFLAGS)
SLEEF_ENABLE = {'sse2': ['ENABLE_SSE2'], 'sse42': ['ENABLE_SSE4'],
                'avx': ['ENABLE_AVX'], 'avx2': ['ENABLE_AVX2'],
                'avx512_knl': ['ENABLE_AVX512F'],
                'avx512_skylake': ['ENABLE_AVX512F']}
LOWER = {'cpu': ['cpu'], 'sse2': ['cpu', 'sse2'],
         'sse42': ['cpu', 'sse2', 'sse42'],
         'avx': ['cpu', 'sse2', 'sse42', 'avx'],
         'avx2': ['cpu', 'sse2', 'sse42', 'avx', 'avx2'],
         'avx512_knl': ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl'],
         'avx512_skylake': ['cpu', 'sse2', 'sse42', 'avx', 'avx2',
                            'avx512_skylake']}
LOWER['all'] = EXTS


def cpu_flags():
    try:
        with open('/proc/cpuinfo') as f:
            for l in f:
                if l.startswith('flags'):
                    return set(l.split(':')[1].split())
    except OSError:
        pass
    return set()


def runnable_exts():
    fl = cpu_flags()
    need = {'cpu': [], 'sse2': ['sse2'], 'sse42': ['sse4_2'], 'avx': ['avx'],
            'avx2': ['avx2', 'fma', 'f16c'],
            # the KNL back-end only uses AVX-512F (and CD) instructions
            'avx512_knl': ['avx512f', 'avx512cd', 'fma', 'f16c'],
            'avx512_skylake': ['avx512f', 'avx512dq', 'avx512bw', 'avx512vl',
                               'avx512cd', 'fma', 'f16c']}
    return [e for e in EXTS if all(x in fl for x in need[e])]


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what = what
        self.log = log


class Ctx:
    def __init__(self, prop, tier=None, replay=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.died = False
        self.replay = replay
        self.keep = os.environ.get('VP_KEEP')
        if self.keep:
            self.work = os.path.join('/tmp', 'vp_keep_' + prop)
            os.makedirs(self.work, exist_ok=True)
        else:
            self.work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.gen_root = None
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.assumptions = []
        self.failures = []
        self.exts = runnable_exts()
        self.quick = self.tier == 'quick'

    def close(self):
        if not self.keep:
            shutil.rmtree(self.work, ignore_errors=True)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a)
        sys.stdout.flush()

    # -- sources ----------------------------------------------------------
    def hatch(self, dst=None, args=('-lf',), env=None):
        """Copy the working tree's sources and run the generator on the copy."""
        root = dst or os.path.join(self.work, 'nsimd')
        if self.keep and os.environ.get('VP_GEN') and not dst:
            self.gen_root = os.environ['VP_GEN']
            return self.gen_root
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        ls = subprocess.run(['git', '-C', REPO, 'ls-files', '-co',
                             '--exclude-standard', '-z', '--', 'egg',
                             'include', 'src'],
                            capture_output=True, check=True).stdout
        for f in ls.decode().split('\0'):
            s = os.path.join(REPO, f)
            if not f or not os.path.isfile(s):
                continue
            d = os.path.join(root, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
        os.makedirs(os.path.join(root, 'tests'), exist_ok=True)
        e = dict(os.environ)
        if env:
            e.update(env)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-B',
                            os.path.join(root, 'egg', 'hatch.py')] +
                           list(args), cwd=root, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError('generator failed', r.stdout.decode()[-4000:])
        if not dst:
            self.gen_root = root
        return root

    @property
    def inc(self):
        return os.path.join(self.gen_root, 'include')

    @property
    def src(self):
        return os.path.join(self.gen_root, 'src')

    # -- building ---------------------------------------------------------
    def run_jobs(self, cmds, what):
        """cmds: list of (label, argv). Parallel; raises BuildError."""
        def one(c):
            r = subprocess.run(c[1], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            return c[0], c[1], r.returncode, r.stdout.decode(errors='replace')
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, cmds))
        for label, argv, rc, out in res:
            if rc != 0:
                raise BuildError('%s: %s' % (what, label),
                                 ' '.join(argv) + '\n' + out[:6000])

    def cxx(self, ext, std='c++98', opt='-O1', cc='g++', extra=()):
        m = MFLAGS[ext]
        if 'clang' in cc:
            m = [x for x in m if x not in ('-mavx512pf', '-mavx512er')]
        return [cc, '-std=' + std, '-fPIC', opt, '-w', '-DNDEBUG', '-fwrapv',
                '-fno-strict-aliasing', '-I' + self.inc] + m + list(extra)

    def lib_cmds(self, ext, sleef=False, cc='gcc', opt='-O2'):
        """Commands building the nsimd runtime objects needed with `ext`;
        returns (cmds, objects)."""
        od = os.path.join(self.work, 'lib_' + ext)
        os.makedirs(od, exist_ok=True)
        cxx = 'clang++' if 'clang' in cc else 'g++'
        cmds, objs = [], []

        def add(label, argv, o):
            cmds.append((label, argv + ['-o', o]))
            objs.append(o)
        for s in ('fp16', 'memory', 'ufp', 'gpu'):
            add(s, [cxx, '-std=c++98', '-fPIC', opt, '-w', '-DNDEBUG', '-DCPU',
                    '-I' + self.inc, '-c',
                    os.path.join(self.src, s + '.cpp')],
                os.path.join(od, s + '.o'))
        if sleef:
            base = [cc, '-fPIC', opt, '-w', '-DNDEBUG', '-DDORENAME=1',
                    '-I' + self.src, '-c']
            for s in ('rempitab', 'sleefsp', 'sleefdp'):
                add(s, base + [os.path.join(self.src, s + '.c')],
                    os.path.join(od, s + '.o'))
            for e in LOWER[ext]:
                if e == 'cpu':
                    continue
                m = MFLAGS[e]
                if e == 'avx2':
                    m = ['-DAVX2', '-mavx2', '-mfma']
                if e.startswith('avx512'):
                    m = MFLAGS['avx512_knl']
                    if 'clang' in cc:
                        m = [x for x in m
                             if x not in ('-mavx512pf', '-mavx512er')]
                for s in ('sleefsimdsp', 'sleefsimddp'):
                    add(s, base + m + ['-D%s=1' % SLEEF_ENABLE[e][0],
                                       '-DNSIMD_' + e.upper(),
                                       os.path.join(self.src, s + '.c')],
                        os.path.join(od, s + '_' + e + '.o'))
        return cmds, objs

    # -- reporting --------------------------------------------------------
    def add_cov(self, evals, distinct, samples=()):
        self.evals += evals
        self.distinct += distinct
        for s in samples:
            if len(self.samples) < 24:
                self.samples.append(s)

    def known(self):
        p = os.path.join(VERIF, 'known_findings.txt')
        r = []
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.prop):
                    rest = l.split(' ', 2)[2]
                    key, _, desc = rest.partition(' ')
                    r.append((key[len('key='):], desc))
        return r

    def save_replay(self, name, text):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_%s' % (self.prop, name))
        with open(p, 'w') as f:
            f.write(text)
        return p

    def fail(self, key, desc, replay_text):
        self.failures.append((key, desc, replay_text))

    def finish(self):
        known = dict(self.known())
        seen_known, viol = {}, []
        for key, desc, rep in self.failures:
            if key in known:
                seen_known[key] = known[key]
            else:
                viol.append((key, desc, rep))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration',
            'coverage': dict({
                'evaluations': self.evals,
                'distinct_nontrivial': self.distinct,
                'rule': self.rule, 'samples': self.samples}, **self.extra),
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s: %s' %
                  (self.prop, k, seen_known[k]))
        for key, desc, rep in viol[:int(os.environ.get('VP_MAXV', '10'))]:
            h = hashlib.sha1((key + rep).encode()).hexdigest()[:10]
            p = self.save_replay(h + '.replay', rep)
            print('violation: %s: %s' % (key, desc))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        self.log('evaluations=%d distinct_nontrivial=%d violations=%d' %
                 (self.evals, self.distinct, len(viol)))
        self.close()
        return 1 if viol else 0


def supervised(ctx, cmd, out, label, env=None, timeout=None):
    """Runs a driver that writes the JSON file `out`. A driver that twice dies
    or does not end is a finding about the operator it was exercising.
    Returns (out, status, log) as expected by elem.collect."""
    timeout = timeout or (300 if ctx.quick else 20000)
    cur = out + '.cur'
    e = dict(os.environ)
    if env:
        e.update(env)
    e['VP_CUR'] = cur
    why = where = ''
    for attempt in range(2):
        # once a driver has died the verdict is known: only look a bit more
        if ctx.died and ctx.quick:
            timeout = min(timeout, 60)
            if time.time() - ctx.t0 > 480:
                with open(out, 'w') as f:
                    json.dump({'evaluations': 0, 'distinct': 0, 'samples': [],
                               'failures': []}, f)
                return out, 0, ''
        for f in (out, cur):
            if os.path.exists(f):
                os.remove(f)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=e,
                               timeout=timeout)
            log = r.stdout.decode(errors='replace')
            try:
                json.load(open(out))
                return out, r.returncode, log
            except Exception:
                pass
            if r.returncode == 2:   # usage or set-up error: ours
                return out, 2, log
            why = 'the process died (status %d)' % r.returncode
        except subprocess.TimeoutExpired:
            why = 'the process did not end in %d s' % timeout
        try:
            where = open(cur, 'rb').read().split(b'\0')[0].decode()
        except Exception:
            where = ''
        if 'did not end' in why:
            break
    ctx.died = True
    with open(out, 'w') as f:
        json.dump({'evaluations': 0, 'distinct': 0, 'samples': [],
                   'failures': [{
                       'key': 'died:%s:%s' % (label, where),
                       'desc': why + ' while exercising ' + (where or label),
                       'replay': 'rerun %s\n# seed %d: %s at %s\n' %
                       (label, ctx.seed, why, where)}]}, f)
    return out, 1, ''


def run_parallel(tasks, jobs=JOBS):
    """tasks: list of callables; returns the list of results."""
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda f: f(), tasks))
