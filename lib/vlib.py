"""Shared machinery of the checks: building /repo, running monitored
executions, known findings, evidence, verdicts."""
import json, os, sys, time, subprocess, hashlib, re, shutil, random, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
HARN = os.path.join(VERIF, 'harness')
DATA = os.path.join(VERIF, 'data')


class HarnessError(Exception):
    pass


def die(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- scratch dir
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='dhverif.', dir='/tmp')
        os.chmod(_scratch, 0o755)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


# ---------------------------------------------------------------- building
def _sources(am, var, base):
    txt = open(os.path.join(REPO, am)).read()
    txt = re.sub(r'\\\n', ' ', txt)
    m = re.search(r'^' + var + r'\s*=\s*(.*)$', txt, re.M)
    if not m:
        raise HarnessError('no %s in %s' % (var, am))
    out = []
    for w in m.group(1).split():
        if w.endswith('.c'):
            p = os.path.join(REPO, base, w)
            if os.path.exists(p):
                out.append(p)
    return out


def lib_sources():
    return _sources('libdieharder/Makefile.am', 'libdieharder_la_SOURCES', 'libdieharder')


def cli_sources():
    return _sources('dieharder/Makefile.am', 'dieharder_SOURCES', 'dieharder')


FLAV = {
    'plain': ('gcc', ['-O2', '-g']),
    'asan': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                     '-fno-sanitize-recover=undefined']),
    'o0': ('gcc', ['-O0', '-g', '-ftrivial-auto-var-init=pattern']),
}
LDLIBS = ['-lgsl', '-lgslcblas', '-lm']


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _cc_all(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda c: (c, _run(c)), jobs))
    for c, r in res:
        if r.returncode:
            raise HarnessError('compile failed: %s\n%s' % (' '.join(c), r.stdout[-3000:]))


class Build:
    """Objects of /repo's current working tree in one sanitizer flavour."""

    def __init__(self, flavour='plain'):
        self.cc, self.flags = FLAV[flavour]
        self.flavour = flavour
        self.dir = os.path.join(scratch(), 'b_' + flavour)
        os.makedirs(self.dir, exist_ok=True)
        inc = ['-I', os.path.join(REPO, 'include')]
        self.inc = inc
        jobs, lib, cli = [], [], []
        for s in lib_sources():
            o = os.path.join(self.dir, 'l_' + os.path.basename(s)[:-2] + '.o')
            jobs.append([self.cc, '-std=c99', '-w', '-DVERSION=3.31.1', '-DLITTLE_ENDIAN=1', '-Dmain=unused_main_' + re.sub(r'\W', '_', os.path.basename(s))] + inc + self.flags + ['-c', s, '-o', o])
            lib.append(o)
        for s in cli_sources():
            o = os.path.join(self.dir, 'c_' + os.path.basename(s)[:-2] + '.o')
            jobs.append([self.cc, '-w', '-DVERSION=3.31.1'] + inc + ['-I', os.path.dirname(s)] + self.flags + ['-c', s, '-o', o])
            cli.append(o)
            if os.path.basename(s) == 'dieharder.c':
                o2 = os.path.join(self.dir, 'nomain.o')
                jobs.append([self.cc, '-w', '-DVERSION=3.31.1', '-Dmain=dieharder_main'] + inc + ['-I', os.path.dirname(s)] + self.flags + ['-c', s, '-o', o2])
                self.mainobj, self.nomain = o, o2
        _cc_all(jobs)
        self.lib, self.cli = lib, cli
        self.exe = os.path.join(self.dir, 'dieharder')
        r = _run([self.cc] + self.flags + ['-o', self.exe] + cli + lib + LDLIBS)
        if r.returncode:
            raise HarnessError('link failed: ' + r.stdout[-3000:])

    def harness(self, *a, **k):
        try:
            return self._harness(*a, **k)
        except HarnessError as e:
            die(str(e))

    def _harness(self, name, csrc=(), cxxsrc=(), extra=(), link=()):
        """Link harness sources with the library and the CLI's objects (minus main)."""
        objs, jobs = [], []
        for s in csrc:
            o = os.path.join(self.dir, 'h_%s_%s.o' % (name, os.path.basename(s)))
            jobs.append([self.cc, '-std=gnu99', '-w'] + list(extra) + self.inc + ['-I', HARN, '-I', os.path.join(REPO, 'libdieharder')] + self.flags + ['-c', os.path.join(HARN, s), '-o', o])
            objs.append(o)
        for s in cxxsrc:
            o = os.path.join(self.dir, 'h_%s_%s.o' % (name, os.path.basename(s)))
            fl = [f for f in self.flags if 'sanitize' not in f] if self.flavour != 'asan' else self.flags
            jobs.append(['g++', '-O2', '-w', '-I', HARN] + [f for f in fl if f not in ('-O0', '-O1')] + ['-c', os.path.join(HARN, s), '-o', o])
            objs.append(o)
        _cc_all(jobs)
        exe = os.path.join(self.dir, name)
        r = _run(['g++'] + self.flags + list(link) + ['-o', exe] + objs + [o for o in self.cli if o != self.mainobj] + [self.nomain] + self.lib + LDLIBS)
        if r.returncode:
            raise HarnessError('link failed: ' + r.stdout[-3000:])
        return exe


_builds = {}


def build(flavour='plain'):
    if flavour not in _builds:
        try:
            _builds[flavour] = Build(flavour)
        except HarnessError as e:
            die(str(e))
    return _builds[flavour]


ASAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
}


# ---------------------------------------------------------------- running
class R:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'sig', 'cmd')


def run(cmd, timeout=120, env=None, stdin=None, cwd=None, binary=False, retry_timeout=True):
    e = dict(os.environ)
    e.pop('MALLOC_PERTURB_', None)
    e.update(ASAN_ENV)
    if env:
        e.update(env)
    r = R()
    r.cmd = cmd
    r.timeout = False
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout * (1 + 2 * attempt),
                               env=e, input=stdin, cwd=cwd, stdin=None if stdin is not None else subprocess.DEVNULL)
            r.timeout = False
            r.rc = p.returncode
            r.sig = -p.returncode if p.returncode < 0 else 0
            r.out = p.stdout if binary else p.stdout.decode('latin-1')
            r.err = p.stderr.decode('latin-1')
            return r
        except subprocess.TimeoutExpired as ex:
            r.timeout = True
            r.rc, r.sig, r.out, r.err = None, 0, (b'' if binary else ''), (ex.stderr or b'').decode('latin-1')
            if not retry_timeout:
                break
    return r


def pmap(fn, items, workers=None):
    items = list(items)
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- verdicts
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


class Check:
    def __init__(self, pid, level='exploration', rule='', assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.viol = []       # (key, text, replay dict)
        self.known = {}
        self.inconclusive = []
        self.rng = random.Random('%s/%d/%s' % (pid, SEED, TIER))
        self.kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def seen(self, case):
        """Record one evaluated, non-trivial, distinct case."""
        self.distinct.add(hashlib.sha1(repr(case).encode()).hexdigest())
        if len(self.samples) < 12 or (len(self.samples) < 40 and len(self.distinct) % 97 == 0):
            self.samples.append(case if isinstance(case, (dict, list, str)) else repr(case))

    def violation(self, key, text, replay=None):
        """key identifies the failing call site / input class; matched against known findings."""
        for k in self.kf:
            if re.fullmatch(k['match'], key):
                self.known.setdefault(k['id'], (k, []))[1].append(key)
                return
        self.viol.append((key, text, replay or {}))

    def finish(self, min_evals=1, min_distinct=1):
        wall = time.time() - self.t0
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples[:40]}
        for k, v in self.extra.items():
            cov[k] = v
        if self.inconclusive:
            cov['inconclusive'] = len(self.inconclusive)
            cov['inconclusive_samples'] = self.inconclusive[:5]
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.viol)}
        if self.known:
            cov['known_findings_observed'] = sorted(self.known)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for i, (k, _) in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.viol:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for n, (key, text, replay) in enumerate(self.viol):
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 10:
                    break
                p = os.path.join(rd, '%s_%d.json' % (self.pid, n))
                json.dump({'property': self.pid, 'key': key, 'what': text, 'replay': replay, 'seed': SEED, 'tier': TIER},
                          open(p, 'w'), indent=1, default=str)
                print('  %s: %s' % (key, text[:600]))
                print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)
            sys.exit(1)
        if self.evals < min_evals or len(self.distinct) < min_distinct:
            die('%s observed too little: %d evaluations, %d distinct (need %d/%d)' %
                (self.pid, self.evals, len(self.distinct), min_evals, min_distinct))
        print('%s ok: %d evaluations, %d distinct non-trivial, %.1fs' % (self.pid, self.evals, len(self.distinct), wall))
        sys.exit(0)


def evmain(flavour='plain'):
    """The real program with the event recorder linked in (see harness/evmain.c)."""
    return build(flavour).harness('evmain', ['evmain.c'], link=['-Wl,--wrap=dieharder_test_types', '-Wl,--wrap=dieharder_rng_types'])


_tmpn = [0]


def tmpname(ext=''):
    import threading
    _tmpn[0] += 1
    return os.path.join(scratch(), 'f%d_%d%s' % (_tmpn[0], threading.get_ident(), ext))


def run_ev(exe, args, pvals=None, tape=None, env=None, timeout=120, stdin=None, fast=False):
    """Run the recorded program; returns (R, events)."""
    e = dict(env or {})
    lg = tmpname('.log')
    e['VP_LOG'] = lg
    if tape:
        e['VP_TAPE'] = ' '.join(map(str, tape))
    if fast:
        e['VP_FAST'] = '1'
    pfn = None
    if pvals is not None:
        pfn = tmpname('.p')
        with open(pfn, 'w') as f:
            f.write('\n'.join('%.17g' % p for p in pvals) + '\n')
        e['VP_PFILE'] = pfn
    r = run([exe] + [str(a) for a in args], timeout=timeout, env=e, stdin=stdin)
    ev = []
    if os.path.exists(lg):
        with open(lg) as f:
            ev = [json.loads(l) for l in f if l.strip()]
        os.unlink(lg)
    if pfn:
        os.unlink(pfn)
    return r, ev
