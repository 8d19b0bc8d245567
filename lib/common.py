"""Shared machinery of the checks: build from /repo's working tree, run, report."""
import json, os, subprocess, sys, tempfile, shutil, time, hashlib, random, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = int(os.environ.get('VERIF_NCPU') or os.cpu_count() or 4)

SAN_FLAGS = ['-fsanitize=address,undefined',
             '-fno-sanitize=pointer-overflow,nonnull-attribute,function,vptr',
             '-fno-sanitize-recover=undefined']
ASAN_ONLY = ['-fsanitize=address']
TSAN_FLAGS = ['-fsanitize=thread']
# detect_stack_use_after_return: clang 18 default on Linux. Leaks are judged by live counts.
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190:'
                    'strict_string_checks=0:handle_abort=1:handle_segv=1:print_summary=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
}


class HarnessError(Exception):
    pass


class Scratch:
    """A scratch directory the check creates and removes."""
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='nlverif-')

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def xml2_cflags():
    p = subprocess.run(['xml2-config', '--cflags'], capture_output=True, text=True)
    return p.stdout.split() if p.returncode == 0 else ['-I/usr/include/libxml2']


def find_c(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return out


class Build:
    """Compiles groups of sources in parallel and links them."""
    def __init__(self, dir_, san=None, opt='-O1', cc='clang', extra=()):
        self.dir = dir_
        self.san = SAN_FLAGS if san is None else san
        self.cc = cc
        self.base = (['-ftrivial-auto-var-init=pattern'] if cc == 'clang' and self.san else []) + ['-w', '-g1' if not THOROUGH else '-g', opt, '-fno-omit-frame-pointer',
                     '-UNDEBUG', '-Wno-implicit-function-declaration', '-Wno-int-conversion',
                     '-Wno-incompatible-function-pointer-types', '-Wno-implicit-int', '-DUSE_CLEANUP_CUSTOM_DATATYPES=1',
                     '-I' + VERIF + '/shim', '-I' + REPO + '/include', '-I' + REPO + '/src',
                     '-I' + REPO + '/backends/open62541/include',
                     '-I' + REPO + '/backends/open62541/src'] + xml2_cflags() + list(extra)
        os.makedirs(dir_, exist_ok=True)

    def compile(self, jobs):
        """jobs: list of (source, extra flags, sanitizer flags or None). Returns objects."""
        def one(j):
            src, extra, san = j
            obj = os.path.join(self.dir, hashlib.md5((src + repr(extra)).encode()).hexdigest()[:8] + '_' +
                               os.path.basename(src)[:-2] + '.o')
            cmd = [self.cc] + self.base + (self.san if san is None else san) + list(extra) + ['-c', src, '-o', obj]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode != 0:
                raise HarnessError('compile failed: %s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
            return obj
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(one, jobs))

    def link(self, name, objs, extra=()):
        out = os.path.join(self.dir, name)
        cmd = [self.cc] + self.san + list(objs) + ['-o', out, '-lxml2', '-lm', '-lpthread'] + list(extra)
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise HarnessError('link failed: %s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
        return out

    def core_sources(self):
        return [(s, [], None) for s in find_c(REPO + '/src')]

    def backend_sources(self):
        return [(s, [], None) for s in find_c(REPO + '/backends/open62541/src')]

    def shim_sources(self, server=False):
        san = ASAN_ONLY if any('address' in s for s in self.san) else self.san
        l = [(VERIF + '/shim/ua_types.c', [], san)]
        if server:
            l.append((VERIF + '/shim/ua_server.c', [], san))
        return l


def run_env(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e['LC_ALL'] = 'C.UTF-8'
    e.pop('NODESET_PATH', None)
    if extra:
        e.update(extra)
    return e


def sanitizer_summary(text):
    """A stable key for a sanitizer report / abort found in stderr text."""
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([\w\-]+)(.*)', text)
    kind = None
    if m:
        kind = m.group(2)
        if kind in ('undefined-behavior',):
            r = re.search(r'runtime error: (.*)', text)
            kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', r.group(1))[:70] if r else kind
    a = re.search(r'Assertion `(.*?)\' failed', text)
    if a:
        kind = 'assert:' + a.group(1)[:60]
    if kind is None:
        r = re.search(r'runtime error: (.*)', text)
        if r:
            kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', r.group(1))[:70]
    fn = None
    for line in text.splitlines():
        m = re.match(r'\s*#\d+ 0x[0-9a-f]+ in (\S+) .*?(/\S+?):\d+', line)
        if m and REPO in m.group(2):
            fn = m.group(1)
            break
    return kind, fn


class Check:
    """Collects observations and violations of one property and ends the run."""
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random('%s/%s/%s' % (prop, SEED, TIER))
        self.evaluations = 0
        self.nontrivial = set()
        self.rule = ''
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = {}     # key -> (detail, replay)
        self.known = self.load_known()
        self.known_hits = {}
        self.inconclusive = []

    def load_known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.rstrip('\n')
                if line.startswith('known: property=%s ' % self.prop):
                    rest = line[len('known: property=%s ' % self.prop):]
                    m = re.match(r'key=(\S+) (.*)', rest)
                    if m:
                        out.append((m.group(1), m.group(2)))
        return out

    def saw(self, n=1):
        self.evaluations += n

    def nontriv(self, key):
        if not isinstance(key, (bytes, str)):
            key = json.dumps(key, sort_keys=True, default=str)
        if isinstance(key, str):
            key = key.encode('utf-8', 'replace')
        self.nontrivial.add(hashlib.md5(key).hexdigest())

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, key, detail, replay=None):
        """key identifies the failing input / call site; replay is dict/bytes saved for reproduction."""
        for k, what in self.known:
            if k == key:
                self.known_hits[k] = what
                return
        if key not in self.violations:
            self.violations[key] = (detail, replay)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial),
               'rule': self.rule, 'samples': self.samples[:5] or ['(none)']}
        cov.update(self.extra)
        if self.inconclusive:
            cov['inconclusive'] = len(self.inconclusive)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        for k, what in self.known_hits.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for m in self.inconclusive[:5]:
            print('inconclusive: ' + m)
        print('%s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs' %
              (self.prop, self.evaluations, len(self.nontrivial), len(self.violations), time.time() - self.t0))
        if self.violations:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            for n, (key, (detail, replay)) in enumerate(sorted(self.violations.items())[:20]):
                path = os.path.join(rd, '%s_%d.json' % (self.prop, n))
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'key': key,
                               'detail': detail, 'replay': replay}, f, indent=1, default=repr)
                print('  %s: %s' % (key, str(detail)[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        if self.evaluations == 0 or len(self.nontrivial) < 2:
            print('ERROR: the workload observed nothing')
            sys.exit(3)
        sys.stdout.flush()
        sys.exit(0)
