"""C13: text arena, shadow-memory monitor over generated request sequences."""
import subprocess, itertools, os
from common import *


def gen_case(r, kind):
    ops = []
    na = r.choice([1, 1, 1, 2, 3])
    inits = []
    for a in range(na):
        i = r.choice([0, 1, 2, 3, 7, 8, 16, 63, 64, 100, 100, 255, 1000, 1024, 4096, 5000, 65536])
        inits.append(i)
        ops.append('N %d %d' % (a, i))
    n = r.randint(1, 60) if kind != 'long' else r.randint(200, 600)
    left = [i for i in inits]
    for _ in range(n):
        a = r.randrange(na)
        i = inits[a]
        c = r.random()
        if c < 0.03:
            ops.append('D %d' % a)
            ops.append('N %d %d' % (a, i))
            continue
        # sizes around the interesting limits: what is left, the initial size, its half and double
        base = r.choice([0, 1, 2, 3, 8, r.randint(0, 40), r.randint(0, 300), max(0, left[a]), max(0, left[a] - 1), left[a] + 1,
                         i, i + 1, max(0, i - 1), i // 2, i * 2, i * 2 + 1, i * 3 + 5])
        if base > 300000 or (kind == 'long' and base > 3000):
            base = r.randint(0, 200)
        op = 'M' if r.random() < (0.5 if kind != 'grow' else 0.15) else 'R'
        ops.append('%s %d %d' % (op, a, base))
        left[a] -= base
        if left[a] < 0:
            left[a] = max(0, i - base)
    ops.append('X')
    return ops


def exhaustive(depth, init, sizes):
    for seq in itertools.product([(o, s) for o in 'MR' for s in sizes], repeat=depth):
        if seq[0][0] == 'R':
            continue
        yield ['N 0 %d' % init] + ['%s 0 %d' % (o, s) for o, s in seq] + ['X']


def cases(r, thorough):
    out = []
    for init, sizes in ((4, (0, 1, 2, 4, 5, 9)), (3, (1, 2, 3, 4, 7))):
        for d in (1, 2, 3) + ((4,) if thorough else ()):
            out += list(exhaustive(d, init, sizes))
    n = 25000 if thorough else 1500
    for k in range(n):
        out.append(gen_case(r, r.choice(['mix', 'mix', 'grow', 'long'] if k % 10 == 0 else ['mix', 'grow'])))
    # the loader's own pattern: many small texts, each grown piece by piece
    for _ in range(40 if thorough else 6):
        init = r.choice([1024, 4096, 1024 * 1024])
        ops = ['N 0 %d' % init]
        for _ in range(1500):
            ops.append('M 0 %d' % (r.randint(0, 60)))
            for _ in range(r.choice([0, 0, 1, 3])):
                ops.append('R 0 %d' % r.randint(0, 200))
        ops.append('X')
        out.append(ops)
    return out


def build(d, chk=None):
    b = Build(d)
    srcs = [(REPO + '/src/CharAllocator.c', [], None), (VERIF + '/harness/arena.c', [], ASAN_ONLY)]
    try:
        return b.link('arena', b.compile(srcs))
    except HarnessError:
        # the allocator may use other parts of the library
        return b.link('arena', b.compile(b.core_sources() + b.shim_sources() + [srcs[1]]))


def drive(exe, cs, args=()):
    inp = '\n'.join('\n'.join(c) for c in cs) + '\n'
    p = subprocess.run([exe] + list(args), input=inp, capture_output=True, text=True, env=run_env(), timeout=100)
    return p


def run_all(chk, exe, cs, args=()):
    """Runs the cases in batches; a failing batch is narrowed to the failing case."""
    B = 200
    batches = [cs[i:i + B] for i in range(0, len(cs), B)]
    def one(b):
        try:
            return b, drive(exe, b, args)
        except subprocess.TimeoutExpired:
            return b, None
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, batches))
    for b, p in res:
        if p is not None and p.returncode == 0 and 'done cases=%d ' % len(b) in p.stdout:
            m = re.search(r'compares=(\d+) inplace=(\d+) moved=(\d+)', p.stdout)
            for name, v in zip(('blocks_compared', 'extended_in_place', 'extended_by_moving'), m.groups()):
                chk.count(name, int(v))
            yield b, p
            continue
        bad = re.search(r'^BAD (\d+) (\d+) (\S+) (-?\d+) (-?\d+)', p.stdout, re.M) if p else None
        if bad:
            c = b[int(bad.group(1))]
            chk.violation('arena:' + bad.group(3), '%s at operation %s: %s' % (bad.group(3), bad.group(2), ' ; '.join(c[:int(bad.group(2))][-12:])), c)
            continue
        # crash or hang: narrow down
        for c in b:
            try:
                q = subprocess.run([exe] + list(args), input='\n'.join(c) + '\n', capture_output=True, text=True, env=run_env(), timeout=20)
            except subprocess.TimeoutExpired:
                chk.violation('arena:hang', 'no end: ' + ' ; '.join(c[:40]), c)
                return
            if q.returncode != 0:
                k, fn = sanitizer_summary(q.stderr)
                bad = re.search(r'^BAD.*', q.stdout, re.M)
                chk.violation('arena:%s:%s' % (k or ('rc%d' % q.returncode), fn), (bad.group(0) if bad else q.stderr[-1500:]), c)
                break
        else:
            chk.violation('arena:batch', 'batch failed, single cases do not: rc=%s %s' % (p and p.returncode, (p.stderr if p else 'timeout')[-1000:]), b)


def run(chk, d):
    exe = build(d)
    cs = cases(chk.rng, THOROUGH)
    chk.rule = ('all sequences of up to %d requests over 6 boundary sizes (two initial sizes) plus random sequences on 1-3 '
                'interleaved arenas with sizes around the initial size, its multiples and the remaining room; non-trivial: '
                'distinct sequences with at least two requests' % (4 if THOROUGH else 3))
    for c in cs:
        chk.saw()
        if len(c) > 3:
            chk.nontriv('\n'.join(c))
    chk.count('operations', sum(len(c) for c in cs))
    chk.sample(' ; '.join(cs[-20][:20]))
    chk.sample(' ; '.join(cs[700]))
    for b, p in run_all(chk, exe, cs):
        pass
    chk.assumptions = ['blocks are written only by the driver, within the sizes asked for', 'memory is available']
