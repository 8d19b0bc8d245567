"""C21: independent loaders in parallel threads under ThreadSanitizer; results against a sequential run."""
from core import *
import backend, typed
import subprocess

TSAN_ENV = {'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4:second_deadlock_stack=1:suppress_equal_stacks=1'}


ADR = re.compile(r'"adr":"[^"]*",')


def events(out, n):
    """list of n event lists, in order of case number"""
    res = {}
    cur, buf = None, []
    for l in out.split('\n'):
        if l.startswith('BEGIN '):
            cur, buf = int(l[6:]), []
        elif l.startswith('STATUS ') and cur is not None:
            res[cur] = buf
            cur = None
        elif cur is not None and l:
            buf.append(ADR.sub('', l))
    return [res.get(i) for i in range(n)]


def unknown_type(r):
    """A file the sort of which fails with a message naming the node."""
    i = r.choice(['i=%d' % r.randint(1, 10**9), 's=' + r.choice('abcdef') * r.choice([5, 300, 3000])])
    return ('<UANodeSet><NamespaceUris><Uri>urn:u</Uri></NamespaceUris><UAObject NodeId="ns=1;%s" BrowseName="1:x"><DisplayName>x</DisplayName>'
            '<References><Reference ReferenceType="ns=1;i=987654">i=85</Reference></References></UAObject></UANodeSet>' % i).encode()


def printed(out):
    """lines printed by the library itself (the built-in logger)"""
    c, inside = Counter(), False
    for l in out.split('\n'):
        if l.startswith('BEGIN '):
            inside = True
        elif l.startswith('STATUS '):
            inside = False
        elif l and not inside:
            c[l] += 1
    return c


def run(chk, d):
    chk.rule = ('groups of 2..12 threads started together at a barrier, each running its own history (imports of valid, malformed and missing files, files the sort of which fails; own and built-in logger; sort, iterate, links, delete, several loaders '
                'one after the other) on its own loaders, repeatedly, in a fresh process; further groups load files into servers of their own through the backend; ThreadSanitizer build and AddressSanitizer build; per-thread traces compared with the '
                'same histories run one after the other. Non-trivial: distinct histories')
    chk.assumptions = ['libxml2 is not instrumented: races inside of it show up as crashes or differing results only']
    tsan = build(d, san=TSAN_FLAGS, name='nltsan')
    asan = build(d)
    rn = Runner(asan, d)
    groups = []
    for k in range(60 if THOROUGH else 24):
        r = random.Random('c21/%s/%d' % (SEED, k))
        nt = r.choice([2, 4, 8, 12])
        same = r.random() < 0.3
        hist = []
        for t in range(nt):
            rr = random.Random('c21/%s/%d/%d' % (SEED, k, 0 if same else t))
            lines = []
            for rep in range(rr.randint(1, 3)):
                g = Gen(rr)
                w = g.world(nfiles=rr.choice([1, 1, 2]), nnodes=rr.choice([1, 5, 20, 60]), exts=rr.random() < .3)
                docs = [render(f, Style(rr) if rr.random() < .6 else None) for f in w.files]
                if rr.random() < .25:
                    docs[-1] = docs[-1][:rr.randrange(len(docs[-1]))]
                lines += ['nsclear'] + ns_script(w) + ref_script(w) + ['new\t0\t%d\t%d' % (rr.random() < .7, w.kinds is not None)]
                if rr.random() < .3:
                    docs.append(unknown_type(rr))
                for x in docs:
                    lines.append('imp\t0\t%s\t%d' % (rn.file(x), rr.random() < .3))
                if rr.random() < .1:
                    lines.append('imp\t0\t%s/none\t0' % d)
                lines += ['bidi\t0', 'sort\t0', 'dump\t0'] + (['del\t0'] if rep or rr.random() < .8 else [])
                if 'del\t0' != lines[-1]:
                    lines.append('del\t0')
            hist.append(lines)
            chk.nontriv(repr([k, t, lines]))
        groups.append((tsan, asan, hist))
    btsan = backend.build(d, san=TSAN_FLAGS, name='nlbtsan')
    basan = backend.build(d)
    for k in range(40 if THOROUGH else 14):
        r = random.Random('c21b/%s/%d' % (SEED, k))
        nt = r.choice([2, 4, 8])
        same = r.random() < 0.3
        hist = []
        for t in range(nt):
            rr = random.Random('c21b/%s/%d/%d' % (SEED, k, 0 if same else t))
            lines = []
            for rep in range(rr.randint(1, 2)):
                m = rr.choice([0, 1, 2])
                if m == 0:
                    w = backend.BGen(rr).world(nfiles=rr.choice([1, 2]), nnodes=rr.choice([5, 30]))
                elif m == 1:
                    w = typed.typed_world(rr, backend, nfiles=rr.choice([1, 2]), ntypes=rr.choice([2, 6]), nvars=rr.choice([4, 12]))
                else:
                    w = backend.chain_world(rr, rr.choice([3, 20]))
                docs = [render(f, Style(rr) if rr.random() < .3 else None) for f in w.files]
                if rr.random() < .2:
                    docs[-1] = docs[-1][:rr.randrange(len(docs[-1]))]
                lines.append('srv\t0\t%d' % (rr.random() < .8))
                for x in docs:
                    lines += ['load\t0\t%s\t%d' % (rn.file(x), rr.random() < .3)]
                lines += ['dump\t0', 'clean\t0']
            hist.append(lines)
            chk.nontriv(repr(['b', k, t, lines]))
        groups.append((btsan, basan, hist))

    def text(hist):
        return '\n'.join(sum([['CASE %d' % i] + h + ['END'] for i, h in enumerate(hist)], [])) + '\n'

    def go(exe, mode, reps, hist, timeout=150):
        return subprocess.run([exe, mode, str(reps)], input=text(hist).encode(), capture_output=True, env=run_env(TSAN_ENV), timeout=timeout)

    reps = 12 if THOROUGH else 4
    endless = []

    def one(group):
        tsan, asan, hist = group
        n = len(hist)
        if endless:
            return n, []
        try:
            p = go(asan, 'sequential', 1, hist, 60)
        except subprocess.TimeoutExpired:
            # not for this property to judge
            endless.append(1)
            chk.inconclusive.append('a history does not end even when run alone')
            return n, []
        ref = events(p.stdout.decode('utf-8', 'surrogateescape'), n)
        said = Counter({l: k * reps for l, k in printed(p.stdout.decode('utf-8', 'surrogateescape')).items()})
        out = []
        if p.returncode or None in ref:
            return n, [('seq', p, None)]
        for exe, nm in ((tsan, 'tsan'), (asan, 'asan')):
            try:
                q = go(exe, 'threads', reps, hist)
            except subprocess.TimeoutExpired:
                endless.append(1)
                return n, out + [('hang', None, None)]
            t = q.stdout.decode('utf-8', 'surrogateescape')
            out.append((nm, q, [[ref[i] for i in range(n)] * reps, events(t, n * reps), said, printed(t)]))
        return n, out
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, groups))
    for (exe, _, hist), (n, out) in zip(groups, rs):
        rep = {'histories': hist}
        for nm, q, tr in out:
            chk.saw(n)
            if nm == 'hang':
                chk.violation('hang', 'histories that end when run one after the other do not end in parallel', rep)
                continue
            err = q.stderr.decode('utf-8', 'replace')
            m = re.search(r'WARNING: ThreadSanitizer: ([\w ]+)', err)
            if nm == 'seq':
                k, fn = sanitizer_summary(err)
                chk.violation('sequential:%s:%s' % (k, fn), err[-2000:], rep)
                continue
            chk.count('thread_runs_%s%s' % (nm, '_backend' if exe is btsan else ''), n * reps)
            if m:
                _, fn = sanitizer_summary(err)
                chk.violation('race:%s:%s' % (m.group(1).strip(), fn), err[:3000], rep)
            elif q.returncode:
                k, fn = sanitizer_summary(err)
                chk.violation('crash:%s:%s' % (k or q.returncode, fn), err[-2500:], rep)
            else:
                a, b, said, says = tr
                chk.count('lines_of_the_built_in_logger', sum(says.values()))
                if said != says:
                    chk.violation('printed', 'the built-in logger prints alone, but not in parallel: %s; in parallel only: %s' % ([l[:200] for l in (said - says)][:2], [l[:200] for l in (says - said)][:2]), rep)
                for i, (x, y) in enumerate(zip(a, b)):
                    chk.count('events_compared', len(x))
                    if x != y:
                        df = next(((p, s) for p, s in zip(x, y or []) if p != s), (len(x), len(y or [])))
                        chk.violation('result', 'alone %s, in parallel %s' % df, rep)
                        break
    chk.sample('\n'.join(groups[0][2][0][:12]))
