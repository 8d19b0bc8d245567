"""Runs script cases through a forked-case driver (harness/common.h) in parallel."""
import subprocess, json, os, threading
from common import *


class Result:
    __slots__ = ('kind', 'value', 'events', 'out', 'err', 'raw')

    def __init__(self):
        self.kind = None      # 'exit' | 'signal' | 'lost'
        self.value = None
        self.events = []
        self.out = ''
        self.err = ''

    @property
    def ok(self):
        return self.kind == 'exit' and self.value == 0

    @property
    def cpu(self):
        return self.kind == 'signal' and self.value in (24, 9)

    def ev(self, *kinds):
        return [e for e in self.events if e.get('e') in kinds]


def _parse_lines(lines):
    ev = []
    for l in lines:
        if not l:
            continue
        try:
            ev.append(json.loads(l))
        except ValueError:
            ev.append({'e': 'garbled', 'raw': l[:200]})
    return ev


class Runner:
    n = 0  # of all runners: they may share a directory
    lock = threading.Lock()

    def __init__(self, exe, scratch, leak=False, cpu=6, extra_env=None, wrapper=()):
        self.exe = exe
        self.dir = scratch
        self.leak = leak
        self.cpu = cpu
        self.env = run_env(extra_env)
        self.wrapper = list(wrapper)

    def file(self, data, ext='.xml'):
        """Stores bytes as a file for the cases."""
        with self.lock:
            Runner.n += 1
            p = os.path.join(self.dir, 'f%d%s' % (Runner.n, ext))
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def _batch(self, cases, base, cpu, timeout):
        errdir = os.path.join(self.dir, 'err%d' % base)
        os.makedirs(errdir, exist_ok=True)
        inp = []
        for i, c in enumerate(cases):
            inp.append('CASE %d' % i)
            inp += c
            inp.append('END')
        p = subprocess.Popen(self.wrapper + [self.exe, errdir, str(cpu), '1' if self.leak else '0'], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env)
        try:
            o, e = p.communicate(('\n'.join(inp) + '\n').encode('utf-8', 'surrogateescape'), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        res = [None] * len(cases)
        cur, lines = None, []
        for l in o.decode('utf-8', 'surrogateescape').split('\n'):
            if l.startswith('BEGIN '):
                cur, lines = int(l[6:]), []
            elif l.startswith('STATUS ') and cur is not None:
                f = l.split()
                r = Result()
                r.kind, r.value = f[2], int(f[3])
                r.events = _parse_lines(lines)
                for a, suf in (('out', '.out'), ('err', '.err')):
                    fn = os.path.join(errdir, '%d%s' % (cur, suf))
                    if os.path.exists(fn):
                        with open(fn, 'rb') as fh:
                            setattr(r, a, fh.read(300000).decode('utf-8', 'surrogateescape'))
                res[cur] = r
                cur = None
            elif cur is not None:
                lines.append(l)
        for i in range(len(cases)):
            if res[i] is None:
                r = Result()
                r.kind, r.value = 'lost', p.returncode
                r.err = e.decode('utf-8', 'replace')[-2000:]
                res[i] = r
        shutil.rmtree(errdir, ignore_errors=True)
        return res

    def run(self, cases, batch=None, timeout=900):
        """cases: list of lists of script lines. Returns a list of Results."""
        if not cases:
            return []
        if batch is None:
            batch = max(1, min(40, (len(cases) + NCPU * 2 - 1) // (NCPU * 2)))
        jobs = [(i, cases[i:i + batch]) for i in range(0, len(cases), batch)]
        out = [None] * len(cases)

        endless = [0]

        def one(j):
            if endless[0] >= 6:
                rs = []
                for _ in j[1]:
                    r = Result()
                    r.kind = 'skipped'
                    rs.append(r)
                return j[0], rs
            with self.lock:
                Runner.n += 1
                b = Runner.n
            rs = self._batch(j[1], b, self.cpu, timeout)
            endless[0] += sum(1 for r in rs if r.cpu)
            return j[0], rs
        with ThreadPoolExecutor(NCPU) as ex:
            for i, rs in ex.map(one, jobs):
                out[i:i + len(rs)] = rs
        # CPU limit or lost: once more, alone, with a larger limit (a few of them: each is a verdict of its own)
        again = [i for i, r in enumerate(out) if r.cpu or r.kind == 'lost']
        for i in again[3:]:
            out[i].kind = 'skipped'

        def redo(i):
            with self.lock:
                Runner.n += 1
                b = Runner.n
            out[i] = self._batch([cases[i]], b, self.cpu * 4, timeout)[0]
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(redo, again[:3]))
        return out


def crash_key(r):
    """Stable key of an abnormal end, or None."""
    if r.ok:
        return None
    if r.cpu:
        return 'hang'
    if r.kind in ('lost', 'skipped'):
        return 'lost'
    k, fn = sanitizer_summary(r.err)
    return 'crash:%s:%s' % (k or '%s%s' % (r.kind, r.value), fn)


def report_crash(chk, r, replay, what=''):
    """Records an abnormal end as a violation; True when there was one."""
    k = crash_key(r)
    if k is None:
        return False
    if r.kind == 'skipped':
        chk.count('cases_skipped_after_endless_ones')
        return True
    if k == 'lost':
        chk.inconclusive.append('case lost: ' + r.err[-300:])
        return True
    chk.violation(k, (what + ' ' + r.err[-2500:]).strip(), replay)
    return True
