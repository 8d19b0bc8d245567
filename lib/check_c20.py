"""C20: standard output and exit status of the demo against the model that generated its files."""
from core import *
import subprocess
import mutate, base64


def build_demo(d, name, extra=()):
    b = Build(os.path.join(d, 'b_' + name), extra=extra)
    ex = REPO + '/backends/stdout/examples/'
    return b.link(name, b.compile(b.core_sources() + b.shim_sources() + [(ex + 'main.c', [], None), (ex + 'dump.c', [], None)]))


def printed(i):
    """The textual form of an id of the model's notation."""
    ns, v = i.split(';', 1)
    if v.startswith('b='):
        v = 'b=' + base64.b64encode(bytes.fromhex(v[2:])).decode()
    return (('ns=%s;' % ns) if ns != '0' else '') + v


def ids_of(w):
    s = set()
    for n in w.nodes():
        s.add(n.id)
        for rt, tg, fw in n.refs:
            s.update((rt, tg))
        for x in (n.parent, n.datatype):
            if x is not None:
                s.add(x)
    return s


def txt(v):
    return {'', '(null)'} if v is None else {v}


def same_id(got, want):
    """'' when equal, 'cut' for the known truncation, None when different"""
    if got == want:
        return ''
    w = want.encode()
    if len(w) > 255 and got.encode('utf-8', 'surrogateescape') == w[:255]:
        return 'cut'
    return None


def judge(chk, w, out, rep):
    blocks = re.split(r'^NodeId: ', out, flags=re.M)
    tail = blocks.pop(0)
    if tail.strip():
        chk.violation('foreign-output', tail[:300], rep)
    exp = {w.gid(n.id): n for n in w.nodes()}
    seen = Counter()
    for b in blocks:
        head, sep, rest = b.partition(' BrowseName: ')
        cand = None
        for g in exp:
            # ids may themselves contain the label
            for p in (printed(g), printed(g).encode()[:255].decode('utf-8', 'surrogateescape')):
                if b.startswith(p + ' BrowseName: ') and (cand is None or len(p) > len(cand[1])):
                    cand = (g, p)
        if cand is None:
            chk.violation('entry', 'entry of no declared node: ' + b[:200], rep)
            continue
        g, p = cand
        seen[g] += 1
        n = exp[g]
        if same_id(p, printed(g)) == 'cut':
            chk.violation('id-truncated', 'node id of %d bytes is cut to 255' % len(printed(g).encode()), rep)
        rest = b[len(p) + len(' BrowseName: '):]
        e = exp_node(w, n)
        hit = None
        for bn in txt(e['bn']):
            for dn in txt(e['dn'][1]):
                h = '%s DisplayName: %s\n' % (bn, dn)
                if rest.startswith(h) and (hit is None or len(h) > len(hit)):
                    hit = h
        if hit is None:
            chk.violation('names', 'node %s with browse name %r, display name %r: %r' % (g, e['bn'], e['dn'][1], rest[:300]), rep)
            continue
        chk.count('entries_compared')
        lines = rest[len(hit):].split('\n')
        refs, attrs = [], {}
        for l in lines:
            m = re.match(r'\treftype: (.*) target: (.*)$', l)
            if m:
                refs.append(m.groups())
            elif l.startswith('\t') and ': ' in l:
                k, v = l[1:].split(': ', 1)
                attrs[k] = v
            elif l and not l.startswith('maxValue Rank'):
                chk.violation('line', 'unexpected line %r in the entry of %s' % (l, g), rep)
        want = {}
        if n.cls == OBJECT:
            want = {'parentNodeId': e['parent'], 'eventNotifier': e['EventNotifier']}
        elif n.cls == VARIABLE:
            want = {'parentNodeId': e['parent'], 'datatype': e['DataType'], 'valueRank': e['ValueRank'], 'arrayDimensions': e['ArrayDimensions'], 'minimumSamplingInterval': e['MinimumSamplingInterval']}
        for k, v in want.items():
            chk.count('attributes_compared')
            if k not in attrs:
                chk.violation('attr-missing:' + k, 'entry of %s: %s' % (g, attrs), rep)
            elif k in ('parentNodeId', 'datatype'):
                q = same_id(attrs[k], printed(v))
                if q is None:
                    chk.violation('attr:' + k, '%s: printed %s, declared %s' % (g, attrs[k], printed(v)), rep)
                elif q:
                    chk.violation('id-truncated', 'id is cut to 255 bytes', rep)
            elif attrs[k] not in txt(v):
                if k == 'arrayDimensions' and attrs[k] in txt(e['ValueRank']):
                    chk.violation('arrayDimensions-shows-valueRank', '%s: printed %r, declared %r' % (g, attrs[k], v), rep)
                else:
                    chk.violation('attr:' + k, '%s: printed %r, declared %r' % (g, attrs[k], v), rep)
        h, nh, td = exp_refs(w, n)
        decl = [(printed(x[0]), printed(x[1])) for x in h + nh]
        left = list(refs)
        cut = lambda s: s.encode()[:255].decode('utf-8', 'surrogateescape')
        for x in decl:
            chk.count('references_compared')
            if x in left:
                left.remove(x)
            elif (cut(x[0]), cut(x[1])) in left:
                left.remove((cut(x[0]), cut(x[1])))
                chk.violation('id-truncated', 'reference id is cut to 255 bytes', rep)
            else:
                chk.violation('reference', '%s: %s is not printed: %s' % (g, x, refs[:6]), rep)
        acc = exp_parent_link(w, n)
        if acc:
            ok = {(cut(printed(x[0])), cut(printed(x[1]))) for x in acc}
            for x in left:
                if (cut(x[0]), cut(x[1])) in ok:
                    left.remove(x)
                    break
        if left:
            chk.violation('reference-extra', '%s: %s' % (g, left[:3]), rep)
    for g in exp:
        if seen[g] != 1:
            chk.violation('entries', 'node %s has %d entries' % (g, seen[g]), rep)


def run(chk, d):
    chk.rule = ('the demo program run on sets of generated nodeset files with all attributes, absent texts and long ids, and on sets with missing, malformed and truncated files; '
                'its output is parsed into entries and compared with the declared nodes. Non-trivial: distinct sets of files')
    chk.assumptions = ['references to type definitions are not part of the entries', 'nothing or "(null)" stands for an absent text']
    exe = build_demo(d, 'demo', ['-ftrivial-auto-var-init=zero'])
    pat = build_demo(d, 'demopat', ['-ftrivial-auto-var-init=pattern'])
    jobs = []
    for k in range(1500 if THOROUGH else 250):
        r = random.Random('c20/%s/%d' % (SEED, k))
        g = Gen(r)
        w = g.world(nfiles=r.choice([1, 1, 2, 3]), nnodes=r.choice([1, 4, 15, 40]), nns=r.choice([1, 1, 2, 3]))
        if r.random() < .1:
            # a long id
            n = r.choice(list(w.nodes()))
            old = n.id
            new = (old[0] or list(w.idx)[2], 's', 'L' * r.choice([200, 240, 244, 245, 246, 250, 300, 1000]))
            if new not in ids_of(w) and old not in w.hier:
                for m in w.nodes():
                    for x in m.refs:
                        x[:2] = [new if y == old else y for y in x[:2]]
                    if m.parent == old:
                        m.parent = new
                    if m.datatype == old:
                        m.datatype = new
                n.id = new
                for f in w.files:
                    f.aliases = {}
        for u in w.idx:
            if u:
                w.idx[u] = 1
        s = ids_of(w)
        if len({w.gid(i) for i in s}) != len(s) or any('\n' in str(i[2]) for i in s):
            continue
        docs = [render(f, Style(r, std_index=0) if r.random() < .4 else None) for f in w.files]
        jobs.append((w, docs, True))
        if r.random() < .35:
            bad = list(docs)
            c = r.random()
            j = r.randrange(len(bad))
            if c < .4:
                bad[j] = bad[j][:r.randrange(len(bad[j].rstrip()) - 12)]
            elif c < .7:
                bad[j] = None
            else:
                bad.insert(r.randrange(len(bad) + 1), b'')
            jobs.append((None, bad, False))

    endless = []

    def go(exe, docs, k):
        if len(endless) >= 4:
            return False
        ps = []
        for j, x in enumerate(docs):
            p = '%s/d%d_%d.xml' % (d, k, j)
            if x is not None:
                with open(p, 'wb') as f:
                    f.write(x)
            ps.append(p)
        try:
            q = subprocess.run([exe] + ps, capture_output=True, env=run_env(), timeout=30)
        except subprocess.TimeoutExpired:
            endless.append(k)
            return None
        finally:
            for p in ps:
                if os.path.exists(p):
                    os.unlink(p)
        return q
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda t: go(exe, t[1][1], t[0]), enumerate(jobs)))
    for (w, docs, ok), q in zip(jobs, res):
        chk.saw()
        rep = {'files': [x and x.decode('utf-8', 'replace') for x in docs]}
        if q is False:
            continue
        chk.nontriv(repr(docs))
        if q is None:
            chk.violation('hang', 'no end', rep)
            continue
        err = q.stderr.decode('utf-8', 'replace')
        if q.returncode not in (0, 1) or 'Sanitizer' in err or 'runtime error' in err:
            k, fn = sanitizer_summary(err)
            chk.violation('crash:%s:%s' % (k, fn), err[-2000:], rep)
            continue
        chk.count('runs_ok' if ok else 'runs_failing')
        if (q.returncode == 0) != ok:
            chk.violation('exit-status', 'exit status %d, all files importable: %s' % (q.returncode, ok), rep)
            continue
        if ok:
            judge(chk, w, q.stdout.decode('utf-8', 'surrogateescape'), rep)
    # uninitialised fields of the file context
    x = (b'<?xml version="1.0"?><UANodeSet xmlns="' + mutate.NS.encode() + b'"><UAObject NodeId="i=5" BrowseName="b"><DisplayName>x</DisplayName><Extensions><Extension><a/></Extension></Extensions></UAObject></UANodeSet>')
    for e, zero in ((exe, True), (pat, False)):
        q = go(e, [x], 10 ** 6)
        chk.saw()
        if q is False:
            continue
        if q is None or q.returncode:
            k, fn = sanitizer_summary(q.stderr.decode('utf-8', 'replace')) if q else ('hang', '')
            chk.violation('extension-crash' if zero else 'extension-handler-uninitialised', '%s %s' % (k, fn), {'files': [x.decode()]})
    q = subprocess.run(['timeout', '20', exe], capture_output=True, env=run_env())
    chk.saw()
    if q.returncode == 0:
        chk.violation('no-arguments', 'exit status 0 without a file', {})
    chk.sample(repr(jobs[0][1][0][:300]))
