"""C12: import results and error messages against the construction of the file."""
from core import *
import threading, time, xmlgen


def at(w, doc, p, write=True):
    if write:
        with open(p, 'wb') as f:
            f.write(doc)
    return Case(w, ns_script(w) + ['new\t0\t1\t0', 'imp\t0\t%s\t0' % p, 'sort\t0', 'dump\t0', 'del\t0'], [doc], 'path-good')


def feed(p, data):
    # a writer for every reader that comes; unwritten data of readers that leave early is dropped
    while True:
        with open(p, 'wb', buffering=0) as f:
            try:
                for i in range(0, len(data), 700):
                    f.write(data[i:i + 700])
            except BrokenPipeError:
                pass
        time.sleep(.3)


def encodings(w):
    u = w.files[0].uris[0] if w.files[0].uris else ''
    t = Node(DATATYPE, (u, 'i', 770001))
    e = Node(OBJECT, (u, 'i', 770002))
    t.bn, e.bn = (u, 'T'), ('', 'Default Binary')
    e.refs.append([I(38), t.id, False])
    return [t, e]


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('well-formed nodesets (success, no error message) and files that are not well-formed by construction: truncated at every byte (small files) or random bytes, '
                'unbalanced and mismatched tags, illegal characters and encodings, undefined entities, duplicate attributes, trailing content; empty and blank files, directories, '
                'missing files, unreadable paths; invalid arguments before and between correct imports. Non-trivial: distinct failing files')
    chk.assumptions = ['malformed files are those expat rejects as well']
    r = chk.rng
    bad = []

    def failing(data, tag):
        # a failing import, and afterwards the loader still works
        if xmlgen.expat_trace(data, ns=False) is not None:
            chk.count('skipped_as_wellformed')
            return
        bad.append((data, tag))
    bases = []
    for k in range(60 if THOROUGH else 8):
        g = Gen(random.Random('c12/%s/%d' % (SEED, k)))
        w = g.world(nnodes=r.choice([0, 1, 2, 4, 12]), exts=True)
        doc = render(w.files[0], Style(g.r) if k % 2 else None)
        bases.append(doc)
    small = sorted(bases, key=len)
    for doc in small[:len(small) if THOROUGH else 3]:
        end = len(doc.rstrip())
        m = re.search(rb'(<!--[^<]*-->\s*|<\?pi[^?]*\?>\s*)*$', doc[:end])
        end = len(doc[:m.start()].rstrip()) if m else end
        step = 1 if THOROUGH or len(doc) < 2500 else 7
        for i in range(0, end, step):
            failing(doc[:i], 'truncated')
    for doc in bases:
        for _ in range(400 if THOROUGH else 45):
            try:
                failing(xmlgen.malform(r, doc.decode()), 'malformed')
            except UnicodeDecodeError:
                pass
            b = bytearray(doc)
            i = r.randrange(len(b))
            b[i] = r.choice([0, 1, 0xff, 0x3c, 0x26, 0xc3, 0x80])
            failing(bytes(b), 'byte')
            i = r.randrange(len(doc))
            j = min(len(doc), i + r.randint(1, 40))
            failing(doc[:i] + doc[j:], 'cut')
    for data in (b'', b' ', b'\n\n', b'<', b'<a', b'<a>', b'hello', b'\xff\xfe', b'\x00' * 5, b'<?xml version="1.0"?>', b'<?xml version="1.0" encoding="utf-8"?>\n<!-- c -->\n',
                 b'<UANodeSet', b'<UANodeSet>', b'<UANodeSet></UANodeset>', b'</UANodeSet>', b'<UANodeSet/><UANodeSet/>', b'{"a":1}', b'PK\x03\x04', b'<a>' * 100, b'<a></a', b'<a/>x', b'<a/>' + b' ' * 3000 + b'<'):
        failing(data, 'tiny')
    good = Gen(random.Random('good')).world(nnodes=6)
    gdoc = render(good.files[0])
    gp = run.file(gdoc)
    cases = []
    for data, tag in bad:
        p = run.file(data)
        lines = ns_script(good) + ['new\t0\t1\t0', 'imp\t0\t%s\t%d' % (p, r.random() < 0.3)]
        if r.random() < 0.3:
            lines += ['new\t1\t1\t0', 'imp\t1\t%s\t0' % gp, 'sort\t1', 'dump\t1']
        lines += r.choice([['del\t0'], ['sort\t0', 'dump\t0', 'del\t0'], []])
        c = Case(good, lines, [data], tag)
        c.exp = [False] + ([True] if 'new\t1\t1\t0' in lines else [])
        cases.append(c)
    sub = os.path.join(d, 'adir')
    os.makedirs(sub)
    missing = [d + '/does-not-exist.xml', sub, sub + '/', '', '/', gp + '/x', d + '/' + 'n' * 300, '/proc/self/mem', d + '/dangling']
    os.symlink(d + '/nowhere', d + '/dangling')
    rich = Gen(random.Random('rich')).world(nfiles=1, nnodes=40, exts=True)
    rich.files[0].nodes += encodings(rich)
    rdoc = render(rich.files[0])
    rp = run.file(rdoc)
    for k, p in enumerate(missing + [run.file(b'<UANodeSet><UAObject'), run.file(b'')]):
        # failing imports into a loader that has everything already
        for ops in ([], ['sort\t0'], ['sort\t0', 'dump\t0', 'bidi\t0']):
            lines = ns_script(rich) + ['new\t0\t1\t0', 'imp\t0\t%s\t0' % rp] + ops + ['imp\t0\t%s\t0' % p, 'sort\t0', 'dump\t0', 'del\t0']
            c = Case(rich, lines, [p.encode(), repr(ops).encode()], 'path-rich')
            c.exp = [True, False]
            cases.append(c)
    for p in missing:
        for pre in (0, 1):
            lines = ns_script(good) + ['new\t0\t1\t0'] + (['imp\t0\t%s\t0' % gp] if pre else []) + ['imp\t0\t%s\t0' % p, 'sort\t0', 'dump\t0', 'del\t0']
            c = Case(good, lines, [p.encode()], 'path')
            c.exp = ([True] if pre else []) + [False]
            c.full = pre
            cases.append(c)
    for seq in (['0'], ['1'], ['0', 'g'], ['1', 'g'], ['g', '0'], ['g', '1'], ['0', '1', '0', 'g', '1', '0']):
        lines = ns_script(good) + ['new\t0\t1\t0']
        for s in seq:
            lines.append('imp\t0\t%s\t0' % gp if s == 'g' else 'inv\t0\t%s\t%s' % (s, gp))
        lines += ['sort\t0', 'dump\t0', 'del\t0']
        c = Case(good, lines, [gdoc], 'arguments')
        c.exp = [s == 'g' for s in seq]
        c.full = 'g' in seq
        cases.append(c)
    ok = []
    for k in range(1500 if THOROUGH else 160):
        rr = random.Random('ok%d/%d' % (k, SEED))
        w = Gen(rr).world(nfiles=rr.choice([1, 1, 2, 3]), nnodes=rr.choice([0, 1, 10, 40]), exts=rr.random() < 0.3)
        c = world_case(run, w, Style(rr) if rr.random() < 0.7 else None, ext=rr.random() < 0.3, tag='wellformed')
        ok.append(c)
    # readable files wherever they are
    home = os.path.join(d, 'paths')
    deep, n = home, 0
    while len(deep) < 3500:
        n += 1
        deep = os.path.join(deep, 'd' * r.choice([1, 20, 120, 250]))
        os.makedirs(deep, exist_ok=True)
        if len(deep) < 120 or n % 3 == 0:
            ok.append(at(good, gdoc, os.path.join(deep, 'f.xml')))
    os.makedirs(home + '/u', exist_ok=True)
    for nm in ('x', 'x.XML', 'x.txt', '.xml', 'a b.xml', 'ü€𝄞.xml', 'a%s%n.xml', 'a&b<c>.xml', "a'\"b.xml", 'http:a.xml', 'n' * 250 + '.xml', '-', '~', '*.xml', 'a\\b.xml', 'x.xml.gz', 'file:', '#1.xml', '?a=b'):
        ok.append(at(good, gdoc, home + '/u/' + nm))
    rel = os.path.relpath(gp)
    for p in (rel, './' + rel, os.path.dirname(gp) + '//.//' + os.path.basename(gp), home + '/../' + os.path.basename(gp), '/proc/self/root' + gp, 'link'):
        if p == 'link':
            p = home + '/link.xml'
            os.symlink(gp, p)
        ok.append(at(good, gdoc, p, write=False))
    ro = home + '/readonly.xml'
    ok.append(at(good, gdoc, ro))
    os.chmod(ro, 0o444)
    for k in range(4):
        p = '%s/pipe%d' % (home, k)
        os.mkfifo(p)
        big = Gen(random.Random('pipe%d' % k)).world(nnodes=(3, 60, 300, 1000)[k])
        data = render(big.files[0])
        threading.Thread(target=feed, args=(p, data), daemon=True).start()
        c = at(big, data, p, write=False)
        c.tag = 'pipe'
        ok.append(c)
    for doc in (b'<UANodeSet/>', b'<?xml version="1.0"?><UANodeSet></UANodeSet>', b'<!-- a --><UANodeSet xmlns="u"><!-- b --></UANodeSet><!-- c -->\n', b'<other/>'):
        ok.append(Case(World(), ['new\t0\t1\t0', 'imp\t0\t%s\t0' % run.file(doc), 'sort\t0', 'dump\t0', 'del\t0'], [doc], 'small'))
    for c, x in run_cases(run, cases):
        chk.saw()
        if report_crash(chk, x, c.replay(), c.tag):
            continue
        o = Observed(x)
        chk.count('failing_' + c.tag)
        chk.nontriv(b''.join(c.docs) + c.tag.encode() + repr(c.exp).encode())
        if o.imports != c.exp:
            chk.violation('result:' + c.tag, 'import results %s, expected %s for %r' % (o.imports, c.exp, c.docs[0][-200:]), c.replay())
            continue
        # an error message inside every failing import and in no succeeding one
        k, errs, ns = -1, 0, 0
        inimp = False
        for e in x.events:
            if e['e'] == 'impbegin':
                inimp, errs, ns = True, 0, 0
            elif e['e'] == 'log' and e['lv'] == 2:
                errs += inimp
            elif e['e'] == 'ns':
                ns += 1
            elif e['e'] == 'imp':
                k += 1
                inimp = False
                if not e['r'] and not errs:
                    chk.violation('silent:' + c.tag, 'failing import logged no error: %r' % c.docs[0][-200:], c.replay())
                if e['r'] and errs:
                    chk.violation('error-on-success:' + c.tag, str(o.errors[:2]), c.replay())
                if c.tag == 'arguments' and not e['r'] and ns:
                    chk.violation('side-effect', 'namespace callback called for an invalid argument', c.replay())
        if getattr(c, 'full', None) is not None:
            n = len(o.nodes)
            want = (sum(1 for _ in good.nodes()) if c.full else 0)
            if n != want:
                chk.violation('side-effect-nodes', 'delivered %d nodes, expected %d' % (n, want), c.replay())
    # entities the file declares: their text arrives completely, or the import fails and says so; external ones never arrive
    secret = d + '/secret.txt'
    with open(secret, 'w') as f:
        f.write('secret')
    ents = []
    for k in range(60 if THOROUGH else 20):
        w = Gen(random.Random('entity%s/%d' % (SEED, k))).world(nnodes=5)
        n = next(w.nodes())
        n.dn = (None, 'QENTITYQ')
        for sub, t, exp in (('<!ENTITY x "abc">', 'u&x;v', 'uabcv'), ('<!ENTITY y "ab"><!ENTITY x "&y;c&y;">', '&x;', 'abcab'), ('<!ENTITY x "">', '1&x;2', '12'), ('<!ENTITY x SYSTEM "%s">' % secret, 'u&x;v', None),
                            ('<!ENTITY x SYSTEM "file://%s">' % secret, '&x;', None), ('<!ENTITY % p "<!ENTITY x \'abc\'>"> %p;', 'u&x;v', 'uabcv'), ('<!ENTITY x "abc">', '&amp;x;', '&x;')):
            text = render(w.files[0]).replace(b'QENTITYQ', t.encode()).replace(b'<UANodeSet', b'<!DOCTYPE UANodeSet [' + sub.encode() + b']><UANodeSet', 1)
            c = Case(w, ns_script(w) + ['new\t0\t1\t0', 'imp\t0\t%s\t0' % run.file(text), 'sort\t0', 'dump\t0', 'del\t0'], [text], 'entity')
            c.exp, c.node = exp, n
            ents.append(c)
    for c, x in run_cases(run, ents):
        chk.saw()
        if report_crash(chk, x, c.replay(), c.tag):
            continue
        chk.count('declared_entities')
        o = Observed(x)
        if o.imports == [False]:
            if not o.errors:
                chk.violation('silent:entity', 'failing import logged no error', c.replay())
            continue
        dns = [(e['dn'] or [None] * 2)[1] for e in o.by_id.get(c.world.gid(c.node.id), [])]
        if o.imports != [True] or dns != [c.exp]:
            chk.violation('entity', 'import %s delivered %s, expected %r or a failure' % (o.imports, dns, c.exp), c.replay())
    for c, x in run_cases(run, ok):
        chk.saw()
        chk.count('wellformed')
        o = loaded(chk, c, x, c.tag)
        if o is not None:
            no_errors(chk, c, o)
    chk.sample(repr(bad[3][0][-200:]))
