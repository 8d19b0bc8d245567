"""C22: log output against the formatted text and against what a caller's logger received."""
from core import *
import backend
import subprocess

LV = ['debug', 'warning', 'error']


def direct(chk, d):
    b = Build(os.path.join(d, 'b_logger'))
    src = [s for s in b.core_sources() if 'Logger' in os.path.basename(s[0])]
    try:
        exe = b.link('logger', b.compile(src + [(VERIF + '/harness/logger.c', [], ASAN_ONLY)]))
    except HarnessError:
        exe = b.link('logger', b.compile(b.core_sources() + b.shim_sources() + [(VERIF + '/harness/logger.c', [], ASAN_ONLY)]))
    r = chk.rng
    lines = []
    lens = list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 100000]
    abc = 'abcdefghijklmnopqrstuvwxyz %%s%d%n%\\ÄÖ漢😀<>"\'{}'
    for f in range(16):
        for lv in range(3):
            for n in lens if f in (1, 2) or THOROUGH else r.sample(lens, 6):
                s = ''.join(r.choice(abc) for _ in range(n))
                lines.append((lv, f, s, r.choice([0, 1, -1, 42, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1, r.getrandbits(40)])))
    for _ in range(20000 if THOROUGH else 1500):
        lines.append((r.randrange(3), r.randrange(16), ''.join(r.choice(abc) for _ in range(r.choice([0, 3, 20, 80, 300]))), r.getrandbits(31)))
    r.shuffle(lines)
    inp = '\n'.join('%d\t%d\t%s\t%d' % l for l in lines) + '\n'
    try:
        p = subprocess.run([exe, d + '/expected'], input=inp.encode(), capture_output=True, env=run_env(), timeout=120)
    except subprocess.TimeoutExpired:
        chk.violation('hang', 'the built-in logger does not return', {'script': inp[-2000:]})
        return
    if p.returncode:
        err = p.stderr.decode('utf-8', 'replace')
        k, fn = sanitizer_summary(err)
        chk.violation('crash:%s:%s' % (k, fn), err[-2500:], {'script': inp[-2000:]})
        return
    exp = [l.split('\t', 1) for l in open(d + '/expected', encoding='utf-8', errors='surrogateescape', newline='\n').read().split('\n')[:-1]]
    got = p.stdout.decode('utf-8', 'surrogateescape').split('\n')
    tail = got.pop()
    chk.saw(len(exp))
    chk.count('direct_messages', len(exp))
    if tail or len(got) != len(exp):
        chk.violation('lines', '%d messages, %d lines printed; unterminated %r' % (len(exp), len(got), tail[:80]), {'script': inp[:3000]})
    for (lv, text), g, l in zip(exp, got, lines):
        chk.nontriv(lv + text)
        if text not in g:
            chk.violation('text:%d' % l[1], 'format %d: expected text %r, line %r' % (l[1], text[:200], g[:300]), {'line': l})
            break
        head = g[:g.rindex(text)] if text else g
        named = [x for x in LV if x in head.lower()]
        if named != [LV[int(lv)]]:
            chk.violation('level', 'level %s: line %r' % (LV[int(lv)], g[:200]), {'line': l})
            break
    chk.sample(got[0][:200] if got else '')


def library(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    r = chk.rng
    good = Gen(random.Random('c22')).world(nnodes=5)
    gdoc = render(good.files[0])
    gp = run.file(gdoc)
    scen = []
    base = ns_script(good)

    def add(ops, tag):
        scen.append((ops, tag))
    for p in [d + '/missing.xml', d, '', d + '/' + 'x' * 200 + '.xml', d + '/' + '/'.join(['%s%s%n%d'] * 30), d + '/' + '/'.join(['y' * 100] * 35), d + '/100%.xml', d + '/%s%s%s%s.xml']:
        add(['imp\t0\t%s\t0' % p], 'unreadable')
        add(['imp\t0\t%s\t0' % gp, 'imp\t0\t%s\t0' % p, 'sort\t0'], 'unreadable')
    add(['inv\t0\t0\t%s' % gp], 'arguments')
    add(['inv\t0\t1\t%s' % gp], 'arguments')
    for k in range(200 if THOROUGH else 40):
        rr = random.Random('c22/%d/%d' % (SEED, k))
        doc = render(Gen(rr).world(nnodes=4).files[0])
        add(['imp\t0\t%s\t0' % run.file(doc[:rr.randrange(len(doc))]), 'sort\t0'], 'truncated')
        add(['imp\t0\t%s\t0' % run.file(doc), 'sort\t0'], 'wellformed')
        # unknown reference types with long and odd ids
        n = rr.randint(1, 4)
        idt = lambda: rr.choice(['ns=1;i=%d' % rr.randint(1, 10 ** 6), 'ns=1;s=' + ''.join(rr.choice('ab%sdn漢') for _ in range(rr.choice([1, 10, 100, 300, 600]))),
                                 'ns=1;g=01234567-89ab-cdef-0123-456789abcdef'])
        refs = ''.join('<Reference ReferenceType="%s">i=85</Reference>' % idt() for _ in range(n))
        nodes = ''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:x"><DisplayName>x</DisplayName><References>%s</References></UAObject>' % (i, refs if rr.random() < .8 else '') for i in range(rr.randint(1, 3)))
        x = '<?xml version="1.0"?><UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:x</Uri></NamespaceUris>%s</UANodeSet>'
        add(['imp\t0\t%s\t0' % run.file((x % nodes).encode()), 'sort\t0'], 'unknown')
        m = rr.randint(2, 6)
        cyc = ''.join('<UAObject NodeId="ns=1;s=%s%d" BrowseName="1:x"><DisplayName>x</DisplayName><References><Reference ReferenceType="i=47">ns=1;s=%s%d</Reference></References></UAObject>' %
                      ('%n%s' * k, i, '%n%s' * k, (i + 1) % m) for i in range(m))
        add(['imp\t0\t%s\t0' % run.file((x % cyc).encode()), 'sort\t0'], 'cycle')
    cases = []
    for ops, tag in scen:
        for lg in (1 + len(cases) // 2 % 2, 0):
            cases.append(Case(good, base + ['new\t0\t%d\t0' % lg] + ops + ['dump\t0', 'del\t0'], [gdoc], tag))
    imports = []
    for ops, tag in scen:
        for o in ops:
            f = o.split('\t')
            if f[0] == 'imp' and f[2]:
                imports.append((f[2], b'', tag))
    backend.c22(chk, d, imports, run)
    res = run_cases(run, cases)
    for (c1, x1), (c0, x0) in zip(res[::2], res[1::2]):
        chk.saw(2)
        if report_crash(chk, x1, c1.replay(), c1.tag) or report_crash(chk, x0, c0.replay(), c0.tag):
            continue
        logs = [e for e in x1.events if e['e'] == 'log']
        chk.count('library_messages', len(logs))
        chk.count('scenarios_' + c1.tag)
        chk.nontriv(repr(c1.lines))
        if x1.out:
            chk.violation('printed', 'printed on standard output although the caller supplied a logger: %r' % x1.out[:300], c1.replay())
        for e in logs:
            if not e['ctx']:
                chk.violation('context', 'message without the logger\'s context: %s' % e, c1.replay())
        lines = x0.out.split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        elif lines:
            chk.violation('unterminated', lines[-1][:200], c0.replay())
        if [e for e in x0.events if e['e'] == 'log']:
            chk.violation('foreign-logger', 'caller\'s logger used without being given', c0.replay())
        if any('\n' in e['m'] for e in logs):
            continue
        if len(lines) != len(logs):
            chk.violation('lost', '%d messages to a caller\'s logger, %d lines by the built-in one: %s / %s' % (len(logs), len(lines), logs[:3], lines[:3]), c0.replay())
            continue
        for e, g in zip(logs, lines):
            if e['m'] not in g or LV[e['lv']] not in g[:len(g) - len(e['m'])].lower():
                chk.violation('differs', 'message %r, line %r' % (e, g[:300]), c0.replay())
                break


def run(chk, d):
    chk.rule = ('direct calls of the built-in logger: every level, sixteen formats (conversions of all kinds, positional and width arguments, no arguments, percent signs), texts of up to '
                '100000 bytes; library messages of failing and succeeding imports and sorts: the same history once with a caller\'s logger and once with the built-in one, and through the backend with the server\'s logger. '
                'Non-trivial: distinct messages and histories')
    direct(chk, d)
    library(chk, d)
