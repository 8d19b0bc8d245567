"""C23: event delivery of the parser against expat's parse of the document in one piece."""
import struct, subprocess
from common import *
import xmlgen

MODES = {0: 'memory', 1: 'short reads', 2: 'pipe', 3: 'read error', 4: 'file', 5: 'stream not at its start'}


def build(d):
    b = Build(d)
    srcs = [(REPO + '/src/Parser.c', [], None), (VERIF + '/harness/parser.c', [], ASAN_ONLY)]
    try:
        return b.link('parser', b.compile(srcs))
    except HarnessError:
        # the parser may use other parts of the library
        return b.link('parser', b.compile(b.core_sources() + b.shim_sources() + [srcs[1]]))


def parse_out(txt):
    docs = []
    cur = []
    for line in txt.split('\n'):
        if line.startswith('R '):
            docs.append((cur, [int(x) for x in line[2:].split()]))
            cur = []
        elif line:
            cur.append(line)
    return docs, cur


def drive(exe, docs, args=(), timeout=100):
    inp = b''.join(struct.pack('<IBI', len(d), m, p) + d for d, m, p in docs)
    p = subprocess.run([exe] + list(args), input=inp, capture_output=True, env=run_env(), timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def run_docs(chk, exe, docs, args=()):
    """Yields (doc, events, [ret, ctxOk, textCallbacks, live]) for every document; crashes become violations."""
    B = 150
    batches = [docs[i:i + B] for i in range(0, len(docs), B)]

    def one(b):
        try:
            return drive(exe, b, args)
        except subprocess.TimeoutExpired:
            return None
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, batches))
    for b, rr in zip(batches, res):
        if rr is not None:
            rc, o, e = rr
            outs, rest = parse_out(o)
            for d, x in zip(b, outs):
                yield d, x[0], x[1]
            if rc == 0 and len(outs) == len(b):
                continue
            bad = b[len(outs)] if len(outs) < len(b) else None
            k, fn = sanitizer_summary(e)
            chk.violation('parser:%s:%s' % (k or 'rc%d' % rc, fn), e[-1500:], {'doc': bad[0].hex() if bad else None, 'mode': bad and bad[1:]})
        else:
            for d in b:
                try:
                    rc, o, e = drive(exe, [d], args, 20)
                except subprocess.TimeoutExpired:
                    chk.violation('parser:hang', 'no end', {'doc': d[0].hex(), 'mode': d[1:]})
                    return


def pad(doc, n):
    """Insert comment padding of n characters behind the prolog."""
    i = doc.index('?>') + 2 if doc.startswith('<?xml') else 0
    return doc[:i] + '<!--' + 'p' * n + '-->' + doc[i:]


TOKENS = ['<r a="1"><b/>t</r>', '<r>€€€€</r>', '<r>\U0001F600\U0001F600</r>', '<r>a&amp;b&#x20AC;c</r>', '<r><![CDATA[x]]y]]></r>',
          '<r><p:el xmlns:p="urn:x" p:a="v&quot;w"/></r>', '<r>one\r\ntwo</r>', '<r><!-- c --><?pi d?>z</r>', "<r q='&lt;&#38;&amp;amp;'></r>",
          '<root><UAObject NodeId="ns=1;i=1"/></root>\n']


def run(chk, d):
    exe = build(d)
    r = chk.rng
    docs = []
    n = 12000 if THOROUGH else 1200
    for k in range(n):
        s = xmlgen.document(r, r.choice([5, 20, 60, 200, 600 if k % 20 == 0 else 40]))
        if r.random() < 0.5:
            s = pad(s, r.randint(0, 2100))
        if k % 60 == 0:
            # long documents and texts
            j = s.rfind('</')
            if j > 0:
                s = s[:j] + r.choice(['y', 'ü', '&amp;', '<e/>', 'z ']) * r.randint(2000, 60000) + s[j:]
        enc = 'utf-8'
        b = s.encode('utf-8')
        if 'encoding' not in s and r.random() < 0.05:
            b = b'\xef\xbb\xbf' + b
        docs.append((b, r.choice([0, 0, 0, 1, 1, 2, 4]), r.randint(1, 10 ** 6)))
    # other encodings
    for k in range(n // 10):
        s = xmlgen.document(r, 40)
        if s.startswith('<?xml'):
            s = s[s.index('?>') + 2:].lstrip()
        s = pad(s, r.randint(0, 3000))
        docs.append((s.encode('utf-16'), r.choice([0, 1, 4]), 1))
        try:
            docs.append((('<?xml version="1.0" encoding="ISO-8859-1"?>' + s).encode('latin1'), r.choice([0, 1, 4]), 1))
        except UnicodeError:
            pass
    # every alignment of characteristic tokens with the two read boundaries
    for tok in TOKENS:
        for off in range(0, len(tok.encode()) + 2):
            for bd in (4, 4 + 1024, 4 + 2048):
                padn = bd - off - 7
                s = pad(tok, padn) if padn >= 0 else tok
                if padn < 0 and bd != 4:
                    continue
                docs.append((s.encode(), 0, 0))
    # every total size around multiples of the chunk size
    for base in (0, 1024, 2048, 4096):
        for dlt in range(-14, 15):
            total = base + 4 + dlt
            if total < 8:
                continue
            s = '<r>' + 'x' * (total - 7) + '</r>'
            docs.append((s.encode(), r.choice([0, 4]), 0))
    for i in range(20):
        docs.append((('<r>' + '<e>' * i + 't' + '</e>' * i + '</r>').encode() + b'\n' * r.randint(0, 2000), 0, 0))
    for i in range(10):
        docs.append((b'JUNKJUNKJUNK'[:i] + b'<r><a b="c">d</a></r>', 5, i))
    bad = []
    for k in range(n // 2):
        s = xmlgen.document(r, r.choice([3, 10, 40]))
        if r.random() < 0.5:
            s = pad(s, r.randint(0, 1200))
        bad.append((xmlgen.malform(r, s), r.choice([0, 0, 1, 2, 4]), r.randint(1, 99999)))
    # truncations of one document at every byte, also past the chunk boundaries
    base = '<?xml version="1.0"?><r xmlns="urn:d"><a x="&amp;1">t<![CDATA[u]]></a><!--c--><b/></r>'
    for s in (base, pad(base, 950), pad(base, 1990)):
        b = s.encode()
        for i in range(0 if s is base else len(b) - 75, len(b)):
            bad.append((b[:i], 0, 0))
    # read errors inside the document
    for k in range(150):
        s = pad(xmlgen.document(r, 30), r.randint(0, 3000)).encode()
        e = len(s.rstrip())
        m = re.search(rb'(<!--[^<]*-->\s*)*$', s[:e])
        e = len(s[:m.start()].rstrip())
        cut = r.randint(0, e - 1)
        bad.append((s, 3, cut))
    chk.rule = ('random documents (namespaces, prefixed attributes, entities, CDATA, comments, processing instructions, multi-byte '
                'text) read from files, pipes, short reads and failing streams; tokens placed at every offset of the 4/1028/2052 byte '
                'read boundaries; malformed documents by construction. Non-trivial: distinct documents whose reference trace has at '
                'least 3 events, and distinct malformed documents')
    chk.assumptions = ['no document type declarations', 'libxml2 limits: depth below 256, text below 10 MB', 'expat is the reference']
    skipped = 0
    for doc, ev, (ret, ctxok, tcb, live) in run_docs(chk, exe, docs):
        ref = xmlgen.expat_trace(doc[0][doc[2]:] if doc[1] == 5 else doc[0])
        if ref is None:
            skipped += 1
            continue
        chk.saw()
        if len(ref) >= 3:
            chk.nontriv(doc[0])
        chk.count('events_compared', len(ref))
        chk.count('text_callbacks', tcb)
        chk.count('mode_' + MODES[doc[1]].replace(' ', '_'))
        if ret != 0:
            chk.violation('wellformed-rejected', 'well-formed document reported as failure: %r (mode %s)' % (doc[0][:300], MODES[doc[1]]), {'doc': doc[0].hex(), 'mode': doc[1:]})
        elif ev != ref:
            i = next((i for i, (a, b) in enumerate(zip(ev, ref)) if a != b), min(len(ev), len(ref)))
            chk.violation('events-differ', 'event %d: got %r expected %r (mode %s)' % (i, ev[i:i + 1], ref[i:i + 1], MODES[doc[1]]), {'doc': doc[0].hex(), 'mode': doc[1:]})
        if not ctxok:
            chk.violation('context', 'callback with a wrong context or defaulted attributes', {'doc': doc[0].hex()})
    chk.sample(docs[3][0][:400].decode('utf-8', 'replace'))
    for doc, ev, (ret, ctxok, tcb, live) in run_docs(chk, exe, bad):
        if doc[1] != 3 and xmlgen.expat_trace(doc[0], ns=False) is not None:
            skipped += 1
            continue
        chk.saw()
        chk.nontriv(doc[0] + b'bad')
        chk.count('malformed_documents')
        if ret == 0:
            chk.violation('malformed-accepted', 'reported success: %r (mode %s)' % (doc[0][-300:], MODES[doc[1]]), {'doc': doc[0].hex(), 'mode': doc[1:]})
    chk.sample(bad[5][0][-200:].decode('utf-8', 'replace'))
    chk.count('skipped_as_ambiguous', skipped)
