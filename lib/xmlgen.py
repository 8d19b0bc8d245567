"""Random XML documents, reference event traces (expat), and malformations."""
import pyexpat
from common import *

NAMES = ['a', 'b', 'node', 'UAObject', 'x.y-z', 'Ä', 'längerer_Name', 'n1', '_', 'Value', 'Extension']
PREFS = ['p', 'uax', 'q1', 'ns0']
URIS = ['http://a.b/c', 'urn:x', 'http://opcfoundation.org/UA/2011/03/UANodeSet.xsd', 'http://e/?a=1']
TEXTS = ['text', 'a b', 'ü', '€uro', '\U0001F600', 'x' * 30, '0', 'line\nline2', 'tab\there', '  lead', 'trail  ', '/path;ns=1', '100%s', 'a;b=c']
SPECIAL = ['&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&#65;', '&#x20AC;', '&#9;', '&#10;', '&#38;', '&#60;']


def rtext(r, attr=None):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        c = r.random()
        if c < 0.55:
            out.append(r.choice(TEXTS))
        elif c < 0.85:
            out.append(r.choice(SPECIAL))
        else:
            out.append(r.choice(['>', ')', ']]', '\r\n', ' ', '=']) if attr else r.choice(['"', "'", '\r\n', '\n  ', ' ', ']', '=']))
    s = ''.join(out)
    return s.replace(']]>', ']] >')


def elem(r, depth, scope, budget):
    pre = ''
    decl = []
    scope = dict(scope)
    for p in PREFS:
        if r.random() < 0.08:
            scope[p] = r.choice(URIS)
            decl.append(('xmlns:' + p, scope[p]))
    if r.random() < 0.08:
        u = r.choice(URIS + [''])
        decl.append(('xmlns', u))
    if scope and r.random() < 0.4:
        pre = r.choice(sorted(scope)) + ':'
    name = pre + r.choice(NAMES)
    atts = list(decl)
    used = set()
    for _ in range(r.choice([0, 0, 1, 2, 4, 9])):
        ap = ''
        if scope and r.random() < 0.2:
            ap = r.choice(sorted(scope))
        an = r.choice(NAMES)
        k = (scope.get(ap) if ap else None, an)
        if k in used:
            continue
        used.add(k)
        atts.append(((ap + ':' if ap else '') + an, rtext(r, True)))
    r.shuffle(atts)
    s = '<' + name
    for n, v in atts:
        q = r.choice('"\'')
        v = v.replace(q, '&#34;' if q == '"' else '&#39;').replace('<', '&lt;')
        s += r.choice([' ', '\n', '  ', '\t']) + n + r.choice(['=', ' = ', '= ']) + q + v + q
    kids = []
    if depth > 0:
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            c = r.random()
            if c < 0.45:
                kids.append(elem(r, depth - 1, scope, budget))
            elif c < 0.75:
                kids.append(rtext(r))
            elif c < 0.85:
                kids.append('<!--' + r.choice(['', ' c ', '<a>', ' & ', 'x' * r.randint(0, 300)]) + '-->')
            elif c < 0.95:
                kids.append('<![CDATA[' + r.choice(['', 'cd', '<a>&amp;', ']]', 'x]', 'ü€']) + ']]>')
            else:
                kids.append('<?pi ' + r.choice(['', 'data', 'a="b"']) + '?>')
    body = ''.join(kids)
    if not body and r.random() < 0.6:
        return s + r.choice(['/>', ' />'])
    return s + '>' + body + '</' + name + r.choice(['>', ' >'])


def document(r, size=30):
    pro = r.choice(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\r\n"])
    s = pro + r.choice(['', '\n', '<!-- head -->\n'])
    s += elem(r, r.randint(1, 7), {}, [size])
    s += r.choice(['', '\n', '<!-- tail -->', '\n\n'])
    return s


def esc(s):
    return (s or '').replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t')


def expat_trace(data, ns=True):
    """Canonical events, or None when the document is not well-formed."""
    out = []
    text = []
    SEP = '\x01'
    p = pyexpat.ParserCreate(namespace_separator=SEP) if ns else pyexpat.ParserCreate()
    if ns:
        p.namespace_prefixes = True
    p.ordered_attributes = True
    p.buffer_text = False
    nsd = []

    def split(n):
        q = n.split(SEP)
        if len(q) == 1:
            return q[0], '', ''
        if len(q) == 2:
            return q[1], '', q[0]
        return q[1], q[2], q[0]

    def flush():
        t = ''.join(text)
        text.clear()
        if t:
            out.append('T\t' + esc(t))

    def start(n, at):
        flush()
        l, pr, u = split(n)
        f = ['S', esc(l), esc(pr), esc(u), str(len(nsd))]
        for a, b in nsd:
            f += [esc(a), esc(b)]
        nsd.clear()
        f.append(str(len(at) // 2))
        for i in range(0, len(at), 2):
            l, pr, u = split(at[i])
            f += [esc(l), esc(pr), esc(u), esc(at[i + 1])]
        out.append('\t'.join(f))

    def end(n):
        flush()
        l, pr, u = split(n)
        out.append('\t'.join(['E', esc(l), esc(pr), esc(u)]))
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = text.append
    p.StartNamespaceDeclHandler = lambda a, b: nsd.append((a, b))
    try:
        p.Parse(data, True)
    except pyexpat.ExpatError:
        return None
    return out


def malform(r, doc):
    """A document that is not well-formed by construction, from a well-formed one (str)."""
    k = r.randrange(12)
    end = doc.rindex('>') if '>' in doc else 0
    gt = [i for i, c in enumerate(doc) if c == '>']
    if k <= 3:
        # truncation inside the root element
        b = doc.encode()
        last = doc.encode().rstrip()
        m = re.search(rb'(<!--[^<]*-->\s*)*$', last)
        last = last[:m.start()] if m else last
        return b[:r.randint(0, max(0, len(last.rstrip()) - 1))]
    if k == 4:
        return (doc + '<b/>').encode()
    if k == 5:
        return (doc + 'text').encode()
    if k == 6:
        return doc.encode()[:-1] + b'\x00'
    if k == 7:
        return doc.replace('>', '>\x01', 1).encode() if '<?xml' not in doc else (doc + '&').encode()
    if k == 8:
        return doc.encode() + b'</a>'
    if k == 9:
        i = doc.rindex('</') if '</' in doc else None
        if i is None:
            return (doc + '<').encode()
        return (doc[:i] + '</zzz>' + doc[i:]).encode()
    if k == 10:
        i = doc.rindex('</') if '</' in doc else None
        if i is None:
            return (doc + '</x>').encode()
        return (doc[:i] + r.choice(['&undefined;', '<a b=c/>', '<a b="1" b="2"/>', '&#0;', '<a x="<"/>', '<1/>', '& ', '<a', '<![CDATA[', '<!-- -- -->', ']]>']) + doc[i:]).encode()
    b = bytearray(doc.encode())
    i = doc.encode().rfind(b'</')
    if i < 0:
        return bytes(b) + b'\xff'
    return bytes(b[:i] + r.choice([b'\xff', b'\xc3', b'\xe2\x82', b'\xf0\x9f', b'\x80']) + b[i:])
