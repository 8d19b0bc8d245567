"""Workloads shared by C01 (memory, termination) and C02 (releases everything)."""
from core import *
import mutate

REFS = ['ref\tH\t0;i=%d' % x for x in (33, 35, 36, 44, 45, 46, 47, 48)] + ['ref\tN\t0;i=%d' % x for x in (37, 38, 39, 41)] + ['ref\tT\t0;i=40']


def dtd_docs():
    """Documents with declared entities: nested, of exponential size, recursive, external, with markup."""
    ex = '<UAObject NodeId="ns=1;i=1" BrowseName="1:%s"><DisplayName>a%sb</DisplayName><References><Reference ReferenceType="i=47" IsForward="false">i=85</Reference></References></UAObject>'
    laugh = '<!ENTITY l0 "haha">' + ''.join('<!ENTITY l%d "%s">' % (k, ('&l%d;' % (k - 1)) * 10) for k in range(1, 13))
    out = []
    for sub, n, t in (('<!ENTITY x "abc">', 'n', '&x;'), ('<!ENTITY x "abc">', '&x;', ''), ('<!ENTITY y "abc"><!ENTITY x "&y;&y;">', '&x;', '&x;&x;'), (laugh, 'n', '&l12;'), (laugh, '&l12;', ''),
                      ('<!ENTITY x "&x;">', 'n', '&x;'), ('<!ENTITY x "&y;"><!ENTITY y "&x;">', '&x;', '&y;'), ('<!ENTITY x SYSTEM "file:///etc/hostname">', 'n', '&x;'), ('<!ENTITY x SYSTEM "/dev/zero">', 'n', '&x;'),
                      ('<!ENTITY x SYSTEM "/dev/zero" NDATA n>', '&x;', '&x;'), ('<!ENTITY % p SYSTEM "/dev/zero"> %p;', 'n', ''), ('<!ENTITY % p "<!ENTITY x \'abc\'>"> %p;', 'n', '&x;'),
                      ('<!ENTITY x "</DisplayName><DisplayName>">', 'n', '&x;'), ('<!ENTITY x "<DisplayName>t</DisplayName>">', 'n', '&x;'), ('<!ENTITY lt "&#38;#60;">', '&lt;', '&lt;'),
                      ('<!ATTLIST UAObject EventNotifier CDATA "7" ParentNodeId CDATA "i=85">', 'n', ''), ('<!ATTLIST UAObject NodeId ID #IMPLIED xmlns:k CDATA "urn:k">', 'n', ''),
                      ('<!ELEMENT UANodeSet (((((((((a)))))))))>' * 50, 'n', '')):
        out.append(doc(ex % (n, t)).replace(b'<UANodeSet', b'<!DOCTYPE UANodeSet [' + sub.encode() + b']><UANodeSet', 1))
    return out


def base_docs(seed, n):
    docs = mutate.corpus()
    docs += dtd_docs()
    for k in range(n):
        r = random.Random('hostile/%s/%d' % (seed, k))
        g = Gen(r)
        w = g.world(nfiles=1, nnodes=r.choice([2, 6, 15, 40]), exts=r.random() < .5)
        docs.append(render(w.files[0], Style(r) if r.random() < .5 else None))
    return docs


def core_cases(run, seed, n, docs):
    """n cases: hostile documents in random histories."""
    out = []
    small = [d for d in docs if len(d) < 20000]
    for k in range(n):
        r = random.Random('hc/%s/%d' % (seed, k))
        ds = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            d = r.choice(small if r.random() < .93 else docs)
            ds.append(mutate.hostile(r, d) if r.random() < .88 else d)
        fs = [run.file(d) for d in ds]
        pre = (REFS if r.random() < .3 else []) + (['nsnext\t%d' % r.choice([0, 1, 2, 65535, 65530])] if r.random() < .2 else [])
        if r.random() < .45:
            lines = pre + ['new\t0\t%d\t%d' % (r.random() < .7, bool(pre and pre[0][0] == 'r'))]
            lines += ['imp\t0\t%s\t%d' % (f, r.random() < .5) for f in fs]
            lines += r.choice([['sort\t0', 'dump\t0', 'bidi\t0', 'del\t0'], ['dump\t0', 'del\t0'], ['del\t0'], ['sort\t0', 'sort\t0', 'dump\t0'], ['bidi\t0', 'sort\t0', 'dump\t0', 'dump\t0', 'del\t0'], []])
        else:
            lines = pre + mutate.histories(r, fs)
        out.append(Case(None, lines, ds, 'hostile'))
    return out


def good_cases(run, seed, n):
    out = []
    for k in range(n):
        r = random.Random('hg/%s/%d' % (seed, k))
        w = Gen(r).world(nfiles=r.choice([1, 1, 2, 3]), nnodes=r.choice([0, 1, 5, 30, 80]), exts=r.random() < .5)
        ops = r.choice([('sort', 'dump', 'bidi', 'del'), ('del',), ('bidi', 'sort', 'del'), ('sort', 'sort', 'dump', 'del'), ('dump', 'del'), ()])
        out.append(world_case(run, w, Style(r) if r.random() < .5 else None, ext=r.random() < .5, ops=ops, logger=int(r.random() < .7), tag='valid'))
    return out


def doc(body, uris=('urn:x',), aliases=''):
    return ('<?xml version="1.0" encoding="utf-8"?><UANodeSet xmlns="%s"><NamespaceUris>%s</NamespaceUris>%s%s</UANodeSet>' %
            (mutate.NS, ''.join('<Uri>%s</Uri>' % u for u in uris), '<Aliases>%s</Aliases>' % aliases if aliases else '', body)).encode()


def big_docs(f):
    """Documents whose size grows with f in one dimension each: {name: bytes}."""
    T = 'xmlns:uax="%s"' % mutate.TNS
    o = {}
    o['nodes'] = doc(''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:n%d" ParentNodeId="ns=1;i=%d"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=47" IsForward="false">ns=1;i=%d</Reference></References></UAObject>' %
                             (k, k, k // 2, k // 2 if k > 1 else 0) for k in range(1, f + 1)))
    o['chain-reverse'] = doc(''.join('<UAVariable NodeId="ns=1;s=v%d" BrowseName="1:n"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=46" IsForward="false">ns=1;s=v%d</Reference></References></UAVariable>' %
                                     (k, k - 1) for k in range(f, 0, -1)))
    o['parents-only'] = doc(''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:n" ParentNodeId="ns=1;i=%d"><DisplayName>n</DisplayName></UAObject>' % (k, k + 1) for k in range(1, f + 1)))
    o['star'] = doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>n</DisplayName><References>%s</References></UAObject>' %
                    ''.join('<Reference ReferenceType="%s">ns=1;i=%d</Reference>' % (('i=47', 'i=37', 'ns=1;i=9')[k % 3], k + 2) for k in range(f)) +
                    '<UAReferenceType NodeId="ns=1;i=9" BrowseName="1:r"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">i=33</Reference></References></UAReferenceType>')
    o['unknown-refs'] = doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>n</DisplayName><References>%s</References></UAObject>' %
                            ''.join('<Reference ReferenceType="ns=1;i=%d">ns=1;i=%d</Reference>' % (k + 2, k + 2) for k in range(f)))
    o['reftypes'] = doc(''.join('<UAReferenceType NodeId="ns=1;i=%d" BrowseName="1:r"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference></References></UAReferenceType>' %
                                (k, 'ns=1;i=%d' % (k + 1) if k < f // 8 else 'i=33') for k in range(1, f // 8 + 1)))
    o['reftypes-shuffled'] = doc(''.join('<UAReferenceType NodeId="ns=1;i=%d" BrowseName="1:r"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference></References></UAReferenceType>' %
                                         (k, 'ns=1;i=%d' % (k // 2) if k > 1 else 'i=33') for k in random.Random(f).sample(range(1, f // 8 + 1), f // 8)))
    o['reftypes-flat'] = doc(''.join('<UAReferenceType NodeId="ns=1;i=%d" BrowseName="1:r"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference></References></UAReferenceType>' %
                                     (k, 'i=33' if k % 2 else 'i=32') for k in range(1, f // 8 + 1)))
    o['aliases'] = doc('', aliases=''.join('<Alias Alias="A%d">ns=1;i=%d</Alias>' % (k, k) for k in range(f)))
    o['aliases-used'] = doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>n</DisplayName><References>%s</References></UAObject>' %
                            ''.join('<Reference ReferenceType="HC">A%d</Reference>' % (k,) for k in range(f // 4)), aliases='<Alias Alias="HC">i=47</Alias>' + ''.join('<Alias Alias="A%d">ns=1;i=%d</Alias>' % (k, k + 5) for k in range(f // 4)))
    o['uris'] = doc('<UAObject NodeId="ns=%d;i=1" BrowseName="1:n"><DisplayName>n</DisplayName></UAObject>' % min(f // 4, 60000), uris=['urn:%d' % k for k in range(min(f // 4, 60000))])
    o['fields'] = doc('<UADataType NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>n</DisplayName><Definition Name="n">%s</Definition></UADataType>' % ''.join('<Field Name="f%d" DataType="i=6"/>' % k for k in range(f)))
    o['definitions'] = doc(''.join('<UADataType NodeId="ns=1;i=%d" BrowseName="1:n"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">i=22</Reference></References><Definition Name="n"><Field Name="a" DataType="i=6"/><Field Name="b" DataType="ns=1;i=%d"/></Definition></UADataType>' %
                                   (k, k + 1) for k in range(1, f // 8)))
    o['text'] = doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>%s</DisplayName><Description>%s</Description></UAObject>' % ('t' * 50 * f, '&lt;' * f))
    o['attribute'] = doc('<UAObject NodeId="ns=1;s=%s" BrowseName="1:%s"><DisplayName>x</DisplayName></UAObject>' % ('a' * f, 'b' * 20 * f))
    o['attributes'] = doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:n" %s><DisplayName>x</DisplayName></UAObject>' % ' '.join('a%d="1"' % k for k in range(f // 4)))
    o['list'] = doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:n" DataType="i=6" ValueRank="1"><DisplayName>x</DisplayName><Value><uax:ListOfInt32 %s>%s</uax:ListOfInt32></Value></UAVariable>' % (T, '<uax:Int32>1</uax:Int32>' * f))
    o['extobjs'] = doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:n" DataType="i=22" ValueRank="1"><DisplayName>x</DisplayName><Value><uax:ListOfExtensionObject %s>%s</uax:ListOfExtensionObject></Value></UAVariable>' %
                       (T, '<uax:ExtensionObject><uax:TypeId><uax:Identifier>i=297</uax:Identifier></uax:TypeId><uax:Body><uax:A><uax:x>1</uax:x></uax:A></uax:Body></uax:ExtensionObject>' * (f // 4)))
    o['deep-value'] = doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>x</DisplayName><Value>%s1%s</Value></UAVariable>' % ('<a>' * 240, '</a>' * 240))
    o['deep-unknown'] = doc('%s1%s' % ('<a>' * 240, '</a>' * 240))
    o['extension'] = doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>x</DisplayName><Extensions><Extension>%s</Extension></Extensions></UAObject>' % ('<x a="1">t</x>' * f))
    o['value-text'] = doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:n" DataType="i=12"><DisplayName>x</DisplayName><Value><uax:String %s>%s</uax:String></Value></UAVariable>' % (T, 's&amp;' * 8 * f))
    o['two-cycles'] = doc(''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:n"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=47">ns=1;i=%d</Reference></References></UAObject>' % (k, (k + 1) % f) for k in range(f)))
    return o


HUGE = 9000000


def huge_docs():
    """One text of 9 MB (libxml2 ends at 10 MB) in every place that takes one."""
    T = 'xmlns:uax="%s"' % mutate.TNS
    x = 'h' * HUGE
    o = {}
    n = lambda cls, attrs='', more='', nid='ns=1;i=1', bn='1:n': '<UA%s NodeId="%s" BrowseName="%s" %s><DisplayName>n</DisplayName>%s</UA%s>' % (cls, nid, bn, attrs, more, cls)
    o['node-id'] = doc(n('Object', nid='ns=1;s=' + x))
    o['opaque-id'] = doc(n('Object', nid='ns=1;b=' + 'QUJD' * (HUGE // 4)))
    o['number-id'] = doc(n('Object', nid='ns=1;i=' + '1' * HUGE))
    o['bad-id'] = doc(n('Object', nid=x))
    o['browse-name'] = doc(n('Object', bn='1:' + x))
    o['parent'] = doc(n('Object', 'ParentNodeId="ns=1;s=%s"' % x))
    o['symbolic-name'] = doc(n('Object', 'SymbolicName="%s"' % x))
    o['data-type'] = doc(n('Variable', 'DataType="%s"' % x))
    o['dimensions'] = doc(n('Variable', 'ValueRank="1" ArrayDimensions="%s1"' % ('1,' * (HUGE // 2))))
    o['boolean'] = doc(n('Object', 'IsAbstract="%s"' % x) + n('ObjectType', 'IsAbstract="%s"' % x, nid='ns=1;i=2'))
    o['event-notifier'] = doc(n('Object', 'EventNotifier="%s"' % ('1' * HUGE)))
    o['unknown-attribute'] = doc(n('Object', 'Unknown="%s"' % x))
    o['long-attribute-name'] = doc(n('Object', '%s="1"' % x[:49000]))
    o['ref-target'] = doc(n('Object', more='<References><Reference ReferenceType="i=47">ns=1;s=%s</Reference></References>' % x))
    o['ref-type'] = doc(n('Object', more='<References><Reference ReferenceType="ns=1;s=%s">ns=1;i=1</Reference></References>' % x))
    o['ref-forward'] = doc(n('Object', more='<References><Reference ReferenceType="i=47" IsForward="%s">ns=1;i=1</Reference></References>' % x))
    o['alias'] = doc(n('Variable', 'DataType="%s"' % x), aliases='<Alias Alias="%s">i=6</Alias>' % x)
    o['alias-id'] = doc(n('Variable', 'DataType="A"'), aliases='<Alias Alias="A">ns=1;s=%s</Alias>' % x)
    o['uri'] = doc(n('Object'), uris=['urn:' + x])
    o['locale'] = doc(n('Object').replace('<DisplayName>', '<DisplayName Locale="%s">' % x))
    o['display-name'] = doc(n('Object').replace('>n<', '>%s<' % x))
    o['description'] = doc(n('Object', more='<Description>%s</Description>' % x))
    o['inverse-name'] = doc(n('ReferenceType', more='<InverseName>%s</InverseName>' % x))
    o['definition'] = doc(n('DataType', more='<Definition Name="%s"><Field Name="%s" DataType="%s"/></Definition>' % ((x[:HUGE // 3],) * 3)))
    o['field-value'] = doc(n('DataType', more='<Definition Name="n"><Field Name="a" Value="%s"/></Definition>' % ('1' * HUGE)))
    o['value'] = doc(n('Variable', 'DataType="i=12"', '<Value><uax:String %s>%s</uax:String></Value>' % (T, x)))
    o['number-value'] = doc(n('Variable', 'DataType="i=6"', '<Value><uax:Int32 %s>%s</uax:Int32></Value>' % (T, '1' * HUGE)))
    o['bytes-value'] = doc(n('Variable', 'DataType="i=15"', '<Value><uax:ByteString %s>%s</uax:ByteString></Value>' % (T, 'QUJD' * (HUGE // 4))))
    o['value-element'] = doc(n('Variable', more='<Value><%s>1</%s></Value>' % (x[:49000], x[:49000])))
    o['type-id'] = doc(n('Variable', 'DataType="i=22"', '<Value><uax:ExtensionObject %s><uax:TypeId><uax:Identifier>%s</uax:Identifier></uax:TypeId><uax:Body><uax:A><uax:x>%s</uax:x></uax:A></uax:Body></uax:ExtensionObject></Value>' % (T, x, x)))
    o['extension'] = doc(n('Object', more='<Extensions><Extension><a b="%s">%s</a></Extension></Extensions>' % (x, x)))
    o['unknown-text'] = doc('<Unknown>%s</Unknown>' % x)
    o['comment'] = doc('<!-- %s -->' % x + n('Object'))
    return o


def huge_cases(run):
    out = []
    for nm, dd in huge_docs().items():
        p = run.file(dd)
        out.append(Case(None, ['ns\turn:n\t1', 'new\t0\t1\t0', 'imp\t0\t%s\t1' % p, 'sort\t0', 'dump\t0', 'bidi\t0', 'del\t0'], [dd], 'huge:' + nm))
    return out


def many_docs(f):
    """Documents of f nodes, in orders of their ids and links that are hard on the sorting."""
    node = lambda i, p: '<UAObject NodeId="%s" BrowseName="1:n"><References><Reference ReferenceType="i=47" IsForward="false">%s</Reference></References></UAObject>' % (i, p)
    num = lambda k: 'ns=1;i=%d' % k
    st = lambda k: 'ns=1;s=%08d' % k
    o = {}
    for nm, ids in (('number', num), ('string', st)):
        o['ascending-' + nm] = doc(''.join(node(ids(k), 'i=85') for k in range(1, f)))
        o['descending-' + nm] = doc(''.join(node(ids(k), 'i=85') for k in range(f, 0, -1)))
        o['inside-out-' + nm] = doc(''.join(node(ids(f + (k // 2 if k % 2 else -k // 2)), ids(f)) for k in range(1, f)) + node(ids(f), 'i=85'))
    return o


def many_cases(run, f):
    return [Case(None, ['new\t0\t1\t0', 'imp\t0\t%s\t1' % run.file(dd), 'sort\t0', 'del\t0'], [dd], 'many:' + nm) for nm, dd in many_docs(f).items()]


def big_cases(run, f):
    out = []
    for nm, dd in big_docs(f).items():
        p = run.file(dd)
        out.append(Case(None, ['new\t0\t1\t0', 'imp\t0\t%s\t1' % p, 'sort\t0', 'dump\t0', 'bidi\t0', 'del\t0'], [dd], 'big:' + nm))
    return out
