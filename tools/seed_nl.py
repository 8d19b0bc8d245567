"""Helpers of the demonstrations: nodeset documents, running the driver."""
import json, subprocess, sys, os
PROG, TMP = sys.argv[1], sys.argv[2]


def doc(body, uris=('urn:x',), aliases=''):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd">\n<NamespaceUris>%s</NamespaceUris>\n%s%s\n</UANodeSet>\n' %
            (''.join('<Uri>%s</Uri>' % u for u in uris), '<Aliases>%s</Aliases>' % aliases if aliases else '', body))


def node(cls, id_, refs=(), bn='1:n', dn='n', more='', attrs=''):
    return '<%s NodeId="%s" BrowseName="%s"%s><DisplayName>%s</DisplayName><References>%s</References>%s</%s>\n' % (
        cls, id_, bn, ' ' + attrs if attrs else '', dn, ''.join('<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if f else ' IsForward="false"', g) for t, g, f in refs), more, cls)


def write(text, name='f.xml'):
    p = os.path.join(TMP, name)
    with open(p, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


def run(lines, timeout=100, mode='0'):
    inp = 'CASE 0\n' + '\n'.join(lines) + '\nEND\n'
    os.makedirs(TMP + '/err', exist_ok=True)
    p = subprocess.run([PROG, TMP + '/err', '60', mode], input=inp.encode(), capture_output=True, timeout=timeout)
    ev, status = [], None
    for l in p.stdout.decode('utf-8', 'replace').split('\n'):
        if l.startswith('STATUS'):
            status = l.split()[2:4]
        elif l.startswith('{'):
            ev.append(json.loads(l))
    fail(status != ['exit', '0'], 'driver ended with %s' % status)
    return ev


def out():
    p = TMP + '/err/0.out'
    return open(p, encoding='utf-8', errors='replace').read() if os.path.exists(p) else ''


def load(*docs, ns=(('urn:x', 5),), ops=('sort', 'dump', 'bidi', 'del'), logger=1, ext=0, mode='0'):
    lines = ['ns\t%s\t%d' % x for x in ns] + ['new\t0\t%d\t0' % logger]
    for k, d in enumerate(docs):
        lines.append('imp\t0\t%s\t%d' % (write(d, 'f%d.xml' % k), ext))
    return run(lines + [o + '\t0' for o in ops], mode=mode)


def nodes(ev):
    return [e for e in ev if e['e'] == 'node']


def by_id(ev):
    return {e['id']: e for e in ev if e['e'] == 'node'}


def fail(cond, msg):
    if cond:
        print('FAIL: ' + msg)
        sys.exit(1)


def bload(*docs, dump=True, ext=0):
    """loads files into a server, the files are removed after their load"""
    lines = ['srv\t0\t1']
    for k, d in enumerate(docs):
        p = write(d, 'b%d.xml' % k)
        lines += ['load\t0\t%s\t%d' % (p, ext), 'unlink\t0\t%s' % p]
    return run(lines + (['dump\t0'] if dump else []) + ['clean\t0'])


def loads(ev):
    return [e['r'] for e in ev if e['e'] == 'load']


def snodes(ev):
    return {e['id']: e for e in ev if e['e'] == 'sn'}


def types(ev):
    return {e['id']: e for e in ev if e['e'] == 'type'}
