"""Hostile variants of nodeset documents: well-formed structural mutations and byte level damage."""
import os, re, copy, glob
import xml.etree.ElementTree as ET
from common import *

NS = 'http://opcfoundation.org/UA/2011/03/UANodeSet.xsd'
TNS = 'http://opcfoundation.org/UA/2008/02/Types.xsd'
HOSTILE = ['', ' ', 'i=', 'ns=', 'ns=1', 'ns=1;', 'ns=1;i=', 'ns=99999;i=1', 'ns=65535;i=1', 'ns=65536;i=1', 'ns=-1;i=5', 'ns=1;s=', 'ns=1;g=zz', 'ns=1;b=AA', 'ns=1;b=A', 'ns=1;b===', 'ns=2;b=AAAA=',
           'i=99999999999', 'i=4294967295', 'i=-1', 'i=0', 'i=85', ' i=85 ', 's=', 'ns=1;i=1', 'ns=1;i=1000', 'ns=0;i=24', 'i=1', 'i=22', 'i=58', 'i=59', '%s%n%d', '<&>"\'', ':', '5:', ':x', '99999:x', '-1:x', '1:', '65536:y',
           '1:a:b', '0', '1', '-1', '-3', '2', '4294967295', '2147483648', '-2147483649', '99999999999999999999', '1e309', 'NaN', 'INF', '-INF', 'true', 'false', 'TRUE', 'maybe',
           '1,2,3', ',', '1,,2', 'ä', '\U0001F600', '2020-01-01T00:00:00Z', '2020-13-45T99:99:99', '0001-01-01', 'AAAA', 'AAAA=', '====', 'A', 'AA', 'AAA', '!!!!', 'Boolean', 'HasSubtype',
           'Foo', 'http://opcfoundation.org/UA/', 'x' * 255, 'y' * 256, 'z' * 1023, 'w' * 1024, 'v' * 1025, 'u' * 5000, 'ns=1;s=' + 't' * 2000, 'Good', '0x10', '3fb4a6e1-12d3-4f11-8b5c-0123456789ab', '{}']
TAGS = ['UAObject', 'UAVariable', 'UAObjectType', 'UAVariableType', 'UADataType', 'UAReferenceType', 'UAMethod', 'UAView', 'Reference', 'References', 'DisplayName', 'Description', 'Value', 'Extensions', 'Extension',
        'Definition', 'Field', 'InverseName', 'Aliases', 'Alias', 'NamespaceUris', 'Uri', 'Unknown', 'UANodeSet', 'ModelTableEntry', 'Models', 'Documentation', 'Category']
TTAGS = ['Boolean', 'SByte', 'Byte', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double', 'String', 'DateTime', 'Guid', 'ByteString', 'XmlElement', 'NodeId', 'ExpandedNodeId', 'StatusCode', 'QualifiedName',
         'LocalizedText', 'ExtensionObject', 'DataValue', 'Variant', 'Identifier', 'TypeId', 'Body', 'Text', 'Locale', 'Name', 'NamespaceIndex', 'SwitchField', 'String', 'ListOfInt32', 'ListOfExtensionObject',
         'ListOfString', 'ListOfLocalizedText', 'ListOf', 'ListOfByteString', 'ListOfGuid', 'ListOfVariant', 'ListOfDateTime', 'ListOfQualifiedName', 'ListOfNodeId']
ATTRS = ['NodeId', 'BrowseName', 'ParentNodeId', 'DataType', 'ValueRank', 'ArrayDimensions', 'IsAbstract', 'Symmetric', 'EventNotifier', 'AccessLevel', 'MinimumSamplingInterval', 'Historizing', 'Executable', 'WriteMask',
         'ReferenceType', 'IsForward', 'Name', 'Value', 'IsOptional', 'IsUnion', 'IsOptionSet', 'Alias', 'Locale', 'ContainsNoLoops', 'SymbolicName', 'ReleaseStatus']


def corpus(limit=60000):
    """The nodeset files that come with the repository."""
    out = []
    for p in sorted(glob.glob(REPO + '/**/*.xml', recursive=True)):
        try:
            if os.path.getsize(p) <= limit:
                with open(p, 'rb') as f:
                    d = f.read()
                if b'UANodeSet' in d:
                    out.append(d)
        except OSError:
            pass
    return out


def _parents(root):
    return {c: p for p in root.iter() for c in p}


def structural(r, doc, n=None, focus=None):
    """n tree mutations, result well-formed (or doc unchanged when it cannot be parsed)."""
    try:
        root = ET.fromstring(doc)
    except (ET.ParseError, ValueError):
        return doc
    for _ in range(n or r.choice([1, 1, 2, 3, 6, 15])):
        els = list(root.iter())
        if focus and r.random() < 0.8:
            f = [e for e in els if focus(e)]
            els = f or els
        e = r.choice(els)
        par = _parents(root)
        p = par.get(e)
        c = r.random()
        if c < 0.10 and p is not None:
            p.remove(e)
        elif c < 0.20 and p is not None:
            p.insert(r.randrange(len(p) + 1), copy.deepcopy(e))
        elif c < 0.30:
            t = r.choice(list(root.iter()))
            if e is not root:
                t.insert(r.randrange(len(t) + 1), copy.deepcopy(e))
        elif c < 0.38 and e is not root:
            tag = r.choice([NS + '}' + r.choice(TAGS), TNS + '}' + r.choice(TTAGS), r.choice(TAGS + TTAGS)])
            e.tag = ('{' + tag) if '}' in tag else tag
        elif c < 0.56:
            if e.attrib and r.random() < 0.85:
                k = r.choice(sorted(e.attrib))
                q = r.random()
                if q < 0.2:
                    del e.attrib[k]
                elif q < 0.7:
                    e.attrib[k] = r.choice(HOSTILE)
                else:
                    o = r.choice(list(root.iter()))
                    if o.attrib:
                        e.attrib[k] = r.choice(sorted(o.attrib.values()))
            else:
                e.attrib[r.choice(ATTRS)] = r.choice(HOSTILE)
        elif c < 0.74:
            e.text = r.choice(HOSTILE)
        elif c < 0.80:
            e.text = None
        elif c < 0.86:
            for k in list(e):
                e.remove(k)
        elif c < 0.90:
            e.tail = r.choice(HOSTILE)
        elif c < 0.94:
            kids = list(e)
            r.shuffle(kids)
            e[:] = kids
        elif c < 0.97 and p is not None:
            # wrap
            w = ET.Element('{%s}%s' % (r.choice([NS, TNS]), r.choice(TAGS + TTAGS)))
            i = list(p).index(e)
            p.remove(e)
            for _ in range(r.choice([1, 1, 3, 20])):
                w2 = ET.Element(w.tag)
                w2.append(w) if len(w) else None
                w = w2 if len(w2) else w
                if not len(w):
                    w.append(e)
            p.insert(i, w)
        elif p is not None:
            i = list(p).index(e)
            kids = list(e)
            p.remove(e)
            for k in reversed(kids):
                p.insert(i, k)
    if r.random() < 0.5:
        ET.register_namespace('', NS)
        ET.register_namespace('uax', TNS)
    try:
        return ET.tostring(root, encoding='utf-8')
    except (ValueError, TypeError):
        return doc


def damage(r, doc):
    b = bytearray(doc)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not b:
            break
        c = r.random()
        i = r.randrange(len(b))
        if c < 0.25:
            del b[i:]
        elif c < 0.45:
            b[i] = r.choice([0, 9, 32, 34, 38, 39, 47, 60, 61, 62, 0x80, 0xc3, 0xe2, 0xf0, 0xff, r.randrange(256)])
        elif c < 0.6:
            del b[i:i + r.choice([1, 1, 5, 40, 400])]
        elif c < 0.75:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 5, 60, 600])]
        elif c < 0.85:
            b[i:i] = r.choice(HOSTILE).encode()
        elif c < 0.95:
            b[i:i] = r.choice([b'<Value>', b'</Value>', b'<References>', b'</UAVariable>', b'<Extension>', b'<![CDATA[', b']]>', b'<!--', b'-->', b'&#0;', b'&lt;', b'&x;', b'<?x', b'/>', b'<Uri>', b'\r\n', b'<Definition>'])
        else:
            b[i:i + 3] = b'\0' * r.choice([1, 3, 1500])
    return bytes(b)


def hostile(r, doc):
    c = r.random()
    if c < 0.72:
        return structural(r, doc)
    if c < 0.8:
        return damage(r, structural(r, doc))
    return damage(r, doc)


def histories(r, files, slots=3, n=None, ext=None):
    """A random history of public calls over the given file paths."""
    L = []
    live = set()
    for _ in range(n or r.choice([3, 6, 12, 30])):
        c = r.random()
        s = r.randrange(slots)
        if s not in live:
            L.append('new\t%d\t%d\t%d' % (s, r.random() < .7, r.random() < .3))
            live.add(s)
            if r.random() < .9:
                continue
        if c < 0.45:
            L.append('imp\t%d\t%s\t%d' % (s, r.choice(files), r.random() < .4))
        elif c < 0.50:
            L.append('inv\t%d\t%s\t%s' % (s, r.choice('01'), r.choice(files)))
        elif c < 0.68:
            L.append('sort\t%d' % s)
        elif c < 0.82:
            L.append('dump\t%d' % s)
        elif c < 0.9:
            L.append('bidi\t%d' % s)
        else:
            L.append('del\t%d' % s)
            live.discard(s)
    for s in sorted(live):
        if r.random() < .8:
            L.append('del\t%d' % s)
    return L
