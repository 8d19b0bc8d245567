"""Abstract nodesets, their random generation and their rendering to XML.

Ids are (uri, kind, value); uri '' is namespace 0. Nothing in here is derived
from the code under test."""
import base64, copy, re
from common import *

OBJECT, OBJECTTYPE, VARIABLE, DATATYPE, METHOD, REFTYPE, VARTYPE, VIEW = range(8)
TAG = ['UAObject', 'UAObjectType', 'UAVariable', 'UADataType', 'UAMethod', 'UAReferenceType', 'UAVariableType', 'UAView']
INSTANCE = (OBJECT, VARIABLE, METHOD, VIEW)
UA_URI = 'http://opcfoundation.org/UA/'
XSD = 'http://opcfoundation.org/UA/2011/03/UANodeSet.xsd'
TYPES_XSD = 'http://opcfoundation.org/UA/2008/02/Types.xsd'


def I(n):
    return ('', 'i', n)


HIER0 = [33, 35, 36, 44, 45, 46, 47, 48, 34, 49, 56, 129, 131, 14476, 14936, 15112, 15296, 15297, 16361, 16362]   # standard hierarchical types
HIER0_ALL = set(HIER0) | {38}
NONHIER0 = [37, 39, 41, 51, 52, 53, 54, 32, 117, 3065, 9004, 9005, 9006, 17597, 17603]
# optional attributes per class: name -> default delivered when absent
ATTRS = {
    OBJECT: {'EventNotifier': '0'},
    OBJECTTYPE: {'IsAbstract': 'false'},
    VARIABLE: {'ArrayDimensions': '', 'ValueRank': '-1', 'AccessLevel': '1', 'UserAccessLevel': '1', 'Historizing': 'false',
               'MinimumSamplingInterval': '-1'},
    DATATYPE: {'IsAbstract': 'false'},
    METHOD: {'Executable': 'true', 'UserExecutable': 'true'},
    REFTYPE: {'Symmetric': 'false'},
    VARTYPE: {'IsAbstract': 'false', 'ArrayDimensions': '', 'ValueRank': '-1'},
    VIEW: {'ContainsNoLoops': 'false', 'EventNotifier': '0'},
}
ATTRVALS = {'EventNotifier': ['0', '1', '4', '12'], 'IsAbstract': ['true', 'false'], 'ArrayDimensions': ['', '2', '2,3', '0,0,0', '10'],
            'ValueRank': ['-3', '-2', '-1', '0', '1', '2', '17'], 'AccessLevel': ['0', '1', '3', '5', '255'], 'UserAccessLevel': ['0', '1', '3', '7'],
            'Historizing': ['true', 'false'], 'MinimumSamplingInterval': ['-1', '0', '100', '250.5', '1e3'], 'Executable': ['true', 'false'],
            'UserExecutable': ['true', 'false'], 'Symmetric': ['true', 'false'], 'ContainsNoLoops': ['true', 'false']}


def attr_value(r, a):
    """A valid value of the optional attribute, mostly a usual one."""
    v = ATTRVALS[a]
    if r.random() < 0.5:
        return r.choice(v)
    if 'true' in v:
        return r.choice(['true', 'false', '1', '0'] if r.random() < .9 else [' true', 'true ', ' 1 ', ' false', '0 '])
    if r.random() < .1 and a not in ('ArrayDimensions', 'MinimumSamplingInterval'):
        return r.choice(['0', '00', '+']) + r.choice(['8', '9', '10', '12', '100'])
    if a == 'ArrayDimensions':
        return ','.join(r.choice(['', '', '', '', '', '0', '00']) + str(r.choice([0, 1, 2, 9, 10, 100, 65535, 65536, 2147483647, 2147483648, 4294967295])) for _ in range(r.choice([1, 1, 2, 3, 12])))
    if a == 'ValueRank':
        return str(r.choice([-3, -2, -1, 0, 1, 2, 3, 10, 127, 128, 255, 256, 70000]))
    if a == 'MinimumSamplingInterval':
        return r.choice(['%d' % r.randint(0, 10 ** 6), '%.3f' % (r.random() * 1000), repr(r.random() * 10 ** r.randint(-300, 300)), '1.7976931348623157E+308', '5e-324', '0.1', '-0'])
    return str(r.choice([r.randint(0, 255), 127, 128, 255]))


LOOKALIKE_REF = [49, 34, 56, 38, 38, 40, 40, 45, 33, 35, 46, 47, 44, 36, 48, 41, 37, 39, 32]
# numeric ids of standard nodes the code treats in a special way
LOOKALIKE = [38, 40, 45, 47, 35, 46, 33, 36, 44, 48, 32, 37, 39, 41, 12, 6, 22, 24, 29, 1, 11, 15, 7, 58, 61, 63, 68, 76, 85, 84, 12755, 13, 17, 21]


class Node:
    def __init__(self, cls, id_):
        self.cls = cls
        self.id = id_
        self.bn = ('', 'N')
        self.dn = None        # (locale or None, text or None)
        self.desc = None
        self.inv = None
        self.attrs = {}
        self.datatype = None  # id, VARIABLE / VARTYPE
        self.parent = None
        self.refs = []        # [type id, target id, forward]
        self.value = None     # XML element tree: [name, attrs, text or None, children]
        self.definition = None  # dict
        self.exts = None      # list of element trees (children of Extension) or None
        self.extra = ''
        self.more = {}        # further display names and descriptions: 'dn' / 'desc' -> list


class File:
    def __init__(self, uris):
        self.uris = uris      # namespace table, index 1..
        self.aliases = {}     # name -> id
        self.nodes = []


# ---------------------------------------------------------------- rendering

def ns_pos(f, uri, v):
    """A position of the URI in the table, depending on v if it is listed repeatedly."""
    if f.uris.count(uri) == 1:
        return f.uris.index(uri) + 1
    p = [k + 1 for k, u in enumerate(f.uris) if u == uri]
    return p[len(str(v)) % len(p)]


def id_str(f, i):
    uri, k, v = i
    n = 0 if uri == '' else ns_pos(f, uri, v)
    if k == 'b':
        v = base64.b64encode(v).decode()
    s = '%s=%s' % (k, v)
    return s if n == 0 else 'ns=%d;%s' % (n, s)


def qn_str(f, q):
    uri, name = q
    n = 0 if uri == '' else ns_pos(f, uri, name)
    if n == 0 and re.match('[0-9]+:', name):
        return '0:' + name
    return name if n == 0 else '%d:%s' % (n, name)


# declarations that add nothing to the content
DOCTYPES = ['<!DOCTYPE UANodeSet>\n', '<!DOCTYPE UANodeSet SYSTEM "nodeset.dtd">', '<!DOCTYPE UANodeSet PUBLIC "-//X//Y" "http://localhost:1/nodeset.dtd" >\n',
            '<!DOCTYPE UANodeSet [<!ENTITY unused "<UAObject NodeId=\'i=1\'/>"><!-- <a> ]> --><?pi ]>?>]>\n', '<!DOCTYPE UANodeSet [\n<!ELEMENT UANodeSet ANY>\n<!ATTLIST UAObject NodeId CDATA #REQUIRED>\n'
            '<!NOTATION n SYSTEM "x">\n<!ENTITY ext SYSTEM "file:///nonexistent">\n<!ENTITY amp "&#38;#38;">\n]>', '<!DOCTYPE UANodeSet [' + ' ' * 1100 + ']>']


class Style:
    """How a model is written down. The plain style varies nothing."""
    def __init__(self, r=None, **kw):
        self.r = r
        v = r is not None
        self.prefix = (r.choice(['', '', 'ua:', 'n1:']) if v else '')
        self.shuffle_attrs = v
        self.quotes = v
        self.entities = (r.choice([0, 0.05, 0.3]) if v else 0)
        self.comments = (r.choice([0, 0.05, 0.3]) if v else 0)
        self.cdata = (r.choice([0, 0.2, 0.6]) if v else 0)
        self.unknown = (r.choice([0, 0.05, 0.2]) if v else 0)
        self.ws = (r.choice(['\n', '', ' ', '\n    ', '\r\n\t']) if v else '\n')
        self.pad = (r.choice([0, 0, r.randint(0, 2100)]) if v else 0)
        self.decl = (r.choice(['<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0"?>', '']) if v else '<?xml version="1.0" encoding="utf-8"?>\n')
        if v and r.random() < .2:
            self.decl += r.choice(DOCTYPES)
        self.explicit_forward = (r.choice([0, 0.5, 1]) if v else 0)
        self.numeric_bool = (r.choice([0, 0, 0.5, 1]) if v else 0)
        self.pad_bool = (r.choice([0, 0, 0, 0.3]) if v else 0)
        self.std_index = (r.choice([0, 0.5, 1]) if v else 0)
        self.alias_use = 1.0
        self.node_order = (r.choice(['schema', 'schema', 'late', 'any']) if v else 'schema')
        self.pi = (0.02 if v else 0)
        self.__dict__.update(kw)

    def boolean(self, v):
        if self.r and self.numeric_bool and self.r.random() < self.numeric_bool:
            v = {'true': '1', 'false': '0'}.get(v, v)
        if self.r and self.pad_bool and self.r.random() < self.pad_bool:
            v = self.r.choice(['', ' ', '  ']) + v + self.r.choice(['', ' ', '   '])
        return v

    def esc_text(self, s, may_cdata=True):
        if s is None:
            return ''
        r = self.r
        out = []
        i = 0
        while i < len(s):
            if r and may_cdata and self.cdata and r.random() < self.cdata:
                n = r.randint(1, max(1, len(s) - i))
                part = s[i:i + n]
                if ']]>' not in part and '\r' not in part and not part.endswith(']'):
                    out.append('<![CDATA[' + part + ']]>')
                    i += n
                    continue
            c = s[i]
            i += 1
            if c == '&':
                out.append(r.choice(['&amp;', '&#38;', '&#x26;']) if r else '&amp;')
            elif c == '<':
                out.append(r.choice(['&lt;', '&#60;']) if r else '&lt;')
            elif c == '>':
                out.append('&gt;')
            elif c == '\r':
                out.append('&#13;')
            elif r and self.entities and r.random() < self.entities:
                out.append('&#%d;' % ord(c) if r.random() < 0.5 else '&#x%X;' % ord(c))
            elif r and c in '"\'' and r.random() < 0.5:
                out.append('&quot;' if c == '"' else '&apos;')
            else:
                out.append(c)
            if r and self.comments and may_cdata and r.random() < self.comments * 0.05:
                out.append('<!-- mid -->')
        return ''.join(out)

    def esc_attr(self, s, q):
        r = self.r
        out = []
        for c in s:
            if c == '&':
                out.append(r.choice(['&amp;', '&#38;']) if r else '&amp;')
            elif c == '<':
                out.append('&lt;')
            elif c == q:
                out.append('&quot;' if q == '"' else '&apos;')
            elif c in '\n\r\t':
                out.append('&#%d;' % ord(c))
            elif r and self.entities and r.random() < self.entities:
                out.append('&#%d;' % ord(c))
            else:
                out.append(c)
        return ''.join(out)

    def gap(self, unknown_ok=False):
        r = self.r
        s = self.ws
        if not r:
            return s
        if self.comments and r.random() < self.comments:
            s += r.choice(['<!-- c -->', '<!---->', '<!-- <UAObject NodeId="i=1"/> -->', '<!--' + 'k' * r.randint(0, 1500) + '-->']) + self.ws
        if self.pi and r.random() < self.pi:
            s += '<?pi some data?>'
        if unknown_ok and self.unknown and r.random() < self.unknown:
            s += r.choice(['<Foo/>', '<x:Foo xmlns:x="urn:x" a="1">t<x:Bar>u</x:Bar></x:Foo>', '<Category>Cat &amp; egory</Category>',
                           '<Documentation>http://a/b</Documentation>', '<Foo><Foo><Foo>x</Foo></Foo>y</Foo>', '<Other><NodeId>i=1</NodeId><Reference>i=5</Reference></Other>',
                           '<ServerUris><Uri>urn:not:a:namespace</Uri></ServerUris>', '<RolePermissions><RolePermission Permissions="7">i=15680</RolePermission></RolePermissions>',
                           '<Foo><UAObject NodeId="i=4711" BrowseName="no"><DisplayName>no</DisplayName></UAObject></Foo>', '<Foo><Value><Int32>1</Int32></Value><DisplayName>no</DisplayName></Foo>',
                           '<Foo><References><Reference ReferenceType="i=35">i=4711</Reference></References><Definition><Field Name="no"/></Definition></Foo>',
                           '<Foo><Aliases><Alias Alias="HasComponent">i=4711</Alias></Aliases><Extensions><Extension><E/></Extension></Extensions></Foo>']) + self.ws
        return s

    def start(self, name, attrs, raw=False, empty=False):
        r = self.r
        a = list(attrs)
        if self.shuffle_attrs:
            r.shuffle(a)
        s = '<' + (name if raw else self.prefix + name)
        for k, v in a:
            if v is None:
                continue
            q = r.choice('"\'') if self.quotes else '"'
            s += (r.choice([' ', ' ', '\n', '  ']) if r else ' ') + k + '=' + q + self.esc_attr(v, q) + q
        return s + ('/>' if empty else '>')

    def end(self, name, raw=False):
        return '</' + (name if raw else self.prefix + name) + '>'

    def text_elem(self, name, attrs, text, raw=False):
        if text is None or text == '':
            if self.r is None or self.r.random() < 0.5:
                return self.start(name, attrs, raw, True)
            return self.start(name, attrs, raw) + self.end(name, raw)
        return self.start(name, attrs, raw) + self.esc_text(text) + self.end(name, raw)


def tree(st, t, indent=True):
    """Element tree [name, attrs, text, children] written as is (no unknown elements)."""
    name, attrs, text, kids = t
    if not kids:
        return st.text_elem(name, attrs, text, True)
    s = st.start(name, attrs, True)
    for k in kids:
        s += (st.gap() if indent else '') + tree(st, k, indent)
    return s + (st.gap() if indent else '') + st.end(name, True)


# the order of the children of a node in the schema
SCHEMA = ['DisplayName', 'Description', 'References', 'Extensions', 'Value', 'InverseName', 'Definition']


def node_blocks(f, n, st, ref_id):
    """The rendered children of a node."""
    out = {}
    for tag, t, more in (('DisplayName', n.dn, n.more.get('dn', ())), ('Description', n.desc, n.more.get('desc', ())), ('InverseName', n.inv, ())):
        for t in list(more) + [t]:
            if t is not None:
                out.setdefault(tag, []).append(st.gap(True) + st.text_elem(tag, [('Locale', t[0])], t[1]))
    o = out['References'] = []
    if n.refs or (st.r and st.r.random() < 0.2):
        o.append(st.gap(True) + st.start('References', []))
        for rt, tg, fw in n.refs:
            a = [('ReferenceType', ref_id(rt))]
            if not fw:
                a.append(('IsForward', st.boolean('false')))
            elif st.r and st.r.random() < st.explicit_forward:
                a.append(('IsForward', st.boolean('true')))
            o.append(st.gap(True) + st.text_elem('Reference', a, ref_id(tg)))
        o.append(st.gap() + st.end('References'))
    o = out['Value'] = []
    if n.value is not None:
        o.append(st.gap(True) + st.start('Value', []))
        for v in n.value:
            o.append(st.gap() + tree(st, v))
        o.append(st.gap() + st.end('Value'))
    o = out['Definition'] = []
    if n.definition is not None:
        d = n.definition
        a = [('Name', d.get('name', 'D'))]
        for k in ('IsUnion', 'IsOptionSet'):
            if d.get(k) is not None:
                a.append((k, st.boolean(d[k])))
        o.append(st.gap(True) + st.start('Definition', a))
        for fl in d['fields']:
            a = [('Name', fl['name'])]
            if fl.get('dt') is not None:
                a.append(('DataType', ref_id(fl['dt'])))
            for k in ('ValueRank', 'Value', 'IsOptional', 'ArrayDimensions', 'MaxStringLength'):
                if fl.get(k) is not None:
                    a.append((k, st.boolean(fl[k]) if k == 'IsOptional' else fl[k]))
            inner = fl.get('doc')
            if inner:
                o.append(st.gap(True) + st.start('Field', a) + st.start('Description', []) + st.esc_text(inner) + st.end('Description') + st.end('Field'))
            else:
                o.append(st.gap(True) + st.start('Field', a, empty=True))
        o.append(st.gap() + st.end('Definition'))
    o = out['Extensions'] = []
    if n.exts is not None:
        o.append(st.gap(True) + st.start('Extensions', []))
        for e in n.exts:
            o.append(st.gap(True) + st.start('Extension', []))
            for k in e:
                o.append(st.gap() + tree(st, k))
            o.append(st.gap() + st.end('Extension'))
        o.append(st.gap() + st.end('Extensions'))
    return out


def render(f, st=None, models=True):
    st = st or Style()
    o = [st.decl]
    if st.pad:
        o.append('<!--' + 'p' * st.pad + '-->')
    pre = st.prefix[:-1]
    root = [('xmlns:' + pre if pre else 'xmlns', XSD), ('xmlns:uax', TYPES_XSD), ('xmlns:xsi', 'http://www.w3.org/2001/XMLSchema-instance')]
    if st.r and st.r.random() < 0.3:
        root.append(('LastModified', '2020-01-01T00:00:00Z'))
    o.append(st.start('UANodeSet', root))
    rev = {}
    for n, i in f.aliases.items():
        rev.setdefault(i, []).append(n)

    def ref_id(i, allow=True):
        """An id where an alias may stand."""
        if allow and i in rev and (st.alias_use >= 1 or (st.r and st.r.random() < st.alias_use)):
            return rev[i][0] if not st.r else st.r.choice(rev[i])
        return id_str(f, std(i))

    # the standard namespace has an index of its own if it is listed
    def std(i):
        if i[0] == '' and st.r and st.std_index and UA_URI in f.uris and st.r.random() < st.std_index:
            return (UA_URI,) + tuple(i[1:])
        return i
    if f.uris:
        o.append(st.gap(True) + st.start('NamespaceUris', []))
        for u in f.uris:
            o.append(st.gap(True) + st.text_elem('Uri', [], u))
        o.append(st.gap() + st.end('NamespaceUris'))
    if models and st.r and st.r.random() < 0.3:
        o.append(st.gap() + '<' + st.prefix + 'Models><' + st.prefix + 'Model ModelUri="urn:m" Version="1"><' + st.prefix + 'RequiredModel ModelUri="http://opcfoundation.org/UA/"/></' +
                 st.prefix + 'Model></' + st.prefix + 'Models>')
    if f.aliases:
        o.append(st.gap(True) + st.start('Aliases', []))
        for n, i in f.aliases.items():
            o.append(st.gap() + st.text_elem('Alias', [('Alias', n)], id_str(f, std(i))))
        o.append(st.gap() + st.end('Aliases'))
    if models and st.r and st.r.random() < 0.25:
        # extensions of the nodeset itself, their contents mean nothing
        o.append(st.gap(True) + st.start('Extensions', []))
        for _ in range(st.r.choice([0, 1, 1, 3])):
            o.append(st.gap() + st.start('Extension', []) + st.gap() + st.r.choice([
                '', '<m:Info xmlns:m="urn:m" Tool="t" Version="1"/>', 'text', '<UAObject NodeId="i=4712" BrowseName="no"><DisplayName>no</DisplayName></UAObject>',
                '<Alias Alias="HasComponent">i=4712</Alias>', '<NamespaceUris><Uri>urn:no</Uri></NamespaceUris>', '<Extension><UAView NodeId="i=4713" BrowseName="no"/></Extension>',
                '<Extensions><Extension><Extension/></Extension></Extensions>', '<UANodeSet><UAObject NodeId="i=4714" BrowseName="no"/></UANodeSet>',
                '<Aliases><Alias Alias="Organizes">i=4715</Alias></Aliases>']) + st.gap() + st.end('Extension'))
        o.append(st.gap() + st.end('Extensions'))
    for n in f.nodes:
        o.append(st.gap(True))
        a = [('NodeId', id_str(f, std(n.id))), ('BrowseName', qn_str(f, std(n.bn)))]
        if n.parent is not None:
            a.append(('ParentNodeId', id_str(f, std(n.parent))))
        if n.datatype is not None:
            a.append(('DataType', ref_id(n.datatype)))
        a += list(n.attrs.items())
        if st.r and st.unknown and st.r.random() < st.unknown:
            a.append(('SymbolicName', 'sym'))
            if st.r.random() < .1:
                a = [('a%d' % k, str(k)) for k in range(st.r.choice([6, 16, 40]))] + a
        o.append(st.start(TAG[n.cls], a))
        blocks = node_blocks(f, n, st, ref_id)
        order = SCHEMA
        if st.r and st.node_order == 'late':
            order = [b for b in SCHEMA if b != 'Extensions'] + ['Extensions']
        elif st.r and st.node_order == 'any':
            order = st.r.sample(SCHEMA, len(SCHEMA))
        for b in order:
            o += blocks.get(b, [])
        o.append(n.extra)
        o.append(st.gap() + st.end(TAG[n.cls]))
    o.append(st.gap(True) + st.end('UANodeSet'))
    o.append(st.ws)
    return ''.join(o).encode('utf-8')


# ---------------------------------------------------------------- expected projections

class World:
    """Files loaded into one loader, with the caller's namespace indices."""
    def __init__(self):
        self.files = []
        self.idx = {UA_URI: 0, '': 0}   # uri -> global index
        self.hier = set()               # custom hierarchical types
        self.kinds = None               # caller's reference service: type -> 'H' | 'N' | 'T'

    def gid(self, i):
        uri, k, v = i
        if k == 'b':
            v = v.hex()
        elif k == 'g':
            v = v.lower()
        return '%d;%s=%s' % (self.idx[uri], k, v)

    def nodes(self):
        for f in self.files:
            for n in f.nodes:
                yield n

    def is_td(self, rt):
        return self.kinds.get(rt) == 'T' if self.kinds is not None else rt == I(40)

    def is_hier(self, rt):
        if self.kinds is not None:
            return self.kinds.get(rt) == 'H'
        return (rt[0] == '' and rt[2] in HIER0_ALL) or rt in self.hier


NULLID = '0;i=0'
CORE_ATTRS = {c: list(ATTRS[c]) for c in ATTRS}


def exp_text(t):
    if t is None:
        return [None, None]
    return [t[0], t[1] if t[1] else None]


def exp_node(w, n):
    """What iteration has to deliver for the attributes of a node."""
    e = {'id': w.gid(n.id), 'cls': n.cls, 'bns': w.idx[n.bn[0]], 'bn': n.bn[1], 'dn': exp_text(n.dn), 'desc': exp_text(n.desc),
         'inst': n.cls in INSTANCE}
    for a, d in ATTRS[n.cls].items():
        e[a] = n.attrs.get(a, d)
    if n.cls in (VARIABLE, VARTYPE):
        e['DataType'] = w.gid(n.datatype) if n.datatype is not None else '0;i=24'
    if n.cls == REFTYPE:
        e['inv'] = exp_text(n.inv)
    if n.cls in INSTANCE:
        e['parent'] = w.gid(n.parent) if n.parent is not None else NULLID
    return e


def exp_data(t, force_complex=False):
    name, attrs, text, kids = t
    name = name.split(':')[-1]
    if kids or force_complex:
        return {'n': name, 'c': [exp_data(k) for k in kids]}
    return {'n': name, 'p': text if text is not None and text.strip(' \t\r\n\v\f') else None}


def local(t):
    return t[0].split(':')[-1]


def exp_value(n):
    if n.value is None or n.cls != VARIABLE:
        return None
    if not n.value:
        return {'isArray': False, 'isExt': False, 'type': None, 'data': None}
    t = n.value[0]

    def ext(e):
        tid, body = None, None
        for k in e[3]:
            if local(k) == 'TypeId':
                for j in k[3]:
                    if local(j) == 'Identifier':
                        tid = j[2] or None
            if local(k) == 'Body' and k[3]:
                body = k[3][0]
        return tid, body
    if local(t).startswith('ListOf'):
        if t[3] and local(t[3][0]) == 'ExtensionObject':
            kids = []
            tid = None
            for e in t[3]:
                tid, b = ext(e)
                kids.append(exp_data(b))
            return {'isArray': True, 'isExt': True, 'type': tid, 'data': {'n': local(t), 'c': kids}}
        return {'isArray': True, 'isExt': False, 'type': local(t[3][0]) if t[3] else None, 'data': exp_data(t, True)}
    if local(t) == 'ExtensionObject':
        tid, b = ext(t)
        return {'isArray': False, 'isExt': True, 'type': tid, 'data': exp_data(b, True) if b else None}
    return {'isArray': False, 'isExt': False, 'type': local(t), 'data': exp_data(t)}


def exp_def(w, n):
    d = n.definition
    if d is None or n.cls != DATATYPE:
        return None
    opt = d.get('IsOptionSet') == 'true'
    en = not opt and any(f.get('Value') is not None for f in d['fields'])
    fields = []
    if not opt:
        for f in d['fields']:
            if f.get('Value') is not None:
                fields.append([f['name'], None, None, int(f['Value']), None])
            else:
                fields.append([f['name'], w.gid(f['dt']) if f.get('dt') is not None else '0;i=24', int(f.get('ValueRank', '-1')), None, f.get('IsOptional') == 'true'])
    return {'isEnum': en, 'isUnion': d.get('IsUnion') == 'true', 'isOptionSet': opt, 'fields': fields}


def def_equal(e, g):
    if e is None or g is None:
        return e is None and g is None
    if [e[k] for k in ('isEnum', 'isUnion', 'isOptionSet')] != [g[k] for k in ('isEnum', 'isUnion', 'isOptionSet')]:
        return False
    if len(e['fields']) != len(g['fields']):
        return False
    return all(all(a is None or a == b for a, b in zip(x, y)) for x, y in zip(e['fields'], g['fields']))


def exp_refs(w, n):
    """(hierarchical, nonhierarchical, typedef) multisets of declared references."""
    h, nh, td = [], [], []
    for rt, tg, fw in n.refs:
        rec = [w.gid(rt), w.gid(tg), fw]
        if w.is_td(rt) and n.cls in (OBJECT, VARIABLE):
            td.append(rec)
        elif w.is_hier(rt):
            h.append(rec)
        else:
            nh.append(rec)
    return h, nh, td


def declares_hier(w, n):
    return any(w.is_hier(rt) for rt, tg, fw in n.refs)


def exp_parent_link(w, n):
    """None, or the list of acceptable synthetic links of a node that only names its parent."""
    if n.cls not in INSTANCE or n.parent is None or declares_hier(w, n):
        return None
    acc = []
    pos = {m.id: k for k, m in enumerate(w.nodes())}
    hc = [w.gid(I(47)), w.gid(n.parent), False]
    p = next((m for m in w.nodes() if m.id == n.parent), None)
    if p is not None:
        for rt, tg, fw in p.refs:
            if tg == n.id and w.is_hier(rt):
                acc.append([w.gid(rt), w.gid(n.parent), not fw])
    if not acc:
        return [hc]
    # "already declared": the parent was completely known when the child was read
    early = pos[p.id] < pos[n.id]
    plain = all(rt[0] == '' for m in (n, p) for rt, tg, fw in m.refs)
    if not (early and plain):
        acc.append(hc)
    return acc


# ---------------------------------------------------------------- generation

WORDS = ['Pump', 'valve', 'Motor_1', 'Größe', '温度', 'a b', 'x&y', '<tag>', 'q"uote', "ap'os", 'semi;colon', 'eq=ual', '%s%n%d', 'Ωmega', '\U0001F600', 'UAObject', 'ns=1', 'i=85',
         'Very' * 20, '.', '-', '0', 'true', '[1]', 'c:\\path', 'http://u/p?q=1&r=2']


class Gen:
    def __init__(self, r):
        self.r = r
        self.seq = 0
        self.given = []
        self.zero = False

    def text(self, ws=True):
        r = self.r
        s = ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3, 8 if r.random() < 0.2 else 1])))
        if ws and r.random() < 0.1:
            s = r.choice([' ', '\n', '\t ', '\r']) + s + r.choice(['', ' ', '\n'])
        if r.random() < 0.02:
            s += 'L' * (r.randint(1000, 5000) if r.random() < 0.97 else r.choice([65534, 65535, 65536, 70000, 200000]))
        return s

    def uri(self, k):
        return self.r.choice(['http://example.org/%d/', 'urn:verif:%d', 'http://a.b/ü/%d?x=1&y=2', 'tag:%d <>']) % k

    def new_id(self, uri, pool=LOOKALIKE, some=0.16):
        r = self.r
        self.seq += 1
        c = r.random()
        if self.zero and c > .97 and uri not in ('', UA_URI) and (uri, 'i', 0) not in self.given:
            # servers regard it as a request for a new id
            self.given.append((uri, 'i', 0))
            return uri, 'i', 0
        if c < some:
            # look-alikes: numbers of well-known nodes, ids of other namespaces, other spellings
            if c < some * 0.6 or not self.given:
                i = (uri, 'i', r.choice(pool))
            else:
                _, k, v = r.choice(self.given)
                i = (uri, k, v.swapcase() if k == 's' and r.random() < .5 else v)
            if uri and i not in self.given:
                self.given.append(i)
                return i
        i = self.fresh_id(uri, r.random())
        self.given.append(i)
        return i

    def fresh_id(self, uri, c):
        r = self.r
        if c < 0.6:
            return (uri, 'i', r.choice([self.seq + 1000, self.seq + 1000, 4000000000 + self.seq]))
        if c < 0.88:
            return (uri, 's', '%s%d' % (r.choice(['n', 'My.Node.', 'ü', 'a;b=', 'with space ', 'x:y', '"', "'", '<&>']), self.seq))
        if c < 0.96:
            return (uri, 'g', '%08x-%04x-%04x-%04x-%012x' % (r.choice([0, r.getrandbits(32)]), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), self.seq))
        return (uri, 'b', bytes(r.getrandbits(8) for _ in range(r.randint(1, 9))) + self.seq.to_bytes(4, 'big'))

    def ltext(self):
        r = self.r
        c = r.random()
        loc = r.choice([None, 'en', 'de-DE', '', 'en-US'])
        if c < 0.15:
            return None
        if c < 0.2:
            return (loc, None)
        return (loc, self.text())

    def attrs(self, n):
        r = self.r
        for a in ATTRS[n.cls]:
            if r.random() < 0.4:
                n.attrs[a] = attr_value(r, a)

    # value trees ------------------------------------------------------------
    def scalar(self, pre):
        r = self.r
        t = r.choice(['Boolean', 'Int32', 'String', 'Double', 'ByteString', 'DateTime', 'LocalizedText', 'Guid', 'NodeId', 'QualifiedName', 'XmlElement', 'Byte'])
        return self.scalar_of(pre, t)

    def scalar_of(self, pre, t):
        r = self.r
        P = pre
        tx = lambda: r.choice([None, ' ', '\n ', self.text(), '5', 'true', '-1', self.text()])
        if t == 'LocalizedText':
            k = [[P + 'Locale', [], r.choice([None, 'en']), []], [P + 'Text', [], tx(), []]]
            if r.random() < 0.3:
                k = k[r.randint(0, 1):][:1]
            return [P + t, [], None, k]
        if t == 'Guid':
            return [P + t, [], None, [[P + 'String', [], '00000000-0000-0000-0000-%012x' % r.getrandbits(40), []]]]
        if t in ('NodeId',):
            return [P + t, [], None, [[P + 'Identifier', [], r.choice(['i=85', 'ns=1;s=abc', None]), []]]]
        if t == 'QualifiedName':
            return [P + t, [], None, [[P + 'NamespaceIndex', [], '1', []], [P + 'Name', [], tx(), []]]]
        return [P + t, [], tx(), []]

    def struct(self, pre, depth, name=None):
        r = self.r
        name = name or r.choice(['Argument', 'MyStruct', 'Range', 'S1', 'Body', 'Value', 'ListOfFoo', 'Name'])
        kids = []
        for _ in range(r.randint(0, 5)):
            c = r.random()
            if depth > 0 and c < 0.3:
                kids.append(self.struct(pre, depth - 1, r.choice([None, name])))
            elif c < 0.4:
                kids.append([pre + r.choice(['Members', 'ListOfInt32', 'ArrayDimensions']), [], None, [[pre + 'Int32', [], str(k), []] for k in range(r.randint(0, 4))]])
            elif c < 0.5:
                kids.append(self.scalar(pre))
            else:
                kids.append([pre + r.choice(['Name', 'DataType', 'ValueRank', 'x', 'TypeId', 'Identifier', 'Body', name]), [], r.choice([None, '  ', self.text(), '7']), []])
        return [pre + name, [], None, kids]

    def ext_object(self, pre, depth, tid=None, name=None):
        r = self.r
        tid = tid or r.choice(['i=297', 'ns=1;i=5001', 'ns=2;s=enc'])
        b = self.struct(pre, depth, name)
        while not b[3]:
            b = self.struct(pre, depth, name)
        return [pre + 'ExtensionObject', [], None, [[pre + 'TypeId', [], None, [[pre + 'Identifier', [], tid, []]]], [pre + 'Body', [], None, [b]]]]

    def value(self):
        r = self.r
        pre = r.choice(['', 'uax:'])
        c = r.random()
        if c < 0.04:
            return []
        if c < 0.4:
            return [self.scalar(pre)]
        if c < 0.65:
            t = r.choice(['Int32', 'String', 'LocalizedText', 'Boolean', 'NodeId', 'Guid', 'Double', 'QualifiedName'])
            return [[pre + 'ListOf' + t, [], None, [self.scalar_of(pre, t) for _ in range(r.choice([0, 1, 2, 5, 30]))]]]
        if c < 0.85:
            return [self.ext_object(pre, r.randint(0, 4))]
        tid = r.choice(['i=297', 'ns=1;i=5001'])
        return [[pre + 'ListOfExtensionObject', [], None, [self.ext_object(pre, r.randint(0, 3), tid, 'Argument') for _ in range(r.choice([1, 2, 4]))]]]

    def ext_tree(self, depth):
        r = self.r
        name = r.choice(['Ext', 'a:b', 'Meta', 'Info', 'UAObject', 'Value', 'Extensions', 'Reference', 'x', 'Extension'])
        attrs = []
        if ':' in name:
            attrs.append(('xmlns:a', 'urn:ext'))
        for k in range(r.choice([0, 0, 1, 3])):
            attrs.append((r.choice(['p', 'q', 'NodeId', 'ö']) + str(k), self.text(False)))
        if depth <= 0 or r.random() < 0.5:
            return [name, attrs, r.choice([None, self.text(), self.text()]), []]
        return [name, attrs, None, [self.ext_tree(depth - 1) for _ in range(r.randint(1, 3))]]

    # whole worlds -----------------------------------------------------------
    def world(self, nfiles=1, nnodes=30, custom_refs=True, aliases=True, values=True, definitions=True, exts=False, parents=True, nns=None,
              shuffle=True, perm=True, deep=False, classes=None, extra_hier=0.3):
        r = self.r
        self.zero = True
        w = World()
        nns = nns if nns is not None else r.randint(1, 4)
        uris = []
        while len(uris) < nns:
            u = self.uri(len(uris) + r.randint(0, 3) * 10)
            if u not in uris:
                uris.append(u)
        gl = list(range(2, 2 + nns)) if not perm else r.sample(range(1, 60000), nns)
        for u, g in zip(uris, gl):
            w.idx[u] = g
        for fi in range(nfiles):
            us = list(uris)
            r.shuffle(us)
            if r.random() < 0.2:
                us.insert(r.randint(0, len(us)), UA_URI)
            w.files.append(File(us))
        topo = []   # nodes in a topological order of the hierarchy
        foreign = [I(85), I(58), I(61), I(63), I(22), I(24), (r.choice(uris), 's', 'foreign'), (uris[0], 'i', 77)]
        rtypes = []
        nrt = r.choice([0, 1, 3, 8]) if custom_refs else 0
        cls_pool = classes or [OBJECT] * 6 + [VARIABLE] * 6 + [METHOD] * 2 + [OBJECTTYPE, DATATYPE, VARTYPE, VIEW]
        for k in range(nrt):
            n = Node(REFTYPE, self.new_id(r.choice(uris), LOOKALIKE_REF, 0.3))
            sup = r.choice([I(33), I(47), I(35), I(32), I(46), I(45), I(r.choice(HIER0 + NONHIER0))] + [x.id for x in rtypes] * 2)
            n.refs.append([I(45), sup, False])
            if w.is_hier(sup):
                w.hier.add(n.id)
            rtypes.append(n)
            topo.append(n)
        nonh = [I(x) for x in NONHIER0] + [n.id for n in rtypes if n.id not in w.hier]
        hier = [I(x) for x in HIER0] + sorted(w.hier)
        others = []
        for k in range(nnodes):
            n = Node(r.choice(cls_pool), self.new_id(r.choice(uris)))
            others.append(n)
            cand = [m for m in topo if m.cls != REFTYPE]
            mode = r.random()
            if cand and (r.random() < 0.85):
                p = cand[-1] if deep and r.random() < 0.8 else r.choice(cand)
                pid = p.id
            else:
                p = None
                pid = r.choice(foreign)
            rt = r.choice(hier if r.random() < 0.6 else [I(47), I(35), I(46)])
            if n.cls in INSTANCE and parents and mode < 0.25:
                n.parent = pid
                if p is not None and r.random() < 0.3:
                    p.refs.append([rt, n.id, True])
            elif mode < 0.65 or p is None:
                n.refs.append([rt, pid, False])
                if n.cls in INSTANCE and r.random() < 0.4:
                    n.parent = pid
            elif mode < 0.85:
                p.refs.append([rt, n.id, True])
            elif mode < 0.95:
                n.refs.append([rt, pid, False])
                p.refs.append([rt, n.id, True])
            if cand and r.random() < extra_hier:
                q = r.choice(cand)
                if r.random() < 0.5:
                    n.refs.append([r.choice(hier), q.id, False])
                else:
                    q.refs.append([r.choice(hier), n.id, True])
            topo.append(n)
        # the parent-id-only rule looks at the node's own hierarchical references; fine as generated
        for n in topo:
            n.bn = (r.choice(uris + ['']), r.choice(['Name%d' % r.randint(0, 99), self.text(False), 'with:colon:%d' % r.randint(0, 9), '7:seven', '1:', ':x']))
            n.dn, n.desc = self.ltext(), self.ltext()
            if n.cls == REFTYPE:
                n.inv = self.ltext()
            self.attrs(n)
            if n.cls in (VARIABLE, VARTYPE) and r.random() < 0.8:
                n.datatype = r.choice([I(1), I(6), I(12), I(24), I(22), (r.choice(uris), 'i', 3000), (r.choice(uris), 's', 'DT')] + [m.id for m in topo if m.cls == DATATYPE])
            if n.cls in (OBJECT, VARIABLE) and r.random() < 0.8:
                n.refs.append([I(40), r.choice([I(58), I(61), I(63), I(68)] + [m.id for m in topo if m.cls in (OBJECTTYPE, VARTYPE)]), True])
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                rec = [r.choice(nonh), r.choice(foreign + [m.id for m in topo]), r.random() < 0.7]
                n.refs.append(rec)
            if r.random() < 0.05 and n.refs:
                pass
            r.shuffle(n.refs)
            if values and n.cls == VARIABLE and r.random() < 0.6:
                n.value = self.value()
            if definitions and n.cls == DATATYPE and r.random() < 0.8:
                n.definition = self.definition(uris, topo)
            if exts and r.random() < 0.4:
                n.exts = [[self.ext_tree(3) for _ in range(r.randint(0, 3))] for _ in range(r.choice([1, 1, 1, 2]))]
        # place nodes in files
        order = others[:]
        if shuffle:
            r.shuffle(order)
        slots = [[] for _ in range(nfiles)]
        for n in order:
            slots[r.randrange(nfiles)].append(n)
        if rtypes:
            # (file, position) pairs ascending for the reference types in declaration order
            marks = [(r.randrange(nfiles), r.random()) for _ in rtypes]
            if r.random() < 0.5:
                marks.sort()
            for (fi, x), n in zip(marks, rtypes):
                n._pos = (fi, x)
            for fi in range(nfiles):
                seq = [((k + 0.5) / max(1, len(slots[fi])), m) for k, m in enumerate(slots[fi])]
                seq += [(n._pos[1], n) for n in rtypes if n._pos[0] == fi]
                seq.sort(key=lambda t: t[0])
                slots[fi] = [m for _, m in seq]
        for f, s in zip(w.files, slots):
            f.nodes = s
            if aliases:
                self.aliases(w, f)
        w.topo = topo
        return w

    def aliases(self, w, f, count=None):
        r = self.r
        used = []
        for n in f.nodes:
            for rt, tg, fw in n.refs:
                used += [rt, tg]
            if n.datatype:
                used.append(n.datatype)
            if n.definition:
                used += [fl['dt'] for fl in n.definition['fields'] if fl.get('dt')]
        used = sorted(set(used), key=repr)
        r.shuffle(used)
        k = r.choice([0, 2, 10, len(used)])
        for i in used[:k]:
            for _ in range(r.choice([1, 1, 2])):
                f.aliases['%s%d' % (r.choice(['HasX', 'i', 'Ali as ', 'ns=1;', 'ä', 'Boolean', 'String']), len(f.aliases))] = i

    def definition(self, uris, topo):
        r = self.r
        d = {'name': 'D%d' % r.randint(0, 99), 'fields': []}
        kind = r.choice(['struct', 'struct', 'struct', 'enum', 'union', 'optionset', 'empty'])
        if kind == 'union':
            d['IsUnion'] = 'true'
        elif r.random() < 0.3:
            d['IsUnion'] = 'false'
        if kind == 'optionset':
            d['IsOptionSet'] = 'true'
        if kind == 'empty':
            return d
        for k in range(r.choice([1, 2, 3, 6, 20])):
            f = {'name': r.choice(['Field%d' % k, 'a&b%d' % k, 'ö%d' % k])}
            if kind in ('enum', 'optionset'):
                f['Value'] = r.choice(['%d', '%d', '%d', '%03d', '%+d', '%012d']) % r.choice([k, k * 10, -k, 2147483647 - k])
            else:
                if r.random() < 0.9:
                    f['dt'] = r.choice([I(1), I(6), I(12), I(11), (r.choice(uris), 'i', 3002), (r.choice(uris), 's', 'F&T')] + [m.id for m in topo if m.cls == DATATYPE])
                if r.random() < 0.5:
                    f['ValueRank'] = r.choice(['-1', '1', '2', '0', '-2', '01', '+1', '010'])
                if r.random() < 0.4:
                    f['IsOptional'] = r.choice(['true', 'false'])
                if r.random() < 0.1:
                    f['ArrayDimensions'] = '3'
            if r.random() < 0.2:
                f['doc'] = self.text()
            d['fields'].append(f)
        return d


def ns_script(w):
    return ['ns\t%s\t%d' % (u, i) for u, i in w.idx.items() if u]
