"""Reads nodeset files with an independent XML parser into the abstract model, so that real nodesets
(those of the repository) can be judged by the same checkers as the generated ones."""
import os
import xml.etree.ElementTree as ET
from model import *
from common import REPO

CLS = {t: c for c, t in enumerate(TAG)}


def _loc(e):
    return e.tag.split('}')[-1] if isinstance(e.tag, str) else ''


def _tree(e):
    kids = [_tree(k) for k in e if isinstance(k.tag, str)]
    return [_loc(e), [], None if kids else e.text, kids]


class Unsupported(Exception):
    pass


def read(doc):
    """File of a document; Unsupported when the document goes beyond what the model describes."""
    root = ET.fromstring(doc)
    f = File([])
    for s in root:
        if _loc(s) == 'NamespaceUris':
            f.uris = [(u.text or '') for u in s if _loc(u) == 'Uri']
    def pid(s):
        m = re.fullmatch(r'(?:ns=(\d+);)?([isgb])=(.*)', s or '', re.S)
        if not m:
            raise Unsupported('id %r' % s)
        n = int(m.group(1) or 0)
        if n > len(f.uris):
            raise Unsupported('namespace of %r' % s)
        v = m.group(3)
        v = int(v) if m.group(2) == 'i' else base64.b64decode(v) if m.group(2) == 'b' else v
        return (f.uris[n - 1] if n else '', m.group(2), v)
    for s in root:
        if _loc(s) == 'Aliases':
            for a in s:
                if _loc(a) == 'Alias':
                    f.aliases[a.get('Alias')] = pid(a.text)

    def ref(s):
        return f.aliases[s] if s in f.aliases else pid(s)

    def lt(e):
        return (e.get('Locale'), e.text)
    for s in root:
        if _loc(s) not in CLS:
            continue
        c = CLS[_loc(s)]
        n = Node(c, pid(s.get('NodeId')))
        b = s.get('BrowseName') or ''
        m = re.match(r'(\d+):', b)
        n.bn = (f.uris[int(m.group(1)) - 1] if m and int(m.group(1)) else '', b[m.end():] if m else b)
        if c in INSTANCE and s.get('ParentNodeId') is not None:
            n.parent = pid(s.get('ParentNodeId'))
        if c in (VARIABLE, VARTYPE) and s.get('DataType') is not None:
            n.datatype = ref(s.get('DataType'))
        for a in ATTRS[c]:
            if s.get(a) is not None:
                n.attrs[a] = s.get(a)
        for k in s:
            t = _loc(k)
            if t == 'DisplayName':
                if n.dn is not None:
                    n.more.setdefault('dn', []).append(n.dn)
                n.dn = lt(k)
            elif t == 'Description':
                if n.desc is not None:
                    n.more.setdefault('desc', []).append(n.desc)
                n.desc = lt(k)
            elif t == 'InverseName' and c == REFTYPE:
                n.inv = lt(k)
            elif t == 'References':
                for r in k:
                    if _loc(r) == 'Reference':
                        n.refs.append([ref(r.get('ReferenceType')), ref(r.text), r.get('IsForward', 'true') in ('true', '1')])
            elif t == 'Value':
                n.value = [_tree(v) for v in k if isinstance(v.tag, str)]
            elif t == 'Definition' and c == DATATYPE:
                n.definition = {'name': k.get('Name'), 'IsUnion': norm_bool(k.get('IsUnion')), 'IsOptionSet': norm_bool(k.get('IsOptionSet')), 'fields': []}
                for x in k:
                    if _loc(x) == 'Field':
                        fl = {'name': x.get('Name')}
                        if x.get('DataType') is not None:
                            fl['dt'] = ref(x.get('DataType'))
                        for a in ('ValueRank', 'Value'):
                            if x.get(a) is not None:
                                fl[a] = x.get(a)
                        if x.get('IsOptional') is not None:
                            fl['IsOptional'] = norm_bool(x.get('IsOptional'))
                        n.definition['fields'].append(fl)
        f.nodes.append(n)
    return f


def norm_bool(v):
    return {'1': 'true', '0': 'false'}.get(v, v)


def find_hier(w):
    """Custom reference types below hierarchical ones."""
    types = [n for n in w.nodes() if n.cls == REFTYPE]
    more = True
    while more:
        more = False
        for n in types:
            if not w.is_hier(n.id) and any(not fw and w.is_hier(rt) and w.is_hier(tg) for rt, tg, fw in n.refs):
                w.hier.add(n.id)
                more = True


def files():
    """name -> (document, File) of the readable nodeset files of the repository."""
    out = {}
    for dp, dn, fs in os.walk(REPO):
        dn[:] = sorted(x for x in dn if not x.startswith('.') and 'build' not in x)
        for x in sorted(fs):
            if not x.endswith('.xml'):
                continue
            with open(os.path.join(dp, x), 'rb') as fh:
                doc = fh.read()
            try:
                f = read(doc)
            except (ET.ParseError, Unsupported, ValueError, IndexError, TypeError):
                continue
            if f.nodes and len({n.id for n in f.nodes}) == len(f.nodes):
                out[os.path.relpath(os.path.join(dp, x), REPO)] = (doc, f)
    return out


def defines(f):
    return {n.id for n in f.nodes}


def needs(f):
    """URIs of namespaces a file uses but has no nodes in."""
    own = {n.id[0] for n in f.nodes}
    return {u for u in f.uris if u not in own and u not in ('', UA_URI)}


def sequences(fs):
    """Loadable sequences: every file after the files it refers to (None when one is missing)."""
    owner = {}
    for k, (doc, f) in sorted(fs.items()):
        for u in {n.id[0] for n in f.nodes}:
            owner.setdefault(u, []).append(k)
    out = []
    for k, (doc, f) in sorted(fs.items()):
        seq = []

        def visit(j, depth=0):
            if j in seq or depth > 6:
                return
            for u in sorted(needs(fs[j][1])):
                if u in owner and owner[u][0] != j:
                    visit(owner[u][0], depth + 1)
            if j not in seq:
                seq.append(j)
        visit(k)
        out.append(seq)
    return out


def worlds(r, cls=World, skip=()):
    """(name, world, documents as they are) of every loadable sequence, with random namespace indices."""
    fs = files()
    out = []
    for seq in sequences(fs):
        if any(s in k for k in seq for s in skip):
            continue
        w = cls()
        w.files = [fs[k][1] for k in seq]
        us = []
        for f in w.files:
            us += [u for u in f.uris if u not in us and u != UA_URI]
        for u, g in zip(us, r.sample(range(1, 60000), len(us))):
            w.idx[u] = g
        find_hier(w)
        out.append((seq[-1].split('/')[-1], w, [fs[k][0] for k in seq]))
    return out


def core_cases(run, tag, rounds=1, **kw):
    """The repository's own nodesets through the core API: as they are, and in random renderings."""
    import core
    from common import SEED
    out = []
    for k in range(rounds + 1):
        r = random.Random('reader/%s/%d/%d' % (tag, SEED, k))
        for name, w, docs in worlds(r):
            out.append(core.world_case(run, w, Style(r) if k else None, docs=None if k else docs, tag='%s/real %s' % (tag, name), **kw))
    return out


# ---------------------------------------------------------------- through the backend

def typify(w):
    """Natural layouts of the data types a world declares (None where the model does not say)."""
    import typed
    from typed import Ty, Mem, BUILTIN, ABSTRACT0, STD_SUB, STRUCTURE, OPTSTRUCT, UNION, ENUM
    nodes = {n.id: n for n in w.nodes() if n.cls == DATATYPE}
    ty, enc = {}, {}
    for n in w.nodes():
        if n.cls == OBJECT and n.bn == ('', 'Default Binary'):
            for rt, tg, fw in n.refs:
                if rt == I(38) and not fw:
                    enc[tg] = n.id
    binary = {n.id for n in w.nodes() if n.cls == OBJECT and n.bn == ('', 'Default Binary')}
    for n in nodes.values():
        for rt, tg, fw in n.refs:
            if rt == I(38) and fw and tg in binary:
                enc[n.id] = tg

    def std(i):
        return BUILTIN.get(i[2]) if i[0] == '' and i[1] == 'i' else None

    def member(i, of):
        if i[0] == '':
            return BUILTIN[24] if i[2] in ABSTRACT0 else std(i)
        n = nodes.get(i)
        if n is None:
            return None
        if n.attrs.get('IsAbstract') in ('true', '1'):
            return BUILTIN[24]
        return make(n)

    def make(n):
        if n.id in ty:
            return ty[n.id]
        sup = [tg for rt, tg, fw in n.refs if rt == I(45) and not fw]
        ty[n.id] = t = Ty(n.id, STRUCTURE, n.dn[1] if n.dn and n.dn[1] else n.bn[1])
        t.abstract, t.opts, t.judged = n.attrs.get('IsAbstract') in ('true', '1'), False, False
        t.base = None
        if len(sup) != 1:
            return t
        s = sup[0]
        p = make(nodes[s]) if s in nodes else None
        d = n.definition
        if p is not None and not p.judged or p is None and s[0] != '':
            return t
        if s == I(29) or p is not None and p.kind == ENUM:
            t.kind, t.size, t.align, t.xml = ENUM, 4, 4, 'Int32'
            t.judged = True
        elif s == I(12755):
            t.mem = [Mem('Value', BUILTIN[15]), Mem('ValidBits', BUILTIN[15])]
            t.enc = enc.get(n.id)
            t.judged = bool(t.layout())
        elif s in (I(22), I(12756)) or p is not None and p.base is None or p is None and std(s) is not None and std(s).mem is not None:
            sp = p or std(s)
            inh = [Mem(m.name, m.ty, m.arr, m.opt) for m in (sp.mem if s not in (I(22), I(12756)) else None) or []]
            un = s == I(12756) or bool(d) and d.get('IsUnion') == 'true' or p is not None and p.kind == UNION
            t.kind = UNION if un else STRUCTURE
            t.enc = enc.get(n.id)
            own = []
            for fl in (d or {'fields': []})['fields']:
                arr = fl.get('ValueRank', '-1') not in ('-1', '-2', '-3')
                opt = fl.get('IsOptional') == 'true'
                m = member(fl.get('dt', I(24)), t)
                if m is None or m is not t and not getattr(m, 'judged', True):
                    return t
                if 'dt' not in fl or un and opt or m is t and not (arr or opt):
                    return t
                own.append(Mem(fl.get('name'), m, arr, opt))
            t.mem = inh + own
            if t.kind == STRUCTURE and any(m.opt for m in t.mem):
                t.kind = OPTSTRUCT
            t.judged = bool(t.layout()) and t.size < 65536 and len(t.mem) < 256
        else:
            b = p.base if p is not None else BUILTIN.get(STD_SUB.get(s[2], 24 if s[2] in ABSTRACT0 else s[2])) if s[1] == 'i' else None
            if b is None or b.mem is not None:
                return t
            t.kind, t.size, t.align, t.pf, t.base, t.xml = b.kind, b.size, b.align, b.pf, b, b.xml
            t.judged = True
        return t
    for n in nodes.values():
        n.ty = make(n)
    return nodes


class Undecided(Exception):
    pass


def decode(f, ty, e):
    """Expected content of a value element of type ty, decoded independently of the library."""
    import typed, datetime
    name, _, text, kids = e
    kid = {}
    for k in kids:
        kid.setdefault(k[0], k)
    t = text if text is not None and text.strip() else None

    def sub(n):
        x = kid[n][2] if n in kid else None
        return x if x is not None and x.strip() else None
    k = ty.kind
    if not ty.supported():
        raise Undecided
    if k in (typed.STRUCTURE, typed.OPTSTRUCT):
        if len(kid) != len(kids):
            raise Undecided
        exp = {}
        for m in ty.mem or []:
            if m.name not in kid:
                exp[m.name] = None if m.arr or m.opt else typed.default(m.ty)
            else:
                exp[m.name] = decode_member(f, m, kid[m.name])
        return exp
    if k == typed.UNION:
        if 'SwitchField' not in kid:
            raise Undecided
        sel = int(kid['SwitchField'][2])
        if not sel:
            return {'#sel': 0}
        m = ty.mem[sel - 1]
        if m.name not in kid:
            raise Undecided
        return {'#sel': sel, 'v': decode_member(f, m, kid[m.name])}
    if k == typed.STATUSCODE:
        return int(sub('Code') or 0)
    if k == typed.GUID:
        return '0;g=' + sub('String').lower() if sub('String') else typed.NULLGUID
    if k == typed.NODEID:
        m = re.fullmatch(r'(?:ns=(\d+);)?([isgb])=(.*)', sub('Identifier') or '', re.S)
        if not m or int(m.group(1) or 0) > len(f.uris):
            raise Undecided
        v = m.group(3)
        v = int(v) if m.group(2) == 'i' else base64.b64decode(v) if m.group(2) == 'b' else v.lower() if m.group(2) == 'g' else v
        return ('id', (f.uris[int(m.group(1)) - 1] if int(m.group(1) or 0) else '', m.group(2), v))
    if k == typed.QUALIFIEDNAME:
        n = int(sub('NamespaceIndex') or 0)
        if n > len(f.uris):
            raise Undecided
        return ('qn', f.uris[n - 1] if n else '', sub('Name'))
    if k == typed.LOCALIZEDTEXT:
        return [sub('Locale'), sub('Text')]
    if kids:
        raise Undecided
    if k in (typed.STRING, typed.XMLELEMENT):
        return t
    if k == typed.BYTESTRING:
        t = re.sub(r'\s', '', t or '')
        if not re.fullmatch(r'[A-Za-z0-9+/]*={0,2}', t) or len(t) % 4:
            raise Undecided
        return base64.b64decode(t).hex() or None
    if t is None:
        return typed.default(ty)
    t = t.strip()
    if k == typed.BOOLEAN:
        return t in ('true', '1')
    if k in typed.INTS:
        return int(t)
    if k == typed.ENUM:
        return int(t.split('_')[-1])
    if k in (typed.FLOAT, typed.DOUBLE):
        return ('f', float(t.replace('INF', 'inf')), k)
    if k == typed.DATETIME:
        m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?Z?', t)
        if not m or int(m.group(1)) < 1601:
            raise Undecided
        g = [int(x) for x in m.groups()[:6]]
        days = (datetime.date(*g[:3]) - datetime.date(1601, 1, 1)).days
        return (((days * 24 + g[3]) * 60 + g[4]) * 60 + g[5]) * 10 ** 7 + int(((m.group(7) or '') + '0000000')[:7])
    raise Undecided


def decode_member(f, m, e):
    if m.arr:
        return [decode(f, m.ty, x) for x in e[3]] or None
    return decode(f, m.ty, e)


def expect_values(w):
    """Decodes the values of a world's variables (after typify); returns how many are decided."""
    import typed
    nodes = {n.id: n.ty for n in w.nodes() if n.cls == DATATYPE}
    done = 0
    for f in w.files:
        for n in f.nodes:
            n.expect = None
            if n.cls != VARIABLE or n.value is None or len(n.value) != 1 or n.datatype is None:
                continue
            i = n.datatype
            ty = nodes.get(i)
            if ty is None and i[0] == '' and i[1] == 'i':
                ty = typed.BUILTIN.get(typed.STD_SUB.get(i[2], i[2]))
            if ty is None or not getattr(ty, 'judged', True) or getattr(ty, 'abstract', False) or not ty.supported():
                continue
            v = n.value[0]
            arr = v[0].startswith('ListOf')
            if arr != (int(n.attrs.get('ValueRank', '-1')) >= 1):
                continue
            structured = ty.kind in (typed.STRUCTURE, typed.OPTSTRUCT, typed.UNION)
            try:
                el = []
                for x in v[3] if arr else [v]:
                    if structured:
                        body = [k for k in x[3] if k[0] == 'Body']
                        if x[0] != 'ExtensionObject' or len(body) != 1 or len(body[0][3]) != 1 or not body[0][3][0][3]:
                            raise Undecided
                        x = body[0][3][0]
                    elif x[0] == 'ExtensionObject':
                        raise Undecided
                    el.append(decode(f, ty, x))
            except (Undecided, ValueError, IndexError, OverflowError):
                continue
            if structured and not el or not arr and v[2] is None and not v[3] and ty.kind not in (typed.STRING, typed.BYTESTRING, typed.LOCALIZEDTEXT):
                continue
            n.expect = {'t': ty.id, 'k': ty.kind, 'arr': arr, 'v': el if arr else el[0]}
            done += 1
    return done


def back_cases(run, tag, rounds=1, types=False, values=False):
    """The repository's own nodesets through the backend."""
    import backend
    from common import SEED
    known = {I(k) for k in backend.NS0}
    out = []
    for k in range(rounds + 1):
        r = random.Random('readerb/%s/%d/%d' % (tag, SEED, k))
        for name, w, docs in worlds(r, backend.BWorld, skip=('Opc.Ua.NodeSet2.xml', '/references.xml')):
            have = known | {n.id for n in w.nodes()}
            for n in w.nodes():     # references to nothing are not claimed
                n.refs = [x for x in n.refs if x[1] in have]
            if types or values:
                typify(w)
            if values:
                expect_values(w)
            out.append(backend.bcase(run, w, Style(r) if k else None, tag='%s/real %s' % (tag, name)))
    return out
