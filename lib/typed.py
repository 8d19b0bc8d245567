"""Data types with their natural C layout, and values of them."""
import base64, math, struct, re, subprocess, os
from collections import Counter
from common import *
from model import *

(BOOLEAN, SBYTE, BYTE, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT, DOUBLE, STRING, DATETIME, GUID, BYTESTRING, XMLELEMENT, NODEID, EXPANDEDNODEID, STATUSCODE,
 QUALIFIEDNAME, LOCALIZEDTEXT, EXTENSIONOBJECT, DATAVALUE, VARIANT, DIAGNOSTICINFO, DECIMAL, ENUM, STRUCTURE, OPTSTRUCT, UNION) = range(30)


class Mem:
    __slots__ = ('name', 'ty', 'arr', 'opt', 'pad', 'elem')

    def __init__(self, name, ty, arr=False, opt=False):
        self.name, self.ty, self.arr, self.opt, self.pad = name, ty, arr, opt, 0

    def size(self):
        return 16 if self.arr else 8 if self.opt else self.ty.size

    def align(self):
        return 8 if self.arr or self.opt else self.ty.align


class Ty:
    """A type as its C counterpart would be laid out (LP64)."""
    def __init__(self, id_, kind, name, size=0, align=1, pf=True, ctype=None, xml=None):
        self.id, self.kind, self.name, self.size, self.align, self.pf = id_, kind, name, size, align, pf
        self.mem = None
        self.ctype = ctype        # C type of a standard type
        self.xml = xml or name    # element name of a value
        self.enc = None           # id of the default binary encoding
        self.abstract = False
        self.base = None
        self.done = True
        self.syms = []

    def layout(self):
        """Natural C layout; True when possible (members by value complete)."""
        if self.kind not in (STRUCTURE, OPTSTRUCT, UNION):
            return True
        for m in self.mem or []:
            if not m.arr and not m.opt and not m.ty.done:
                return False
        self.done = True
        if not self.mem:
            self.size, self.align, self.pf = 8, 8, True
            return True
        self.pf = all(not m.arr and not m.opt and m.ty.pf for m in self.mem)
        if self.kind == UNION:
            fa = max(m.align() for m in self.mem)
            off = (4 + fa - 1) // fa * fa
            self.align = max(4, fa)
            end = off + max(m.size() for m in self.mem)
            for m in self.mem:
                m.pad = off
        else:
            end = 0
            self.align = max(m.align() for m in self.mem)
            for m in self.mem:
                m.pad = -end % m.align()
                end += m.pad + m.size()
        self.size = end + -end % self.align
        return True

    def supported(self):
        return self.kind not in (XMLELEMENT, EXPANDEDNODEID, EXTENSIONOBJECT, DATAVALUE, VARIANT, DIAGNOSTICINFO, DECIMAL)

    def deep_supported(self, d=0):
        return self.supported() and all(m.ty.supported() for m in self.mem or [])


def _b(i, name, kind, size, align, pf, ct=None):
    return Ty(I(i), kind, name, size, align, pf, 'UA_' + (ct or name))


BUILTIN = {t.id[2]: t for t in [
    _b(1, 'Boolean', BOOLEAN, 1, 1, 1), _b(2, 'SByte', SBYTE, 1, 1, 1), _b(3, 'Byte', BYTE, 1, 1, 1), _b(4, 'Int16', INT16, 2, 2, 1), _b(5, 'UInt16', UINT16, 2, 2, 1),
    _b(6, 'Int32', INT32, 4, 4, 1), _b(7, 'UInt32', UINT32, 4, 4, 1), _b(8, 'Int64', INT64, 8, 8, 1), _b(9, 'UInt64', UINT64, 8, 8, 1), _b(10, 'Float', FLOAT, 4, 4, 1),
    _b(11, 'Double', DOUBLE, 8, 8, 1), _b(12, 'String', STRING, 16, 8, 0), _b(13, 'DateTime', DATETIME, 8, 8, 1), _b(14, 'Guid', GUID, 16, 4, 1), _b(15, 'ByteString', BYTESTRING, 16, 8, 0),
    _b(16, 'XmlElement', XMLELEMENT, 16, 8, 0), _b(17, 'NodeId', NODEID, 24, 8, 0), _b(18, 'ExpandedNodeId', EXPANDEDNODEID, 48, 8, 0), _b(19, 'StatusCode', STATUSCODE, 4, 4, 1),
    _b(20, 'QualifiedName', QUALIFIEDNAME, 24, 8, 0), _b(21, 'LocalizedText', LOCALIZEDTEXT, 32, 8, 0), _b(22, 'ExtensionObject', EXTENSIONOBJECT, 48, 8, 0),
    _b(23, 'DataValue', DATAVALUE, 80, 8, 0), _b(24, 'Variant', VARIANT, 48, 8, 0), _b(25, 'DiagnosticInfo', DIAGNOSTICINFO, 56, 8, 0)]}
for _i, _n in ((257, 'NodeClass'), (307, 'ApplicationType'), (852, 'ServerState'), (12077, 'AxisScaleEnumeration')):
    BUILTIN[_i] = Ty(I(_i), ENUM, _n, 4, 4, True, 'UA_' + _n, 'Int32')


def _s(i, enc, name, mem):
    t = Ty(I(i), STRUCTURE, name, ctype='UA_' + name)
    t.mem = [Mem(n, BUILTIN[x], arr) for n, x, arr in mem]
    t.enc = I(enc)
    t.layout()
    BUILTIN[i] = t


_s(296, 298, 'Argument', [('Name', 12, 0), ('DataType', 17, 0), ('ValueRank', 6, 0), ('ArrayDimensions', 7, 1), ('Description', 21, 0)])
_s(884, 886, 'Range', [('Low', 11, 0), ('High', 11, 0)])
_s(887, 889, 'EUInformation', [('NamespaceUri', 12, 0), ('UnitId', 6, 0), ('DisplayName', 21, 0), ('Description', 21, 0)])
_s(7594, 8251, 'EnumValueType', [('Value', 8, 0), ('DisplayName', 21, 0), ('Description', 21, 0)])
_s(8912, 8917, 'TimeZoneDataType', [('Offset', 4, 0), ('DaylightSavingInOffset', 1, 0)])
_s(12080, 12090, 'XVType', [('X', 11, 0), ('Value', 10, 0)])
_s(12079, 12089, 'AxisInformation', [('EngineeringUnits', 887, 0), ('EURange', 884, 0), ('Title', 21, 0), ('AxisScaleType', 12077, 0), ('AxisSteps', 11, 1)])
_s(12171, 12181, 'ComplexNumberType', [('Real', 10, 0), ('Imaginary', 10, 0)])
_s(12755, 12765, 'OptionSet', [('Value', 15, 0), ('ValidBits', 15, 0)])
ABSTRACT0 = [24, 26, 27, 28]            # standard types a member of which is a variant
STD_SUB = {290: 11, 294: 13, 295: 12}   # standard subtypes without a C type in the stand-in server


# ---------------------------------------------------------------- custom types

def decl(n, ty):
    n.ty = ty
    return n


class TGen:
    """Random custom types over files; self.w is a BWorld, types are declared as nodes of its files."""
    def __init__(self, r, g, w):
        self.r, self.g, self.w = r, g, w
        self.types = []     # all custom types so far
        self.k = 0
        w.ty = {}

    def name(self, p):
        self.k += 1
        return '%s%d' % (self.r.choice([p, p, 'Typ.', 'ä', 'My Type ', 'x_', 'a:B', 'T:9:']), self.k)

    def member_type(self, self_ty, done):
        r = self.r
        c = r.random()
        if c < .45 or not done:
            return BUILTIN[r.choice(range(1, 26))] if r.random() < .8 else BUILTIN[r.choice([257, 852, 296, 884, 887, 7594, 8912, 12080, 12079, 12171])]
        return r.choice(done)

    def fields(self, ty, n, done, union=False, first=0):
        r = self.r
        out = []
        for k in range(first, first + n):
            arr = r.random() < .25
            opt = not union and r.random() < .2
            t = self.member_type(ty, done)
            if (arr or opt) and r.random() < .08:
                t = ty
            out.append((r.choice(['f%d', 'Field_%d', 'm%d', 'ö%d', 'a b%d']) % k, t, arr, opt))
        return out

    def node(self, f, uri, ty, sup, definition, abstract=False):
        n = Node(DATATYPE, ty.id)
        n.bn = (uri, ty.name)
        n.dn = (None, ty.name)
        n.refs.append([I(45), sup, False])
        n.definition = definition
        if abstract:
            n.attrs['IsAbstract'] = self.r.choice(['true', '1', 'true', '1', ' true '])
            ty.abstract = True
        elif self.r.random() < .2:
            n.attrs['IsAbstract'] = self.r.choice(['false', '0', '0 '])
        n.ty = ty
        f.nodes.append(n)
        self.w.ty[ty.id] = ty
        return n

    def encoding(self, f, uri, ty, n):
        """Encoding objects of a structured type."""
        r = self.r
        if r.random() < .15:
            return
        many = r.random() < .3
        names = ['Default Binary'] + (r.sample(['Default XML', 'Default JSON', 'Default Foo'], r.randint(1, 3)) if many else [])
        r.shuffle(names)
        for nm in names:
            e = Node(OBJECT, self.g.new_id(r.choice([uri, uri] + [u for u in f.uris if u != UA_URI])))
            e.bn = ('', nm)
            e.dn = (None, nm)
            if nm == 'Default Binary':
                ty.enc = e.id
            c = r.random()
            if c < .7:
                e.refs.append([I(38), n.id, False])
            if c >= .7 or r.random() < .3:
                n.refs.append([I(38), e.id, True])
            e.refs.append([I(40), I(76), True])
            f.nodes.append(e)

    def file_types(self, f, count, kinds=None):
        """Adds count types to file f; members may use types of this and earlier files in any declaration order."""
        r, g = self.r, self.g
        uris = [u for u in f.uris if u != UA_URI]
        mine = []
        for _ in range(count):
            uri = r.choice(uris)
            kind = r.choice(kinds or ['struct'] * 6 + ['union'] * 2 + ['enum', 'simple', 'optionset', 'bits', 'derived', 'derived', 'empty', 'abstract', 'abstract2'])
            done = [t for t in self.types if not t.abstract or r.random() < .3]
            id_ = g.new_id(uri)
            T = lambda k, p: Ty(id_, k, self.name(p))
            wide = kind in ('wide', 'wideunion', 'huge')
            if kind == 'wideunion':
                kind = 'union'
            if wide or kind in ('struct', 'union', 'abstract', 'abstract2', 'derived'):
                ty = T(UNION if kind == 'union' else STRUCTURE, 'T')
                ty.done = False
                ty.abstract = kind.startswith('abstract')
                sup, inh = I(22), []
                if kind == 'union' and r.random() < .7:
                    sup = I(12756)
                if kind == 'derived':
                    cand = [t for t in self.types if t.kind in (STRUCTURE, OPTSTRUCT) and not t.opts]
                    p = r.choice(cand) if cand and r.random() < .85 else BUILTIN[r.choice([296, 884, 887, 12080])]
                    sup, inh = p.id, [Mem(m.name, m.ty, m.arr, m.opt) for m in p.mem or []]
                nf = r.choice([1, 1, 2, 3, 5, 9]) if kind != 'abstract' else 0
                if kind == 'derived' and r.random() < .15:
                    nf = 0
                nf = min(nf, (60 if len(inh) <= 60 else 255) - len(inh))
                if wide:
                    # at the limits of the descriptions: 255 members, 65535 bytes
                    nf = r.choice([61, 127, 128, 129, 200, 253, 254, 255, 255]) if kind != 'huge' else r.randint(1, 5)
                    done = []
                elif len(inh) > 60 or (kinds and 'wide' in kinds and inh and r.random() < .2):
                    done = []
                    nf = r.choice([nf, 255 - len(inh)])
                    if sum(m.size() for m in inh) > 40000:
                        nf = 0
                fl = self.fields(ty, nf, done, kind == 'union', len(inh))
                if kind == 'huge':
                    room = 65528 - 300 * len(fl)
                    cand = [t for t in self.types if t.kind in (STRUCTURE, OPTSTRUCT, UNION) and t.size > 1000 and not t.abstract]
                    while cand and len(fl) < 200:
                        t = r.choice(cand)
                        if t.size > room - 80:
                            break
                        room -= t.size
                        fl.append(('big%d' % len(fl), t, False, False))
                    while room > 80 and len(fl) < 255 and r.random() < .97:
                        t = r.choice([BUILTIN[23], BUILTIN[24], BUILTIN[8]])
                        fl.append(('fill%d' % len(fl), t, False, False))
                        room -= t.size
                ty.mem = inh + [Mem(a, self.as_member(t), arr, opt) for a, t, arr, opt in fl]
                while fl and kind != 'union' and ty.layout() and ty.size > 65535:
                    ty.done = False
                    fl.pop()
                    ty.mem.pop()
                ty.own = [Mem(a, t, arr, opt) for a, t, arr, opt in fl]
                if ty.kind == STRUCTURE and any(m.opt for m in ty.mem):
                    ty.kind = OPTSTRUCT
                d = {'name': ty.name, 'fields': []}
                if kind == 'union':
                    d['IsUnion'] = 'true'
                for a, t, arr, opt in fl:
                    x = {'name': a, 'dt': t.id if t.id != I(22) or True else None}
                    if t is BUILTIN[24] and r.random() < .3:
                        x['dt'] = I(r.choice(ABSTRACT0))
                    if arr:
                        x['ValueRank'] = r.choice(['1', '1', '2', '0'])
                    elif r.random() < .2:
                        x['ValueRank'] = r.choice(['-1', '-1', '-2', '-3'])
                    if opt:
                        x['IsOptional'] = 'true'
                    elif r.random() < .15:
                        x['IsOptional'] = 'false'
                    d['fields'].append(x)
                if not fl and r.random() < .6:
                    d = None
                n = self.node(f, uri, ty, sup, d, kind.startswith('abstract'))
                self.encoding(f, uri, ty, n)
                assert ty.layout() and ty.size < 65536 and len(ty.mem) < 256, (ty.size, len(ty.mem))
            elif kind == 'enum':
                ty = T(ENUM, 'E')
                ty.size, ty.align, ty.xml = 4, 4, 'Int32'
                cand = [t for t in self.types if t.kind == ENUM]
                vals = r.sample([0, 1, 2, 3, 10, 100, -1, -5, 2 ** 31 - 1, -2 ** 31, 77], r.randint(1, 6))
                ty.syms = [('S_%d' % k if k % 2 else 'Sym%d' % k, v) for k, v in enumerate(vals)]
                self.node(f, uri, ty, r.choice(cand).id if cand and r.random() < .3 else I(29), {'name': ty.name, 'fields': [{'name': s, 'Value': str(v)} for s, v in ty.syms]})
            elif kind == 'optionset':
                ty = T(STRUCTURE, 'O')
                ty.mem = [Mem('Value', BUILTIN[15]), Mem('ValidBits', BUILTIN[15])]
                d = {'name': ty.name, 'IsOptionSet': 'true' if r.random() < .8 else None, 'fields': [{'name': 'b%d' % k, 'Value': str(k)} for k in range(r.randint(1, 5))]}
                n = self.node(f, uri, ty, I(12755), d)
                self.encoding(f, uri, ty, n)
                ty.layout()
                ty.opts = True
            else:
                if kind == 'bits':
                    b = r.choice([3, 5, 7, 9])
                    d = {'name': 'B', 'IsOptionSet': 'true', 'fields': [{'name': 'b%d' % k, 'Value': str(k)} for k in range(r.randint(1, 5))]}
                    sup, base = I(b), BUILTIN[b]
                elif kind == 'empty':
                    b = r.choice(ABSTRACT0)
                    sup, base, d = I(b), BUILTIN[24], None
                else:
                    cand = [t for t in self.types if t.base is not None]
                    if cand and r.random() < .35:
                        p = r.choice(cand)
                        sup, base = p.id, p.base
                    elif r.random() < .25:
                        s = r.choice(sorted(STD_SUB))
                        sup, base = I(s), BUILTIN[STD_SUB[s]]
                    else:
                        b = r.choice(range(1, 24))
                        b = 24 if b == 22 else b
                        sup, base = I(b), BUILTIN[b]
                    d = None
                ty = T(base.kind, 'B')
                ty.size, ty.align, ty.pf, ty.base, ty.xml = base.size, base.align, base.pf, base, base.xml
                self.node(f, uri, ty, sup, d)
            if not hasattr(ty, 'opts'):
                ty.opts = False
            ty.file = self.w.files.index(f)
            self.types.append(ty)
            mine.append(ty)
        return mine

    def as_member(self, t):
        """Members of abstract types are variants."""
        return BUILTIN[24] if t.abstract else t


def exp_type(w, ty):
    """What the registered description has to say."""
    e = {'name': ty.name, 'kind': ty.kind, 'size': ty.size, 'pf': int(ty.pf),
         'mem': [[m.name, w.gid(m.ty.id), m.pad, int(m.arr), int(m.opt)] for m in ty.mem or []]}
    if ty.kind in (STRUCTURE, OPTSTRUCT, UNION):
        e['enc'] = w.gid(ty.enc) if ty.enc else NULLID
    elif ty.kind == ENUM:
        e['enc'] = NULLID
    return e


OVERLAY_KINDS = {BOOLEAN, SBYTE, BYTE, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT, DOUBLE, DATETIME, GUID, STATUSCODE}


def may_overlay(ty):
    """Whether the memory layout of a type is its binary encoding (on this machine)."""
    if ty.kind == ENUM or (ty.kind in INTS and not ty.mem):
        return True
    if ty.mem is None:
        return ty.kind in OVERLAY_KINDS
    if ty.kind != STRUCTURE or not ty.mem or getattr(ty, 'opts', False):
        return False
    return all(not m.arr and not m.opt and m.pad == 0 and may_overlay(m.ty) for m in ty.mem) and sum(m.size() for m in ty.mem) == ty.size


def check_types(chk, case, w, st, skip=()):
    """C16: registered descriptions against the natural layout."""
    exp = {w.gid(n.id): n.ty for n in w.nodes() if n.cls == DATATYPE and getattr(n, 'ty', None) is not None}
    got = Counter(t['id'] for t in st.types)
    want = Counter(list(exp) + [s for s in skip if s not in exp])
    if got != want:
        chk.violation('types', 'missing %s, unexpected or repeated %s' % (list((want - got).elements())[:4], list((got - want).elements())[:4]), case.replay())
    for t in st.types:
        if not t['found']:
            chk.violation('type-lookup', 'type %s is not found under its id' % t['id'], case.replay())
        ty = exp.get(t['id'])
        if ty is None or t['id'] in skip or not getattr(ty, 'judged', True):
            continue
        e = exp_type(w, ty)
        chk.count('types_compared')
        chk.count('members_compared', len(e['mem']))
        if t['ov'] and not may_overlay(ty):
            chk.violation('type:overlayable:kind%d' % ty.kind, '%s %s is registered as overlayable, its encoding differs from its memory layout' % (t['id'], ty.name), case.replay())
        for k, v in e.items():
            if t[k] != v:
                what = k
                if k == 'mem':
                    bad = [(a, b) for a, b in zip(v, t[k]) if a != b][:2]
                    detail = 'declared %s, registered %s' % (bad and [x[0] for x in bad] or v, bad and [x[1] for x in bad] or t[k])
                else:
                    detail = 'natural %r, registered %r' % (v, t[k])
                chk.violation('type:%s:%s' % (what, 'kind%d' % ty.kind), '%s %s: %s' % (t['id'], ty.name, detail), case.replay())


# ---------------------------------------------------------------- cross-check with a C compiler

def c_structs(tys):
    """C declarations of the custom types; members by value first."""
    out, names, state = [], {}, {}
    for k, t in enumerate(tys):
        names[id(t)] = 'struct S%d' % k if t.kind in (STRUCTURE, OPTSTRUCT, UNION) else None

    def cname(t):
        if names.get(id(t)):
            return names[id(t)]
        return t.ctype or ('UA_Int32' if t.kind == ENUM else t.base.ctype)

    def emit(t):
        if state.get(id(t)) or names.get(id(t)) is None:
            return
        state[id(t)] = 1
        for m in t.mem or []:
            if not m.arr and not m.opt:
                emit(m.ty)
        fl = []
        for k, m in enumerate(t.mem or []):
            c = cname(m.ty)
            fl.append('struct { size_t n; %s *p; } m%d;' % (c, k) if m.arr else '%s *m%d;' % (c, k) if m.opt else '%s m%d;' % (c, k))
        if not t.mem:
            body = 'void *p;'
        elif t.kind == UNION:
            body = 'UA_UInt32 sw; union { %s } u;' % ' '.join(fl)
        else:
            body = ' '.join(fl)
        out.append('%s { %s };' % (names[id(t)], body))
    for t in tys:
        emit(t)
    return out, names


def c_check(d, worlds):
    """Compiles the types of all worlds and compares sizes and offsets with the layout model."""
    src = ['#include <open62541/types.h>', '#include <open62541/types_generated.h>', '#include <stddef.h>', '#include <stdio.h>']
    main = []
    want = []
    for b in BUILTIN.values():
        main.append('printf("%%zu %%zu\\n", sizeof(%s), _Alignof(%s));' % (b.ctype, b.ctype))
        want.append('%d %d' % (b.size, b.align))
    for k, tys in enumerate(worlds):
        s, names = c_structs(tys)
        src += [x.replace('struct S', 'struct W%d_S' % k) for x in s]
        fn = []
        for t in tys:
            nm = names[id(t)]
            if not nm:
                continue
            nm = nm.replace('struct S', 'struct W%d_S' % k)
            fn.append('printf("%%zu %%zu\\n", sizeof(%s), _Alignof(%s));' % (nm, nm))
            want.append('%d %d' % (t.size, t.align))
            off = 0
            for j, m in enumerate(t.mem or []):
                if t.kind == UNION:
                    o = m.pad
                    fn.append('printf("%%zu\\n", offsetof(%s, u.m%d));' % (nm, j))
                else:
                    o = off + m.pad
                    off = o + m.size()
                    fn.append('printf("%%zu\\n", offsetof(%s, m%d));' % (nm, j))
                want.append(str(o))
        src.append('static void w%d(void) { %s }' % (k, '\n'.join(fn)))
        main.append('w%d();' % k)
    src.append('int main(void) { %s return 0; }' % '\n'.join(main))
    p = os.path.join(d, 'layout.c')
    open(p, 'w').write('\n'.join(src))
    q = subprocess.run(['clang', '-w', '-O0', '-I' + VERIF + '/shim', p, '-o', p[:-2]], capture_output=True, text=True)
    if q.returncode:
        raise HarnessError('layout program: ' + q.stderr[:2000])
    got = subprocess.run([p[:-2]], capture_output=True, text=True).stdout.split('\n')[:-1]
    if got != want:
        bad = [(i, a, b) for i, (a, b) in enumerate(zip(want, got)) if a != b][:5]
        raise HarnessError('layout model and compiler disagree: %s (%d/%d lines)' % (bad, len(want), len(got)))
    return len(want)


# ---------------------------------------------------------------- values

INTS = {SBYTE: (-128, 127), BYTE: (0, 255), INT16: (-2 ** 15, 2 ** 15 - 1), UINT16: (0, 2 ** 16 - 1), INT32: (-2 ** 31, 2 ** 31 - 1), UINT32: (0, 2 ** 32 - 1),
        INT64: (-2 ** 63, 2 ** 63 - 1), UINT64: (0, 2 ** 64 - 1), STATUSCODE: (0, 2 ** 32 - 1)}
NULLGUID = '0;g=00000000-0000-0000-0000-000000000000'


def default(ty):
    """The empty value as the harness prints it."""
    k = ty.kind
    if k == BOOLEAN:
        return False
    if k in INTS or k in (DATETIME, ENUM):
        return 0
    if k in (FLOAT, DOUBLE):
        return ('f', 0.0, k)
    if k in (STRING, BYTESTRING, XMLELEMENT, VARIANT):
        return None
    if k == GUID:
        return NULLGUID
    if k in (NODEID, EXPANDEDNODEID):
        return NULLID
    if k == QUALIFIEDNAME:
        return [0, None]
    if k == LOCALIZEDTEXT:
        return [None, None]
    if k == EXTENSIONOBJECT:
        return {'enc': 0}
    if k in (STRUCTURE, OPTSTRUCT):
        return {m.name: (None if m.arr or m.opt else default(m.ty)) for m in ty.mem or []}
    if k == UNION:
        return {'#sel': 0}
    return 'kind%d' % k


# kinds whose texts are of XML schema types that collapse white space
NUMERIC = tuple(INTS) + (BOOLEAN, FLOAT, DOUBLE, DATETIME)

class VGen:
    """Values of a type: (element tree, expected content). f is the file they stand in, w the world (indices)."""
    def __init__(self, r, g, w, f, pre='uax:'):
        self.r, self.g, self.w, self.f, self.pre = r, g, w, f, pre

    def text(self):
        r = self.r
        if r.random() < .1:
            return None
        s = self.g.text(False).replace('\r', '')
        while not s.strip():
            s = self.g.text(False)
        return s

    def num(self, k):
        lo, hi = INTS[k]
        r = self.r
        c = r.random()
        v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1]) if c < .5 else r.randint(lo, hi) if c < .8 else r.randint(max(lo, -200), min(hi, 200))
        return v

    def some_id(self):
        """A node id of any kind written with the file's indices: (text, expected)."""
        r, f = self.r, self.f
        uri = r.choice(f.uris + [''])
        c = r.random()
        if c < .5:
            i = (uri, 'i', r.choice([1, 85, 2 ** 32 - 1, r.getrandbits(20)]))
        elif c < .75:
            i = (uri, 's', r.choice(['abc', 'a b;c=d', 'ü.x', 'ns=3;i=4']) + str(r.getrandbits(8)))
        elif c < .9:
            i = (uri, 'g', '%08x-%04x-%04x-%04x-%012x' % (r.getrandbits(32), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.getrandbits(48)))
        else:
            i = (uri, 'b', bytes(r.getrandbits(8) for _ in range(r.randint(1, 12))))
        t = id_str(f, i)
        return t, i

    def leaf(self, ty, name):
        """Tree and expectation (with ids left symbolic as ('id', id)) of a non-structured type."""
        r, P, k = self.r, self.pre, ty.kind
        E = lambda t: [P + name, [], t, []]
        if k in NUMERIC and r.random() < .07:
            # white space around the value is not part of it
            a, b = r.choice(['', ' ', '\n', '\n\t  ', '\r\n']), r.choice([' ', '\n', '\t\t', '\n    '])
            E = lambda t: [P + name, [], a + t + b, []]
        if k == BOOLEAN:
            v = r.random() < .5
            return E(r.choice(['true', '1'] if v else ['false', '0'])), v
        if k == STATUSCODE:
            v = self.num(k)
            return [P + name, [], None, [[P + 'Code', [], str(v), []]]], v
        if k in INTS:
            v = self.num(k)
            return E(('+' if v > 0 and r.random() < .03 else '') + str(v)), v
        if k in (FLOAT, DOUBLE):
            c = r.random()
            if c < .12:
                t = r.choice(['INF', '-INF', 'NaN'])
                return E(t), ('f', float(t.replace('INF', 'inf')), k)
            v = r.choice([0.0, 1.5, -0.1, 1e300, -1e-300, 3.4e38, 123456.789, 5e-324, 2 ** 53 + 1.0, 1 / 3, r.uniform(-1e6, 1e6), r.random() * 10 ** r.randint(-30, 30)])
            t = r.choice([repr(v), '%.17g' % v, '%.17E' % v])
            if k == FLOAT:
                v = r.choice([0.0, 1.5, -0.1, 3.4e38, 1.2e-38, 16777217.0, r.uniform(-1e6, 1e6), r.random() * 10 ** r.randint(-30, 30)])
                t = r.choice([repr(v), '%.9g' % v, '%.17g' % v])
            return E(t), ('f', float(t), k)
        if k == STRING:
            t = self.text()
            return E(t), t
        if k == DATETIME:
            return self.date(E)
        if k == GUID:
            i = ('', 'g', '%08x-%04x-%04x-%04x-%012x' % (r.getrandbits(32), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.getrandbits(48)))
            t = i[2].upper() if r.random() < .3 else i[2]
            return [P + name, [], None, [[P + 'String', [], t, []]]], '0;g=' + i[2]
        if k == BYTESTRING:
            b = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 16, 57, 100, 3000 if r.random() < .1 else 7])))
            t = base64.b64encode(b).decode()
            if r.random() < .3:
                t = '\n'.join(t[i:i + 76] for i in range(0, len(t), r.choice([76]))) + r.choice(['', '\n'])
                t = r.choice(['', '\n  ']) + t
            return E(t if b else None), b.hex() if b else None
        if k == NODEID:
            t, i = self.some_id()
            return [P + name, [], None, [[P + 'Identifier', [], t, []]]], ('id', i)
        if k == QUALIFIEDNAME:
            uri = r.choice(self.f.uris + [''])
            t = self.text()
            n = 0 if uri == '' else self.f.uris.index(uri) + 1
            kids = []
            if n or r.random() < .5:
                kids.append([P + 'NamespaceIndex', [], str(n), []])
            kids.append([P + 'Name', [], t, []])
            if r.random() < .2:
                kids.reverse()
            return [P + name, [], None, kids], ('qn', uri, t)
        if k == LOCALIZEDTEXT:
            l, t = r.choice([None, 'en', 'de-DE', '']), self.text()
            kids = []
            if l is not None or r.random() < .3:
                kids.append([P + 'Locale', [], l, []])
            if t is not None or not kids or r.random() < .5:
                kids.append([P + 'Text', [], t, []])
            if r.random() < .1:
                kids.reverse()
            return [P + name, [], None, kids], [l or None, t]
        if k == ENUM:
            if ty.syms and r.random() < .7:
                s, v = r.choice(ty.syms)
            else:
                s, v = 'Sym', self.num(INT32)
            return E(r.choice(['%d' % v, '%s_%d' % (s, v)])), v
        raise AssertionError(k)

    def date(self, E):
        r = self.r
        import datetime
        y = r.choice([1601, 1970, 2000, 2020, 2024, 9999, r.randint(1601, 9999)])
        mo = r.randint(1, 12)
        d = r.randint(1, 28) if r.random() < .8 else [31, 29 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
        fr = '' if r.random() < .5 else ''.join(r.choice('0123456789') for _ in range(r.choice([1, 3, 6, 7, 7, 9])))
        z = r.choice(['Z', 'Z', 'Z', '', '+00:00', '+02:00', '-05:30', '+14:00'])
        if y in (1601, 9999) and z not in ('Z', ''):
            z = 'Z'
        days = (datetime.date(y, mo, d) - datetime.date(1601, 1, 1)).days
        v = ((days * 24 + h) * 60 + mi) * 60 + s
        if z not in ('Z', ''):
            sg = 1 if z[0] == '+' else -1
            v -= sg * (int(z[1:3]) * 60 + int(z[4:6])) * 60
        v = v * 10 ** 7 + int((fr + '0000000')[:7]) if fr else v * 10 ** 7
        return E('%04d-%02d-%02dT%02d:%02d:%02d%s%s' % (y, mo, d, h, mi, s, '.' + fr if fr else '', z)), v

    def members(self, ty, depth):
        """Child elements and expectation of a structure."""
        r, P = self.r, self.pre
        kids, exp = [], {}
        if ty.kind == OPTSTRUCT and r.random() < .5:
            kids.append([P + 'EncodingMask', [], str(r.getrandbits(4)), []])
        miss = r.choice([0, 0, .2, .6])
        parts = []
        for m in ty.mem or []:
            exp[m.name] = None if m.arr or m.opt else default(m.ty)
            if not re.match(r'[^\W\d][\w.\-]*$', m.name):
                continue
            if not m.ty.supported() or r.random() < miss or (m.opt and r.random() < .3):
                continue
            if depth <= 0 and (m.ty.mem or m.arr):
                continue
            t, e = self.member(m, depth - 1)
            if t is not None:
                parts.append(t)
                exp[m.name] = e
        return kids + parts, exp

    def member(self, m, depth):
        r, P = self.r, self.pre
        if m.arr:
            n = r.choice([0, 1, 2, 3, 7])
            el = [self.value(m.ty, m.ty.xml_name(), depth) for _ in range(n)]
            return [P + m.name, [], None, [x[0] for x in el]], [x[1] for x in el] if n else None
        return self.value(m.ty, m.name, depth)

    def value(self, ty, name, depth=3):
        r, P = self.r, self.pre
        if ty.kind in (STRUCTURE, OPTSTRUCT):
            kids, exp = self.members(ty, depth)
            return [P + name, [], None, kids], exp
        if ty.kind == UNION:
            ok = [k for k, m in enumerate(ty.mem or []) if m.ty.supported() and re.match(r'[^\W\d][\w.\-]*$', m.name) and (depth > 0 or not (m.ty.mem or m.arr))]
            if not ok or r.random() < .1:
                return [P + name, [], None, [[P + 'SwitchField', [], '0', []]] if r.random() < .7 else []], {'#sel': 0}
            k = r.choice(ok)
            t, e = self.member(ty.mem[k], depth - 1)
            return [P + name, [], None, [[P + 'SwitchField', [], str(k + 1), []], t]], {'#sel': k + 1, 'v': e}
        return self.leaf(ty, name)

    def variable(self, n, ty, array=None, count=None):
        """Gives variable n a value of type ty; returns the expected variant."""
        r, P = self.r, self.pre
        array = r.random() < .35 if array is None else array
        n.datatype = ty.id
        structured = ty.kind in (STRUCTURE, OPTSTRUCT, UNION)
        nm = ty.xml_name()
        tid = [P + 'TypeId', [], None, [[P + 'Identifier', [], id_str(self.f, ty.enc) if ty.enc and (ty.enc[0] == '' or ty.enc[0] in self.f.uris) else 'i=1', []]]]
        wrap = lambda b: [P + 'ExtensionObject', [], None, [tid, [P + 'Body', [], None, [b]]]]
        rt = ty.base if ty.base is not None and getattr(ty, 'std', False) else ty
        if not array:
            n.attrs['ValueRank'] = '-1'
            t, e = self.value(ty, nm)
            if structured and not t[3]:
                return None
            n.value = [wrap(t) if structured else t]
            return {'t': rt.id, 'k': ty.kind, 'arr': False, 'v': e}
        n.attrs['ValueRank'] = '1'
        n.attrs.pop('ArrayDimensions', None)
        cnt = r.choice([0, 1, 2, 3, 10, 40 if r.random() < .2 else 4]) if count is None else count
        if structured and cnt == 0:
            cnt = 1
        el = []
        while len(el) < cnt:
            x = self.value(ty, nm)
            if structured and not x[0][3]:
                if not ty.mem or r.random() < .05:
                    return None
                continue
            el.append(x)
        n.value = [[P + ('ListOfExtensionObject' if structured else 'ListOf' + nm), [], None, [wrap(x[0]) if structured else x[0] for x in el]]]
        return {'t': rt.id, 'k': ty.kind, 'arr': True, 'v': [x[1] for x in el]}


def xml_name(self):
    if self.kind == ENUM:
        return 'Int32'
    if self.kind in (STRUCTURE, OPTSTRUCT, UNION):
        return re.sub(r'\W', '_', self.name)
    return self.base.name if self.base is not None else self.name


Ty.xml_name = xml_name


def same(w, e, g, path=''):
    """None when the delivered value g matches the expectation e, else a description."""
    if isinstance(e, tuple):
        if e[0] == 'id':
            x = w.gid(e[1])
            return None if g == x else '%s: declared %s, server has %r' % (path, x, g)
        if e[0] == 'qn':
            return None if isinstance(g, list) and g[0] == w.idx[e[1]] and (g[1] or '') == (e[2] or '') else '%s: declared %s %r, server has %r' % (path, w.idx[e[1]], e[2], g)
        if not (isinstance(g, str) and g.startswith('f')):
            return '%s: declared %r, server has %r' % (path, e[1], g)
        try:
            x = float(g[1:])
        except ValueError:
            return '%s: server has %r' % (path, g)
        v = e[1]
        if e[2] == FLOAT and not math.isnan(v) and not math.isinf(v):
            try:
                v = struct.unpack('f', struct.pack('f', v))[0]
            except OverflowError:
                v = math.copysign(math.inf, v)
            # %.9g identifies a float
            ok = float('%.9g' % v) == x
        else:
            ok = (math.isnan(v) and math.isnan(x)) or v == x
        return None if ok else '%s: declared %r, server has %r' % (path, e[1], g)
    if isinstance(e, dict):
        if not isinstance(g, dict) or set(e) != set(g):
            return '%s: declared members %s, server has %r' % (path, sorted(e), g)
        for k in e:
            x = same(w, e[k], g[k], path + '.' + k)
            if x:
                return x
        return None
    if isinstance(e, list):
        if not isinstance(g, list) or len(e) != len(g):
            return '%s: declared %r, server has %r' % (path, e, g)
        for k, (a, b) in enumerate(zip(e, g)):
            x = same(w, a, b, path + '[%d]' % k)
            if x:
                return x
        return None
    if e in (None, '') and g in (None, ''):
        return None
    if isinstance(e, bool) != isinstance(g, bool) or e != g:
        return '%s: declared %r, server has %r' % (path, e, g)
    return None


def check_values(chk, case, w, st):
    """C17."""
    for n in w.nodes():
        e = getattr(n, 'expect', None)
        if n.cls != VARIABLE or e is None:
            continue
        g = st.nodes.get(w.gid(n.id))
        if g is None:
            continue        # C15
        v = g['value']
        chk.count('server_values_compared')
        chk.count('values_kind_%d%s' % (e['k'], '_array' if e['arr'] else ''))
        if v is None:
            chk.violation('value:missing:kind%d' % e['k'], '%s: no value on the server, declared %s' % (g['id'], str(e)[:400]), case.replay())
            continue
        for k, x in (('t', w.gid(e['t'])), ('k', e['k']), ('arr', e['arr'])):
            if v[k] != x:
                chk.violation('value:%s:kind%d' % (k, e['k']), '%s: %s declared %r, server has %r' % (g['id'], {'t': 'type', 'k': 'kind', 'arr': 'array'}[k], x, v[k]), case.replay())
                break
        else:
            d = same(w, e['v'], v['v'])
            if d:
                chk.violation('value:content:kind%d' % e['k'], '%s (%s): %s' % (g['id'], w.gid(n.datatype), d[:600]), case.replay())


def typed_world(r, B, nfiles=1, ntypes=10, nvars=15, nns=None, builtin_only=False, kinds=None, shuffle=True):
    """Types, variables with values of them, over several files."""
    b = B.BGen(r)
    w = B.BWorld()
    uris = b.frame(w, nfiles, nns or r.randint(1, 3))
    tg = TGen(r, b.g, w)
    for f in w.files:
        if not builtin_only:
            tg.file_types(f, ntypes, kinds)
        vg = VGen(r, b.g, w, f, r.choice(['uax:', '']))
        us = [u for u in f.uris if u != UA_URI]
        for _ in range(nvars):
            n = Node(VARIABLE, b.g.new_id(r.choice(us)))
            n.bn, n.dn = (r.choice(us), 'v%d' % b.g.seq), (None, 'v')
            n.refs = [[I(47), I(85), False], [I(40), I(63), True]]
            c = r.random()
            cust = [t for t in tg.types if t.supported() and not t.abstract]
            if builtin_only or not cust or c < .35:
                i = r.choice(sorted(BUILTIN) + sorted(STD_SUB))
                ty = BUILTIN.get(i)
                if ty is None:
                    base = BUILTIN[STD_SUB[i]]
                    ty = Ty(I(i), base.kind, base.name, base.size, base.align, base.pf)
                    ty.base, ty.std, ty.mem = base, True, base.mem
                if not ty.supported():
                    continue
            else:
                ty = r.choice(cust)
            n.expect = vg.variable(n, ty)
            if n.expect is None:
                n.value = None
            f.nodes.append(n)
        if shuffle:
            r.shuffle(f.nodes)
        if r.random() < .5:
            b.g.aliases(w, f)
    w.tg = tg
    return w
