"""The open62541 backend on the stand-in server: workloads, expectations and
the comparison of the recorded server state with them (C15-C19, parts of C01, C02, C22)."""
from core import *
import typed


def build(d, san=None, name='nlback', extra=(), opt='-O1'):
    b = Build(os.path.join(d, 'b_' + name), san=san, extra=extra, opt=opt)
    hs = ASAN_ONLY if san is None else san
    objs = b.compile(b.core_sources() + b.backend_sources() + b.shim_sources(server=True) + [(VERIF + '/harness/nlback.c', [], hs)])
    return b.link(name, objs)


UACLS = {OBJECT: 1, VARIABLE: 2, METHOD: 4, OBJECTTYPE: 8, VARTYPE: 16, REFTYPE: 32, DATATYPE: 64, VIEW: 128}


def _ns0():
    t = {}
    for l in open(VERIF + '/shim/ns0_table.inc'):
        m = re.match(r'\{(\d+),(\d+),"(.*)",(\d+),(\d+),(\d+),(\d+)\}', l.strip())
        if m:
            a, b, n, p, rt, td, ab = m.groups()
            t.setdefault(int(a), (int(b), n, int(p), int(rt), int(td), int(ab)))
    return t


NS0 = _ns0()


def _chain(i):
    while i:
        yield i
        i = NS0[i][2] if i in NS0 and NS0[i][3] == 45 else 0


HIER_S = {i for i, t in NS0.items() if t[0] == 32 and 33 in _chain(i)}
NONHIER_S = sorted(i for i, t in NS0.items() if t[0] == 32 and 32 in _chain(i) and not t[5] and i not in (40, 38))
TYPE_ONLY = {45}
PARENT_REFS = sorted(i for i in HIER_S if not NS0[i][5] and i not in TYPE_ONLY)
OBJTYPES0 = [58, 61, 77, 2004]
VARTYPES0 = [63, 68, 62]


class BWorld(World):
    """Files loaded one after the other into one server."""
    def is_hier(self, rt):
        return (rt[0] == '' and rt[2] in HIER_S) or rt in self.hier

    def is_td(self, rt):
        return rt == I(40)

    def set_idx(self, nstab):
        self.idx = {'': 0}
        for i, u in enumerate(nstab):
            self.idx.setdefault(u, i)

    def upto(self, k):
        """The part of the world after loading the first k files."""
        w = BWorld()
        w.files, w.idx, w.hier, w.kinds = self.files[:k], self.idx, self.hier, None
        w.ty = getattr(self, 'ty', None)
        w.skip = getattr(self, 'skip', set())
        return w


class OneFile(World):
    """What the loader of one file can see."""
    def __init__(self, w, f):
        World.__init__(self)
        self.files, self.idx = [f], w.idx
        self.w = w

    def is_hier(self, rt):
        return self.w.is_hier(rt)


def i_(n):
    return I(n)


# ------------------------------------------------------------------ expectations

def exp_attr(w, n):
    """Attributes the server has to hold."""
    a = dict(ATTRS[n.cls])
    a.update(n.attrs)
    e = {'cls': UACLS[n.cls], 'id': w.gid(n.id), 'bns': w.idx[n.bn[0]], 'bn': n.bn[1] or '', 'dn': [(x or '') for x in exp_text(n.dn)], 'desc': [(x or '') for x in exp_text(n.desc)]}
    byte = lambda k: int(a[k]) & 255
    bl = lambda k: 1 if a[k].strip() in ('true', '1') else 0
    if n.cls == OBJECT:
        e['EventNotifier'] = byte('EventNotifier')
    elif n.cls == VIEW:
        e['EventNotifier'] = byte('EventNotifier')
        e['ContainsNoLoops'] = bl('ContainsNoLoops')
    elif n.cls == METHOD:
        e['Executable'], e['UserExecutable'] = bl('Executable'), bl('UserExecutable')
    elif n.cls == VARIABLE:
        e['AccessLevel'], e['UserAccessLevel'] = byte('AccessLevel'), byte('UserAccessLevel')
        e['Historizing'] = bl('Historizing')
        e['MinimumSamplingInterval'] = float(a['MinimumSamplingInterval'])
    elif n.cls == REFTYPE:
        e['Symmetric'] = bl('Symmetric')
        e['inv'] = [(x or '') for x in exp_text(n.inv)]
    else:
        e['IsAbstract'] = bl('IsAbstract')
    if n.cls in (VARIABLE, VARTYPE):
        e['ValueRank'] = int(a['ValueRank'])
        e['DataType'] = w.gid(n.datatype) if n.datatype is not None else '0;i=24'
        dims = [int(x) for x in a['ArrayDimensions'].split(',')] if a['ArrayDimensions'] else []
        vr = e['ValueRank']
        if n.cls == VARTYPE and not dims and vr >= 0:
            dims = [0]
        if n.cls == VARIABLE and not dims and vr == 1:
            dims = [0]
        elif n.cls == VARIABLE and not dims and n.value and local(n.value[0]).startswith('ListOf'):
            dims = [len(n.value[0][3])]
        e['dims'] = dims
    td = [w.gid(tg) for rt, tg, fw in n.refs if rt == I(40) and fw] if n.cls in (OBJECT, VARIABLE) else []
    e['td'] = td[0] if td else NULLID
    return e


def norm(src, rt, tg, fw):
    return (src, rt, tg) if fw else (tg, rt, src)


def exp_links(w, f, n):
    """Acceptable parent links of a node beyond its declared references: list of edges, [] if none needed."""
    if n.cls not in INSTANCE or n.parent is None:
        return []
    hs = [(rt, tg, fw) for rt, tg, fw in n.refs if w.is_hier(rt)]
    if any(not fw for rt, tg, fw in hs):
        return []
    o = OneFile(w, f)
    me, pa = w.gid(n.id), w.gid(n.parent)
    if not hs:
        return [norm(me, rt, tg, fw) for rt, tg, fw in exp_parent_link(o, n)]
    p = next((m for m in f.nodes if m.id == n.parent), None)
    own = [(pa, w.gid(rt), me) for rt, tg, fw in (p.refs if p else []) if fw and tg == n.id and w.is_hier(rt)]
    return own or [(pa, '0;i=47', me)]


def exp_edges(w):
    """(required edges, list of alternatives of which one is required)."""
    need, alt = set(), []
    for f in w.files:
        for n in f.nodes:
            me = w.gid(n.id)
            for rt, tg, fw in n.refs:
                need.add(norm(me, w.gid(rt), w.gid(tg), fw))
            l = exp_links(w, f, n)
            if l:
                alt.append(l)
    return need, alt


class State:
    """One dump of a server."""
    def __init__(self, evs):
        self.nodes, self.n0, self.types, self.calls, self.ns = {}, {}, [], None, []
        self.dup = []
        for e in evs:
            if e['e'] == 'sn':
                if e['id'] in self.nodes:
                    self.dup.append(e['id'])
                self.nodes[e['id']] = e
            elif e['e'] == 'n0':
                self.n0[e['id']] = e
            elif e['e'] == 'type':
                self.types.append(e)
            elif e['e'] == 'calls':
                self.calls = e
            elif e['e'] == 'nstab':
                self.ns = e['ns']

    def edges(self):
        """Edges by endpoint: forward records, inverse records."""
        fw, bw = Counter(), Counter()
        for e in list(self.nodes.values()) + list(self.n0.values()):
            for rt, tg, f in e['refs']:
                if f:
                    fw[(e['id'], rt, tg)] += 1
                else:
                    bw[(tg, rt, e['id'])] += 1
        return fw, bw

    def key(self, adr=False):
        ty = [{k: v for k, v in t.items() if adr or k != 'adr'} for t in self.types]
        return json.dumps([self.ns, sorted(self.nodes.items()), sorted(self.n0.items()), ty], sort_keys=True)


class BRun:
    """Loads and dumps of one case, in order."""
    def __init__(self, r):
        self.steps = []      # ('load', result, [logs]) | ('dump', slot, State)
        cur, logs = None, []
        for e in r.events:
            k = e['e']
            if k == 'dumpbegin':
                cur = []
            elif k == 'dumpend':
                self.steps.append(('dump', cur[0].get('s', 0) if cur else 0, State(cur)))
                cur = None
            elif cur is not None:
                cur.append(e)
            elif k == 'loadbegin':
                logs = []
            elif k == 'log':
                logs.append(e)
            elif k == 'load':
                self.steps.append(('load', e['r'], logs))
            elif k == 'find':
                self.steps.append(('find', e['r'], None))
        self.loads = [s for s in self.steps if s[0] == 'load']
        self.dumps = [s[2] for s in self.steps if s[0] == 'dump']


def ran(chk, case, r):
    """Common preconditions of a case; a BRun or None."""
    if report_crash(chk, r, case.replay(), case.tag):
        return None
    g = [e for e in r.events if e['e'] == 'garbled']
    if g:
        chk.violation('garbled', 'undecodable state ' + str(g[:2]), case.replay())
        return None
    if not r.ev('end'):
        chk.violation('unfinished', r.err[-500:], case.replay())
        return None
    if r.out:
        chk.violation('printed', 'printed on standard output: %r' % r.out[:300], case.replay())
    return BRun(r)


def nstab_ok(chk, case, st, uris, first=2):
    """The server's namespace table has every uri of the files once."""
    c = Counter(st.ns)
    for u in uris:
        if c.get(u, 0) != 1:
            chk.violation('namespace', 'namespace %r is %d times in the server\'s table %s' % (u, c.get(u, 0), st.ns[:8]), case.replay())
            return False
    return True


def check_space(chk, case, w, st, what='', values=True):
    """C15: nodes, attributes, edges of the server against the loaded files."""
    rep = case.replay
    nodes = {}
    for n in w.nodes():
        nodes.setdefault(w.gid(n.id), n)
    miss = [i for i in nodes if i not in st.nodes]
    extra = [i for i in st.nodes if i not in nodes]
    if st.dup or miss or extra:
        chk.violation('nodes' + what, 'missing %s, extra %s, repeated %s' % ([(i, TAG[nodes[i].cls]) for i in miss[:4]], extra[:4], st.dup[:3]), rep())
    for i, n in nodes.items():
        g = st.nodes.get(i)
        if g is None:
            continue
        e = exp_attr(w, n)
        for k, v in e.items():
            x = g.get(k)
            if k in ('dn', 'desc', 'inv'):
                x = [(t or '') for t in x]
            elif k == 'bn':
                x = x or ''
            elif k == 'MinimumSamplingInterval':
                x = float(x[1:])
            chk.count('server_attributes_compared')
            if x != v:
                chk.violation('attr:%s:%s%s' % (TAG[n.cls], k, what), '%s %s: server has %r, declared %r' % (TAG[n.cls], i, x, v), rep())
        if n.cls == VARIABLE and n.value is None and g['value'] is not None and values:
            chk.violation('value-from-nothing', '%s: %s' % (i, g['value']), rep())
    need, alt = exp_edges(w)
    fw, bw = st.edges()
    dup = [e for c in (fw, bw) for e, k in c.items() if k > 1]
    if dup:
        chk.violation('edges:repeated' + what, str(dup[:3]), rep())
    chk.count('edges_compared', len(need))
    for e in need:
        if e not in fw or e not in bw:
            chk.violation('edges:missing' + what, '%s %s' % (e, 'missing on both ends' if e not in fw and e not in bw else 'missing on its %s' % ('source' if e not in fw else 'target')), rep())
    ok = set(need)
    for l in alt:
        hit = [e for e in l if e in fw and e in bw]
        chk.count('parent_links_checked')
        if not hit:
            chk.violation('edges:parent' + what, 'none of the acceptable parent links %s' % l, rep())
        new = [e for e in hit if e not in need]
        if len(new) > 1:
            chk.violation('edges:parents' + what, 'more than one parent link added: %s' % new, rep())
        ok.update(new)
    for e in list(fw) + list(bw):
        if e not in ok:
            chk.violation('edges:unexpected' + what, str(e), rep())
            break
    for e in list(fw):
        if e not in bw and e in ok and e not in need:
            chk.violation('edges:one-sided' + what, str(e), rep())
    for i, e in st.n0.items():
        if e.get('lost'):
            chk.violation('ns0-lost' + what, 'standard node %s lost references' % i, rep())


# ------------------------------------------------------------------ generation

def safe_attrs(g, n):
    g.attrs(n)


class BGen:
    """Worlds whose outside references exist on the server (see DESIGN.md, C15)."""
    def __init__(self, r):
        self.r = r
        self.g = Gen(r)

    def uris(self, k):
        out = []
        while len(out) < k:
            u = self.g.uri(len(out) + self.r.randint(0, 3) * 10)
            if u not in out:
                out.append(u)
        return out

    def frame(self, w, nfiles, nns):
        """Files with namespace tables; each file may use every uri of its table."""
        r = self.r
        uris = self.uris(nns)
        for fi in range(nfiles):
            us = uris[:]
            r.shuffle(us)
            if r.random() < 0.15:
                us.insert(r.randint(0, len(us)), UA_URI)
            w.files.append(File(us))
        return uris

    def label(self, n, uris):
        r, g = self.r, self.g
        n.bn = (r.choice(uris + ['']), r.choice(['Name%d' % r.randint(0, 99), g.text(False), 'with:colon']))
        n.dn, n.desc = g.ltext(), g.ltext()
        if n.cls == REFTYPE:
            n.inv = g.ltext()
        g.attrs(n)

    def world(self, nfiles=1, nnodes=30, nns=None, deep=False, forward=True, parents=True, exts=False, classes=None):
        r, g = self.r, self.g
        w = BWorld()
        uris = self.frame(w, nfiles, nns or r.randint(1, 4))
        avail = []          # nodes in hierarchy order, .file set
        rts = []
        for fi in range(nfiles):
            f = w.files[fi]
            new = []
            u = [x for x in f.uris if x != UA_URI]

            def mk(cls):
                n = Node(cls, g.new_id(r.choice(u)))
                n.file = fi
                new.append(n)
                return n
            for _ in range(r.choice([0, 0, 1, 3, 6])):
                n = mk(REFTYPE)
                sup = r.choice([I(33), I(47), I(35), I(32), I(46), I(36), I(37), I(49)] + [x.id for x in rts] * 2)
                n.refs.append([I(45), sup, False])
                if w.is_hier(sup):
                    w.hier.add(n.id)
                rts.append(n)
            hier = [I(x) for x in PARENT_REFS] + [n.id for n in rts if n.id in w.hier]
            nonh = [I(x) for x in NONHIER_S] + [n.id for n in rts if n.id not in w.hier]
            pool = classes or [OBJECT] * 6 + [VARIABLE] * 6 + [METHOD] * 3 + [OBJECTTYPE, VARTYPE, DATATYPE, VIEW]
            k = nnodes // nfiles + 1
            types = [(c, []) for c in (OBJECTTYPE, VARTYPE, DATATYPE)]
            seq = []
            for _ in range(k):
                seq.append(r.choice(pool))
            seq.sort(key=lambda c: 0 if c in (OBJECTTYPE, VARTYPE, DATATYPE) else 1)
            for c in seq:
                have = avail + new
                n = mk(c)
                if c in (OBJECTTYPE, VARTYPE, DATATYPE):
                    same = [m for m in have if m.cls == c]
                    base = {OBJECTTYPE: [58, 61], VARTYPE: [62, 63, 68], DATATYPE: [22, 29, 24, 12, 11, 6, 12755, 12756]}[c]
                    sup = r.choice(same).id if same and r.random() < .6 else I(r.choice(base))
                    n.refs.append([I(45), sup, False])
                    if r.random() < .15:
                        inst = [m for m in have if m.cls == OBJECT]
                        n.refs.append([I(35), r.choice(inst).id if inst else I(85), False])
                    if r.random() < .15 and sup[0] != '' and next((m for m in new if m.id == sup), None):
                        next(m for m in new if m.id == sup).refs.append([I(45), n.id, True])
                    continue
                cand = [m for m in have if m.cls != REFTYPE and m is not n and m.cls != DATATYPE]
                p = None
                if cand and r.random() < .9:
                    p = [m for m in cand if m.cls in INSTANCE or r.random() < .3]
                    p = (p[-1] if deep and r.random() < .9 else r.choice(p)) if p else None
                pid = p.id if p else I(r.choice([85, 2253, 86, 84, 58]))
                rt = r.choice(hier if r.random() < .6 else [I(47), I(35), I(46)])
                mode = r.random()
                here = p is not None and p.file == fi
                if parents and mode < .2:
                    n.parent = pid
                    if here and r.random() < .4:
                        p.refs.append([rt, n.id, True])
                elif forward and mode < .4 and here and c in (OBJECT, VARIABLE):
                    p.refs.append([rt, n.id, True])
                else:
                    n.refs.append([rt, pid, False])
                    if r.random() < .5:
                        n.parent = pid
                    if here and r.random() < .2:
                        p.refs.append([rt if r.random() < .5 else r.choice(hier), n.id, True])
                # further hierarchical references, from earlier to later nodes
                if cand and r.random() < .3:
                    q = r.choice(cand)
                    if q is not p and q.file == fi and r.random() < .5:
                        q.refs.append([r.choice(hier), n.id, True])
                    elif any(not fw for t, tg, fw in n.refs if w.is_hier(t)) and q is not p:
                        n.refs.append([r.choice(hier), q.id, False])
            for n in new:
                self.label(n, u)
                if n.cls in (VARIABLE, VARTYPE) and r.random() < .8:
                    n.datatype = r.choice([I(1), I(6), I(12), I(24), I(22), I(11), I(13), I(290)] + [m.id for m in avail + new if m.cls == DATATYPE])
                if n.cls in (OBJECT, VARIABLE) and r.random() < .8:
                    c2, l0 = (OBJECTTYPE, OBJTYPES0) if n.cls == OBJECT else (VARTYPE, VARTYPES0)
                    n.refs.append([I(40), r.choice([I(x) for x in l0 if x in NS0] + [m.id for m in avail + new if m.cls == c2]), True])
                for _ in range(r.choice([0, 0, 1, 2])):
                    tg = r.choice([I(85), I(58), I(63), I(22), I(2253), I(78)] + [m.id for m in avail + new])
                    n.refs.append([r.choice(nonh), tg, r.random() < .7])
                if r.random() < .04:    # to itself
                    n.refs.append([r.choice(nonh), n.id, r.random() < .7])
                if n.cls == DATATYPE and r.random() < .5:
                    n.definition = g.definition(u, [m for m in new if m.cls == DATATYPE])
                if exts and r.random() < .3:
                    n.exts = [[g.ext_tree(2) for _ in range(r.randint(1, 2))]]
                r.shuffle(n.refs)
            order = new[:]
            r.shuffle(order)
            f.nodes = order
            if r.random() < .6:
                g.aliases(w, f)
            avail += new
        return w


def chain_world(r, depth, classes=(OBJECT, VARIABLE, METHOD), reverse=True):
    """A chain in which every node is the parent of the next, over alternating classes."""
    w = BWorld()
    f = File(['urn:chain'])
    w.files.append(f)
    prev = I(85)
    for k in range(depth):
        n = Node(classes[k % len(classes)] if r.random() < .9 else r.choice(classes), ('urn:chain', 'i', 1000 + k))
        n.bn = ('urn:chain', 'c%d' % k)
        n.dn = (None, 'c%d' % k)
        how = r.random()
        if how < .7:
            n.refs.append([I(r.choice([47, 35, 46, 56])), prev, False])
            if r.random() < .5:
                n.parent = prev
        else:
            n.parent = prev
        prev = n.id
        f.nodes.append(n)
    if reverse:
        f.nodes.reverse()
    else:
        r.shuffle(f.nodes)
    return w


def bcase(run, w, style=None, tag='', logger=1, ext=False, dump_each=True, pre=(), post=(), unlink=True):
    """srv, (load, unlink, dump) per file."""
    docs = [render(f, style) for f in w.files]
    lines = ['srv\t0\t%d' % logger] + list(pre)
    for d in docs:
        p = run.file(d)
        lines.append('load\t0\t%s\t%d' % (p, ext))
        if unlink:
            lines.append('unlink\t0\t' + p)
        if dump_each:
            lines.append('dump\t0')
    if not dump_each:
        lines.append('dump\t0')
    lines += list(post)
    return Case(w, lines, docs, tag)


def loads_ok(chk, case, b):
    for k, (x, ok, logs) in enumerate(b.loads):
        if not ok:
            chk.violation('load-failed', 'load %d of a valid nodeset failed: %s' % (k, logs[-3:]), case.replay())
            return False
        bad = [l for l in logs if l['lv'] >= 500]
        if bad:
            chk.violation('error-logged', 'load %d succeeded and logged %s' % (k, bad[:2]), case.replay())
    return True


def judge(chk, c, r, types=True, values=True, space=True, what=''):
    """Everything a sequence of loads with a dump after each must show. BRun or None."""
    b = ran(chk, c, r)
    if b is None or not loads_ok(chk, c, b):
        return None
    for k, st in enumerate(b.dumps):
        w = c.world.upto(k + 1 if getattr(c, 'each', True) else len(c.world.files))
        w.set_idx(st.ns)
        if not nstab_ok(chk, c, st, [u for f in w.files for u in f.uris if u != UA_URI]):
            return None
        if space:
            check_space(chk, c, w, st, what)
        if types:
            typed.check_types(chk, c, w, st, getattr(c, 'skip', ()))
        if values:
            typed.check_values(chk, c, w, st)
    return b


def mixed_world(r, nfiles, big=False):
    """Address space of all classes and typed variables in the same files."""
    w = typed.typed_world(r, sys.modules[__name__], nfiles=nfiles, ntypes=r.choice([0, 2, 6, 15 if big else 8]), nvars=r.choice([2, 8, 20 if big else 10]))
    return w


# ------------------------------------------------------------------ hostile files (C01, C02)

def hostile_cases(run, seed, n, unlink=True):
    """Mutated files in histories of loads."""
    import mutate, hostile
    sm = sys.modules[__name__]
    base = [(0, d) for d in mutate.corpus()]
    for k in range(40):
        r = random.Random('bh/%s/%d' % (seed, k))
        w = typed.typed_world(r, sm, nfiles=1, ntypes=r.choice([2, 6, 12]), nvars=r.choice([3, 8, 20])) if k % 3 else BGen(r).world(nnodes=r.choice([4, 15, 40]))
        base.append((1, render(w.files[0], Style(r) if r.random() < .3 else None)))
    small = [d for d in base if len(d[1]) < 25000]
    FOC = [None, lambda e: 'Types.xsd' in str(e.tag), lambda e: str(e.tag).endswith(('Field', 'Definition', 'UADataType')), lambda e: str(e.tag).endswith(('Reference', 'UAVariable', 'UAMethod', 'Alias', 'Uri')),
           lambda e: str(e.tag).endswith(('Identifier', 'Value', 'Body', 'TypeId', 'SwitchField', 'Int32', 'ByteString', 'DateTime', 'Guid', 'String'))]
    out = []
    for k in range(n):
        r = random.Random('bhc/%s/%d' % (seed, k))
        ds = []
        for _ in range(r.choice([1, 1, 2, 3])):
            d = r.choice(small if r.random() < .95 else base)[1]
            c = r.random()
            ds.append(mutate.structural(r, d, focus=r.choice(FOC)) if c < .75 else mutate.hostile(r, d) if c < .9 else d)
        lines = ['srv\t0\t%d' % (r.random() < .7)]
        two = r.random() < .15
        if two:
            lines.append('srv\t1\t1')
        if r.random() < .1:
            lines += ['addns\t0\turn:a'] * r.choice([1, 3])
        if r.random() < .1:
            lines += ['addns\t0\turn:app', 'app\t0\t2\t3']
        for d in ds:
            p = run.file(d)
            for _ in range(r.choice([1, 1, 1, 2])):
                lines.append('load\t%d\t%s\t%d' % (r.randrange(2) if two else 0, p, r.random() < .4))
            if unlink and r.random() < .5:
                lines.append('unlink\t0\t' + p)
            if r.random() < .5:
                lines.append('dump\t0')
            if r.random() < .05:
                lines.append('load\t0\t\t0')
            if r.random() < .1:
                lines.append('clean\t0')
                if r.random() < .5:
                    lines.append('srv\t0\t1')
        lines += r.choice([['dump\t0', 'clean\t0'], ['dump\t0'], []])
        out.append(Case(None, lines, ds, 'backend-hostile'))
    return out


def big_types(f):
    """Data types and values that are large in one dimension."""
    import hostile
    T = 'xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"'
    dt = lambda k, sup, fl: '<UADataType NodeId="ns=1;i=%d" BrowseName="1:n%d"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference></References>%s</UADataType>' % (k, k, sup, '<Definition Name="n">%s</Definition>' % fl if fl else '')
    fld = lambda k, t: '<Field Name="f%d" DataType="%s"/>' % (k, t)
    o = {}
    n = max(10, f // 20)
    o['nested-types'] = hostile.doc(''.join(dt(k, 'i=22', fld(1, 'ns=1;i=%d' % (k + 1) if k < n else 'i=6')) for k in range(1, n + 1)))
    o['derived-types'] = hostile.doc(''.join(dt(k, 'i=22' if k == n else 'ns=1;i=%d' % (k + 1), fld(k, 'i=1') if k % 50 == 0 else '') for k in range(1, n + 1)))
    o['derived-fields'] = hostile.doc(''.join(dt(k, 'i=22' if k == 1 else 'ns=1;i=%d' % (k - 1), fld(k, 'i=12')) for k in range(1, 400)))
    # beyond the limits of a description: 255 members, 65535 bytes
    val = lambda k, body: '<UAVariable NodeId="ns=1;i=%d" BrowseName="1:n" DataType="ns=1;i=%d"><DisplayName>x</DisplayName><Value><uax:ExtensionObject %s><uax:TypeId><uax:Identifier>i=1</uax:Identifier></uax:TypeId><uax:Body><n%d>%s</n%d></uax:Body></uax:ExtensionObject></Value></UAVariable>' % (k + 5000, k, T, k, body, k)
    o['fields300'] = hostile.doc(''.join(dt(n, 'i=22', ''.join(fld(j, 'i=%d' % t) for j in range(n))) + val(n, '<f0>1</f0><f255>1</f255>') for n, t in ((254, 1), (255, 6), (256, 3), (257, 12), (300, 6), (600, 1))))
    o['oversize'] = hostile.doc(''.join(dt(k, 'i=22', ''.join(fld(j, 'ns=1;i=%d' % (k - 1) if k > 1 else 'i=12') for j in range(20))) + val(k, '<f0><f0>1</f0></f0>') for k in range(1, 8)))
    o['oversize-union'] = hostile.doc(''.join(dt(k, 'i=22' if k % 2 else 'i=12756', ''.join(fld(j, 'ns=1;i=%d' % (k - 1) if k > 1 else 'i=12') for j in range(40))) + val(k, '<SwitchField>1</SwitchField><f0>1</f0>') for k in range(1, 9)))
    o['many-types'] = hostile.doc(''.join(dt(k, 'i=22', ''.join(fld(j, 'ns=1;i=%d' % (1 + (k * 7 + j) % n)) for j in range(3))) for k in range(1, n + 1)))
    o['subtypes'] = hostile.doc(''.join(dt(k, 'i=6' if k == n else 'ns=1;i=%d' % (k + 1), '') for k in range(1, n + 1)))
    o['bytestring'] = hostile.doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:n" DataType="i=15"><DisplayName>x</DisplayName><Value><uax:ByteString %s>%s</uax:ByteString></Value></UAVariable>' % (T, 'AAAA' * f))
    o['self-struct-value'] = hostile.doc(dt(1, 'i=22', '<Field Name="a" DataType="ns=1;i=1" ValueRank="1"/>') +
                                         '<UAVariable NodeId="ns=1;i=2" BrowseName="1:n" DataType="ns=1;i=1"><DisplayName>x</DisplayName><Value><uax:ExtensionObject %s><uax:TypeId><uax:Identifier>i=1</uax:Identifier></uax:TypeId><uax:Body><n1>%s%s</n1></uax:Body></uax:ExtensionObject></Value></UAVariable>' % (T, '<a><n1>' * 100, '</n1></a>' * 100))
    o['struct-array'] = hostile.doc(dt(1, 'i=22', fld(1, 'i=12') + fld(2, 'i=21')) + '<UAVariable NodeId="ns=1;i=2" BrowseName="1:n" DataType="ns=1;i=1" ValueRank="1"><DisplayName>x</DisplayName><Value><uax:ListOfExtensionObject %s>%s</uax:ListOfExtensionObject></Value></UAVariable>' % (
        T, '<uax:ExtensionObject><uax:TypeId><uax:Identifier>i=297</uax:Identifier></uax:TypeId><uax:Body><uax:n1><uax:f1>x</uax:f1><uax:f2><uax:Text>t</uax:Text></uax:f2></uax:n1></uax:Body></uax:ExtensionObject>' * (f // 8)))
    o['methods'] = hostile.doc(''.join('<UAMethod NodeId="ns=1;i=%d" BrowseName="1:m" ParentNodeId="ns=1;i=%d"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=47" IsForward="false">ns=1;i=%d</Reference></References></UAMethod>' % (k, k + 1, k + 1) if k % 2 else
                                       '<UAObject NodeId="ns=1;i=%d" BrowseName="1:m"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=47" IsForward="false">%s</Reference></References></UAObject>' % (k, 'ns=1;i=%d' % (k + 1) if k < f // 40 else 'i=85') for k in range(1, f // 40 + 1)))
    return o


def big_cases(run, f, only=None):
    import hostile
    out = []
    skip = ('uris',)
    for nm, dd in list(hostile.big_docs(f).items()) + list(big_types(f).items()):
        if nm in skip:
            continue
        out.append(Case(None, ['srv\t0\t1', 'load\t0\t%s\t1' % run.file(dd), 'dump\t0', 'clean\t0'], [dd], 'backend-big:' + nm))
    return out


def huge_cases(run):
    import hostile
    return [Case(None, ['srv\t0\t1', 'addns\t0\turn:n', 'load\t0\t%s\t1' % run.file(dd), 'dump\t0', 'clean\t0'], [dd], 'backend-huge:' + nm) for nm, dd in hostile.huge_docs().items()]


TYPES = {'ObjectType': 'i=58', 'VariableType': 'i=63', 'DataType': 'i=22', 'ReferenceType': 'i=33'}


def cyclic_cases(run, tag, n):
    """Servers whose references form loops: files that refer to themselves and to each other in all directions, loaded one after the other and again."""
    import hostile
    out = []
    ref = lambda t, x, f: '<Reference ReferenceType="%s" IsForward="%s">%s</Reference>' % (t, 'true' if f else 'false', x)
    for k in range(n):
        r = random.Random('cyclic/%s/%d' % (tag, k))
        docs = []
        N = r.choice([1, 2, 3, 5])
        cls = {i: r.choice(list(TYPES)) for i in range(1, N + 1)}
        if r.random() < .5:
            cls = {i: cls[1] for i in cls}
        link = lambda: r.choice(['i=45'] * 6 + ['i=47', 'i=35', 'i=40', 'i=38', 'i=37'] + ['ns=1;i=%d' % i for i in cls if cls[i] == 'ReferenceType'])
        for _ in range(r.randint(1, 4)):
            b = []
            for i in r.sample(sorted(cls), r.randint(1, N)):
                refs = [ref('i=45', TYPES[cls[i]], False)] if r.random() < .8 else []
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    refs.append(ref(link(), 'ns=1;i=%d' % r.choice([i, r.randint(1, N), r.randint(1, N)]), r.random() < .7))
                r.shuffle(refs)
                more = ''
                if cls[i] == 'DataType' and r.random() < .6:
                    more = '<Definition Name="d">%s</Definition>' % ''.join('<Field Name="f%d" DataType="%s" ValueRank="%s"/>' % (j, r.choice(['i=6', 'ns=1;i=%d' % r.randint(1, N)]), r.choice(['-1', '1'])) for j in range(r.randint(0, 3)))
                b.append('<UA%s NodeId="ns=1;i=%d" BrowseName="1:t%d"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls[i], i, i, ' IsAbstract="true"' if r.random() < .2 else '', ''.join(refs), more, cls[i]))
            for _ in range(r.choice([0, 0, 1, 3])):
                i = r.randint(100, 104)
                refs = [ref(r.choice(['i=47', 'i=35']), 'i=85', False)] * (r.random() < .8) + [ref('i=40', r.choice(['i=58', 'i=63', 'ns=1;i=%d' % r.randint(1, N)]), True)] * (r.random() < .8)
                for _ in range(r.randint(0, 2)):
                    refs.append(ref(link(), 'ns=1;i=%d' % r.choice([i, r.randint(100, 104), r.randint(1, N)]), r.random() < .6))
                if r.random() < .5:
                    b.append('<UAObject NodeId="ns=1;i=%d" BrowseName="%s"><DisplayName>n</DisplayName><References>%s</References></UAObject>' % (i, r.choice(['1:o', 'Default Binary']), ''.join(refs)))
                else:
                    b.append('<UAVariable NodeId="ns=1;i=%d" BrowseName="1:v" DataType="ns=1;i=%d" ValueRank="-1"><DisplayName>n</DisplayName><References>%s</References><Value><ExtensionObject><TypeId><Identifier>ns=1;i=%d</Identifier></TypeId><Body><d><f0>1</f0></d></Body></ExtensionObject></Value></UAVariable>' %
                             (i, r.randint(1, N), ''.join(refs), r.choice([r.randint(1, N), 100])))
            if r.random() < .5:
                r.shuffle(b)
            docs.append(hostile.doc(''.join(b), uris=['urn:cyc']))
        ps = [run.file(x) for x in docs]
        order = ps + [r.choice(ps) for _ in range(r.randint(0, 3))]
        out.append(Case(None, ['srv\t0\t%d' % (r.random() < .8)] + ['load\t0\t%s\t0' % p for p in order] + ['dump\t0', 'clean\t0'], docs + [str([ps.index(p) for p in order]).encode()], 'backend-cyclic'))
    return out


def c01(chk, d):
    exe = build(d)
    run = Runner(exe, d, cpu=8)
    cases = hostile_cases(run, SEED, 40000 if THOROUGH else 3500) + cyclic_cases(run, SEED, 20000 if THOROUGH else 1500) + big_cases(run, 1200) + [c for c in huge_cases(run) if c.tag != 'backend-huge:dimensions']  # one realloc per dimension: quadratic with ASan's allocator
    run2 = Runner(build(d, san=[], name='nlback_o2', opt='-O2'), d, cpu=20)
    scale = big_cases(run2, 20000 if THOROUGH else 6000) + huge_cases(run2) + [c for c in big_cases(run2, 40000) if ':reftypes' in c.tag]
    for rn, cs in ((run, cases), (run2, scale)):
        for c, r in run_cases(rn, cs):
            chk.saw()
            chk.count(c.tag.split(':')[0] + ('_cases' if rn is run else '_scaling_cases'))
            chk.nontriv(repr([re.sub(r'/\S*/f\d+', '', l) for l in c.lines]).encode() + doc_key(c))
            if report_crash(chk, r, c.replay() if len(doc_key(c)) < 300000 else {'tag': c.tag}, c.tag):
                continue
            for e in r.ev('load'):
                chk.count('load_ok' if e['r'] else 'load_failed')
            chk.count('server_nodes_read', len(r.ev('sn')))
            chk.count('server_types_read', len(r.ev('type')))
            if not r.ev('end'):
                chk.violation('unfinished', 'the history did not reach its end', c.replay())


    import check_c01
    sm = sys.modules[__name__]
    vg = hostile_cases(run, 'vg/%s' % SEED, 300 if THOROUGH else 32)
    for k in range(100 if THOROUGH else 20):
        r = random.Random('bvg/%s/%d' % (SEED, k))
        w = typed.typed_world(r, sm, nfiles=r.choice([1, 2]), ntypes=6, nvars=8) if k % 2 else BGen(r).world(nfiles=r.choice([1, 2]), nnodes=25, exts=True)
        vg.append(bcase(run, w, None, 'backend-valid', logger=int(r.random() < .7), ext=r.random() < .4))
    check_c01.memcheck(chk, d, vg, builder=build, name='nlback_plain')


def c02(chk, d):
    import check_c02
    exe = build(d)
    run = Runner(exe, d, leak=True, cpu=10)
    cases = hostile_cases(run, 'c02/%s' % SEED, 25000 if THOROUGH else 2200, unlink=False) + big_cases(run, 600)
    sm = sys.modules[__name__]
    # a server whose reference types have ids that hold memory, below every standard one
    names = run.file(('<UANodeSet><NamespaceUris><Uri>urn:names</Uri></NamespaceUris>%s</UANodeSet>' % ''.join(
        '<UAReferenceType NodeId="ns=1;%s" BrowseName="1:n"><DisplayName>n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference></References></UAReferenceType>' % (
            's=a string that is long enough %d' % n, 'i=%d' % n) for n in (31, 32, 33, 35, 37, 38, 39, 40, 41, 44, 45, 46, 47, 48))).encode())
    for k in range(3000 if THOROUGH else 300):
        r = random.Random('bc02/%s/%d' % (SEED, k))
        w = typed.typed_world(r, sm, nfiles=r.choice([1, 2, 3]), ntypes=r.choice([2, 8]), nvars=r.choice([3, 12])) if k % 2 else BGen(r).world(nfiles=r.choice([1, 2]), nnodes=20, exts=True)
        pre = ['load\t0\t%s\t0' % names] if k % 4 > 1 else []
        cases.append(bcase(run, w, Style(r) if r.random() < .3 else None, 'backend-valid', logger=int(r.random() < .7), ext=r.random() < .4, dump_each=False, unlink=False, pre=pre))
    for c, r in run_cases(run, cases):
        chk.saw()
        check_c02.judge(chk, c, r)


# ------------------------------------------------------------------ log messages (C22)

def c22(chk, d, scen, corerun):
    """Messages of the core library must arrive at the server's logger: the core loader's own log of the same file is the reference."""
    exe = build(d)
    run = Runner(exe, d)
    LVL = {0: 200, 1: 400, 2: 500}
    core, back = [], []
    for path, doc, tag in scen:
        core.append(Case(None, ['new\t0\t1\t0', 'imp\t0\t%s\t0' % path, 'sort\t0', 'del\t0'], [doc], tag))
        for lg in (1, 0):
            back.append(Case(None, ['srv\t0\t%d' % lg, 'load\t0\t%s\t0' % path, 'clean\t0'], [doc], tag))
    rc, rb = run_cases(corerun, core), run_cases(run, back)
    for k, (c, x) in enumerate(rc):
        chk.saw(2)
        if report_crash(chk, x, c.replay(), c.tag):
            continue
        want = [(LVL[e['lv']], e['m']) for e in x.events if e['e'] == 'log']
        for cb, xb in rb[2 * k:2 * k + 2]:
            if report_crash(chk, xb, cb.replay(), cb.tag):
                continue
            if xb.out:
                chk.violation('server:printed', 'printed on standard output: %r' % xb.out[:300], cb.replay())
        cb, xb = rb[2 * k]
        got = [(e['lv'], e['m']) for e in xb.events if e['e'] == 'log']
        chk.count('server_log_messages', len(got))
        chk.count('server_log_messages_expected', len(want))
        chk.nontriv(repr((c.tag, want)))
        it = iter(got)
        for m in want:
            if not any(g == m for g in it):
                chk.violation('server:message', '%s: message %s of the loader did not arrive at the server\'s logger in its place; received %s' % (c.tag, m, got[:6]), cb.replay())
                break
        bad = [e for e in xb.events if e['e'] == 'log' and e['s'] != 0]
        if bad:
            chk.violation('server:context', str(bad[:2]), cb.replay())
        for l in xb.ev('load'):
            if not l['r'] and not any(g[0] == 500 for g in got):
                chk.violation('server:silent', '%s: failed load without an error at the server\'s logger: %s' % (c.tag, got[:5]), cb.replay())
    # nodes the server refuses at first, or for good: the loader says so with a warning
    refused = []
    for k in range(40 if THOROUGH else 12):
        r = random.Random('c22r/%d/%d' % (SEED, k))
        f = File(['urn:a'])
        for j in range(r.choice([1, 3, 20])):
            m = Node(METHOD, ('urn:a', 'i', 100 + j))
            m.bn = ('', 'm')
            m.refs.append([I(47), ('urn:a', 'i', 1) if k % 2 else ('urn:a', 'i', 99), False])
            f.nodes.append(m)
        v = Node(VARIABLE, ('urn:a', 'i', 1))
        v.bn = ('', 'v')
        v.refs += [[I(47), I(85), False], [I(40), I(63), True]]
        f.nodes.insert(r.randint(0, len(f.nodes)), v)
        doc = render(f)
        refused.append(Case(None, ['srv\t0\t1', 'load\t0\t%s\t0' % run.file(doc), 'clean\t0'], [doc], 'refused'))
    for c, x in run_cases(run, refused):
        chk.saw()
        if report_crash(chk, x, c.replay(), c.tag):
            continue
        lv = [e['lv'] for e in x.events if e['e'] == 'log']
        chk.count('refused_node_loads')
        if not any(l in (400, 500) for l in lv):
            chk.violation('server:refused', 'nodes were refused, no warning or error arrived at the server\'s logger; levels received: %s' % lv, c.replay())
