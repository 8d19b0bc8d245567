"""C18: what is registered stays valid and unchanged over later loads, released files and loaders."""
from backend import *

KEEP = ('cls', 'bns', 'bn', 'dn', 'desc', 'inv', 'td', 'ctx', 'wm', 'uwm', 'EventNotifier', 'AccessLevel', 'UserAccessLevel', 'ValueRank', 'MinimumSamplingInterval', 'Historizing', 'Executable',
        'UserExecutable', 'IsAbstract', 'Symmetric', 'ContainsNoLoops', 'DataType', 'dims', 'value')


def unchanged(chk, c, old, new, same=False):
    """Everything of the earlier state is in the later one."""
    if new.ns[:len(old.ns)] != old.ns:
        chk.violation('namespaces-changed', '%s then %s' % (old.ns, new.ns), c.replay())
    for i, e in old.nodes.items():
        g = new.nodes.get(i)
        chk.count('earlier_nodes_reread')
        if g is None:
            chk.violation('node-lost', i, c.replay())
            continue
        for k in KEEP:
            if e[k] != g[k]:
                chk.violation('node-changed:' + k, '%s: %s was %s, is %s' % (i, k, str(e[k])[:300], str(g[k])[:300]), c.replay())
        lost = [x for x in e['refs'] if x not in g['refs']]
        if lost or (same and len(g['refs']) != len(e['refs'])):
            chk.violation('refs-changed', '%s: was %s, is %s' % (i, e['refs'], g['refs']), c.replay())
    at = {t['id']: t for t in new.types}
    for t in old.types:
        g = at.get(t['id'])
        chk.count('earlier_types_reread')
        if g is None or any(t[k] != g[k] for k in ('adr', 'id', 'enc', 'name', 'size', 'kind', 'pf', 'ov', 'mem', 'found')):
            chk.violation('type-changed', 'was %s, is %s' % (t, g), c.replay())
    if same and (len(old.types) != len(new.types) or set(old.nodes) != set(new.nodes)):
        chk.violation('changed-by-reload', '%d/%d types, %d/%d nodes' % (len(old.types), len(new.types), len(old.nodes), len(new.nodes)), c.replay())


def app_world(r, w):
    """A first file that declares types the application registered before (same ids), to be used by the others."""
    f = w.files[0]
    uri = [u for u in f.uris if u != UA_URI][0]
    out = []
    for k in range(r.choice([1, 2, 5])):
        n = Node(DATATYPE, (uri, 'i', 90001 + k))
        n.bn, n.dn = (uri, 'AppType'), (None, 'AppType')
        n.refs.append([I(45), I(22), False])
        n.definition = {'name': 'AppType', 'fields': [{'name': 'a', 'dt': I(6)}, {'name': 'b', 'dt': I(3)}]}
        t = typed.Ty(n.id, typed.STRUCTURE, 'AppType')
        t.mem = [typed.Mem('a', typed.BUILTIN[6]), typed.Mem('b', typed.BUILTIN[3])]
        t.own, t.opts = t.mem, False
        t.enc = (uri, 'i', 91001 + k)
        t.layout()
        n.ty = t
        t.file = 0
        w.ty[n.id] = t
        out.append((n, t))
    return uri, out


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d, cpu=10)
    chk.rule = ('two to six files loaded one after the other into one server (files removed directly after their load, later files deriving from, containing and instantiating types of earlier ones, ids of all kinds), '
                'a dump of every node, value and type after each load: later dumps must contain every earlier node, value and type record unchanged and at the same address, and match the declarations; reloads of a '
                'file, two servers in alternation, types registered by the application beforehand, more than a hundred loads, then the clean-up function. All under ASan. Non-trivial: distinct histories')
    chk.assumptions = ['types are read through the addresses the server configuration and the stored values hold, as the server does']
    sm = sys.modules['backend']

    def mk(r, k):
        m = k % 6
        if m == 0:      # address space
            w = BGen(r).world(nfiles=r.choice([2, 3, 5]), nnodes=r.choice([10, 40, 100]))
        else:
            w = typed.typed_world(r, sm, nfiles=r.choice([2, 3, 4, 6]), ntypes=r.choice([2, 5, 10]), nvars=r.choice([3, 10]), nns=r.choice([1, 2, 5]))
        docs = [render(f, Style(r) if r.random() < .2 else None) for f in w.files]
        lines, pre = ['srv\t0\t%d' % (r.random() < .8)], 0
        c = Case(w, lines, docs, 'c18/%d' % k)
        c.exp = []      # per dump of slot 0: (files loaded, reload)
        c.skip = ()
        c.other = None
        if m == 5:
            uri, app = app_world(r, w)
            f0 = w.files[0]
            vg = typed.VGen(r, Gen(r), w, f0, 'uax:')
            for n, t in app:
                f0.nodes.insert(r.randint(0, len(f0.nodes)), n)
                for j in range(2):
                    v = Node(VARIABLE, (uri, 's', 'appv%s%d' % (n.id[2], j)))
                    v.bn, v.dn = (uri, 'v'), (None, 'v')
                    v.refs = [[I(47), I(85), False], [I(40), I(63), True]]
                    v.expect = vg.variable(v, t, bool(j))
                    if v.expect is None:
                        v.value = None
                    f0.nodes.append(v)
            # application types are members of further types
            hold = typed.Ty((uri, 's', 'holder'), typed.STRUCTURE, 'Holder')
            hold.mem = [typed.Mem('x', typed.BUILTIN[3]), typed.Mem('app', app[0][1]), typed.Mem('list', app[-1][1], True)]
            hold.own, hold.opts, hold.file = hold.mem, False, 0
            hold.layout()
            h = Node(DATATYPE, hold.id)
            h.bn, h.dn, h.ty = (uri, 'Holder'), (None, 'h'), hold
            h.refs.append([I(45), I(22), False])
            h.definition = {'name': 'Holder', 'fields': [{'name': 'x', 'dt': I(3)}, {'name': 'app', 'dt': app[0][0].id}, {'name': 'list', 'dt': app[-1][0].id, 'ValueRank': '1'}]}
            f0.nodes.append(h)
            w.ty[hold.id] = hold
            docs[0] = render(f0, None)
            lines.append('addns\t0\t' + uri)
            lines.append('app\t0\t2\t%d' % len(app))
            c.app = len(app)
            c.skip = ['2;i=%d' % (90001 + j) for j in range(len(app))]
        if m == 4:      # a second server in between
            w2 = typed.typed_world(r, sm, nfiles=len(w.files), ntypes=3, nvars=4)
            lines.append('srv\t1\t0')
            c.other = w2
            c.docs2 = [render(f) for f in w2.files]
        for j, doc in enumerate(docs):
            p = run.file(doc)
            lines += ['load\t0\t%s\t0' % p]
            if c.other:
                q = run.file(c.docs2[j])
                lines += ['load\t1\t%s\t0' % q, 'unlink\t1\t' + q]
                if r.random() < .5:
                    lines.append('dump\t1')
            if m == 3 and r.random() < .6:
                lines += ['dump\t0']
                c.exp.append((j + 1, False))
                lines += ['load\t0\t%s\t0' % p, 'unlink\t0\t' + p, 'dump\t0']
                c.exp.append((j + 1, True))
            else:
                lines += ['unlink\t0\t' + p, 'dump\t0']
                c.exp.append((j + 1, False))
        if c.other:
            lines += ['dump\t1', 'clean\t1', 'dump\t0']
            c.exp.append((len(docs), True))
        lines.append('clean\t0')
        return c
    cases = generate(chk, 6000 if THOROUGH else 700, mk)
    # many small loads
    for k in range(6 if THOROUGH else 2):
        r = random.Random('c18many/%s/%d' % (SEED, k))
        w = typed.typed_world(r, sm, nfiles=120, ntypes=1, nvars=1, nns=2)
        c = bcase(run, w, None, 'c18/many', dump_each=False)
        c.exp, c.skip, c.other, c.each = [(120, False)], (), None, False
        cases.append(c)
    for c, r in run_cases(run, cases):
        chk.saw()
        b = ran(chk, c, r)
        if b is None:
            continue
        mine = [s[2] for s in b.steps if s[0] == 'dump' and s[1] == 0]
        other = [s[2] for s in b.steps if s[0] == 'dump' and s[1] == 1]
        if len(mine) != len(c.exp):
            chk.violation('unfinished', '%d of %d dumps' % (len(mine), len(c.exp)), c.replay())
            continue
        if not loads_ok(chk, c, b):
            continue
        for sl, w, dumps, exp in ((0, c.world, mine, c.exp), (1, c.other, other, None)):
            if w is None:
                continue
            prev = None
            for j, st in enumerate(dumps):
                if exp:
                    n, again = exp[j]
                    v = w.upto(n)
                    v.set_idx(st.ns)
                    what = ':reload' if again else ''
                    if nstab_ok(chk, c, st, [u for f in v.files for u in f.uris if u != UA_URI]):
                        check_space(chk, c, v, st, what)
                        if getattr(c.world, 'tg', None):
                            typed.check_types(chk, c, v, st, c.skip)
                        typed.check_values(chk, c, v, st)
                elif j == len(dumps) - 1:
                    w.set_idx(st.ns)
                    if nstab_ok(chk, c, st, [u for f in w.files for u in f.uris if u != UA_URI]):
                        check_space(chk, c, w, st, ':second')
                        typed.check_types(chk, c, w, st)
                        typed.check_values(chk, c, w, st)
                    again = False
                else:
                    again = False
                if prev is not None:
                    unchanged(chk, c, prev, st, again)
                prev = st
        chk.nontriv(doc_key(c))
    chk.sample('\n'.join(cases[3].lines)[:400])
