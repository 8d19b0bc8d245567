"""C19: failing loads leave the server's nodes, references and types as they were, and later loads are complete."""
from backend import *
import copy, xmlgen


def cyclic(r, w, f):
    """Adds a cycle of hierarchical references among nodes of file f (a copy); None when not possible."""
    f = copy.deepcopy(f)
    n = r.choice([2, 2, 3, 8, 40])
    uri = [u for u in f.uris if u != UA_URI][0]
    custom = [i for i in w.hier if any(m.id == i for m in f.nodes)]
    ids = []
    for k in range(n):
        m = Node(r.choice([OBJECT, OBJECT, VARIABLE, METHOD]), (uri, 's', 'cyc%d' % k))
        m.bn, m.dn = (uri, 'c'), (None, 'c')
        ids.append(m)
    for k, m in enumerate(ids):
        q = ids[(k + 1) % n]
        rt = r.choice([I(47), I(35), I(46)] + custom)
        c = r.random()
        if c < .5:
            q.refs.append([rt, m.id, False])
        elif c < .8:
            m.refs.append([rt, q.id, True])
        else:
            q.refs.append([rt, m.id, False])
            m.refs.append([rt, q.id, True])
    if r.random() < .6:
        ids[0].refs.append([I(47), I(85), False])
    for m in ids:
        f.nodes.insert(r.randint(0, len(f.nodes)), m)
    return f


def unknown_ref(r, w, f):
    """A reference of a type nobody knows."""
    f = copy.deepcopy(f)
    if not f.nodes:
        return None
    n = r.choice(f.nodes)
    uri = r.choice([u for u in f.uris if u != UA_URI])
    rt = r.choice([(uri, 'i', 3999999), (uri, 's', 'no such type'), I(3999999), I(85), (uri, 'g', '%032x' % 1 if False else '00000000-0000-0000-0000-00000000abcd')])
    n.refs.insert(r.randint(0, len(n.refs)), [rt, r.choice([I(85), n.id, r.choice(f.nodes).id]), r.random() < .5])
    return f


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('a server with zero to two loaded files, then one to three failing loads of further files (truncated at random positions, broken tags and bytes, hierarchy cycles of 2 to 40 nodes, unknown reference types, '
                'missing and unreadable paths, null arguments), with a dump before and after each, then the correct versions of the files. Dumps around a failure must agree in nodes, references and types, an error message '
                'must have been logged, and the dumps after the correct loads must match the declarations. Non-trivial: distinct histories')
    chk.assumptions = ['the namespace table of the server may grow in a failing load']
    sm = sys.modules['backend']
    sub = os.path.join(d, 'adir')
    os.makedirs(sub)

    def mk(r, k):
        if k % 2:
            w = typed.typed_world(r, sm, nfiles=r.choice([1, 2, 3]), ntypes=r.choice([2, 6]), nvars=r.choice([2, 8]), nns=r.choice([1, 2, 3]))
        else:
            w = BGen(r).world(nfiles=r.choice([1, 2, 3]), nnodes=r.choice([4, 20, 60]))
        style = lambda: Style(r) if r.random() < .3 else None
        docs = [render(f, style()) for f in w.files]
        logger = int(r.random() < .85)
        lines = ['srv\t0\t%d' % logger, 'dump\t0']
        c = Case(w, lines, [], 'c19/%d' % k)
        c.logger, c.plan, c.typed = logger, [('dump', 0, False)], bool(k % 2)
        for j, f in enumerate(w.files):
            for _ in range(r.choice([0, 1, 1, 2])):
                how = r.choice(['truncated', 'truncated', 'malformed', 'byte', 'cycle', 'cycle', 'unknown', 'unknown', 'missing', 'dir', 'nullpath', 'nullserver', 'empty', 'cyclebroken'])
                doc, path = None, None
                if how == 'truncated':
                    e = len(docs[j].rstrip())
                    doc = docs[j][:r.randrange(e) if r.random() < .6 else max(0, e - r.randint(1, 60))]
                elif how == 'malformed':
                    x = xmlgen.malform(r, docs[j].decode())
                    doc = x if isinstance(x, bytes) else x.encode('utf-8', 'surrogateescape')
                elif how == 'byte':
                    b = bytearray(docs[j])
                    b[r.randrange(len(b) // 2, len(b))] = r.choice([0, 1, 0xff, 0x3c, 0x26])
                    doc = bytes(b)
                elif how == 'empty':
                    doc = b''
                elif how in ('cycle', 'unknown', 'cyclebroken'):
                    g = unknown_ref(r, w, f) if how == 'unknown' else cyclic(r, w, f)
                    if g is None:
                        continue
                    doc = render(g, style())
                    if how == 'cyclebroken':
                        doc = doc.rstrip()[:-3]
                if how in ('truncated', 'malformed', 'byte') and xmlgen.expat_trace(doc, ns=False) is not None:
                    continue
                if how == 'missing':
                    path = d + '/does-not-exist.xml'
                elif how == 'dir':
                    path = sub
                elif how == 'nullpath':
                    path = ''
                if how == 'nullserver':
                    lines.append('loadnull\t0\t%s' % run.file(docs[j]))
                else:
                    if doc is not None:
                        path = run.file(doc)
                        c.docs.append(doc)
                    lines.append('load\t0\t%s\t%d' % (path, r.random() < .2))
                lines.append('dump\t0')
                c.plan += [('fail', how, how != 'nullserver'), ('dump', j, False)]
            c.docs.append(docs[j])
            lines += ['load\t0\t%s\t0' % run.file(docs[j]), 'dump\t0']
            c.plan += [('load', None, None), ('dump', j + 1, True)]
        return c
    cases = [c for c in generate(chk, 9000 if THOROUGH else 1100, mk) if any(p[0] == 'fail' for p in c.plan)]
    for c, r in run_cases(run, cases):
        chk.saw()
        b = ran(chk, c, r)
        if b is None:
            continue
        if len(b.steps) != len(c.plan):
            chk.violation('unfinished', '%d of %d steps' % (len(b.steps), len(c.plan)), c.replay())
            continue
        chk.nontriv(repr(c.plan).encode() + b''.join(c.docs))
        prev, how = None, None
        for p, s in zip(c.plan, b.steps):
            if p[0] == 'fail':
                how = p[1]
                chk.count('failures_' + how)
                if s[1]:
                    chk.violation('accepted:' + how, 'the load reported success', c.replay())
                    break
                if p[2] and c.logger and not any(l['lv'] >= 500 for l in s[2]):
                    chk.violation('silent:' + how, 'no error message, logged %s' % [l['m'] for l in s[2]][:4], c.replay())
            elif p[0] == 'load':
                how = None
                if not s[1]:
                    chk.violation('later-load-failed', 'a correct load after failures failed: %s' % [l['m'] for l in s[2]][:4], c.replay())
                    break
            else:
                st = s[2]
                if how is not None:
                    chk.count('states_compared')
                    chk.count('records_compared', len(st.nodes) + len(st.types) + len(st.n0))
                    for what, a, z in (('nodes', prev.nodes, st.nodes), ('standard-nodes', prev.n0, st.n0), ('types', prev.types, st.types)):
                        if a != z:
                            if isinstance(a, dict):
                                x = [i for i in set(a) | set(z) if a.get(i) != z.get(i)][:3]
                            else:
                                x = [t['id'] for t in z if t not in a][:3] or [t['id'] for t in a if t not in z][:3]
                            chk.violation('residue:%s:%s' % (what, how), '%d before, %d after, different: %s' % (len(a), len(z), x), c.replay())
                    if st.ns[:len(prev.ns)] != prev.ns:
                        chk.violation('residue:namespaces:' + how, '%s then %s' % (prev.ns, st.ns), c.replay())
                elif p[1]:
                    v = c.world.upto(p[1])
                    v.set_idx(st.ns)
                    if nstab_ok(chk, c, st, [u for f in v.files for u in f.uris if u != UA_URI]):
                        check_space(chk, c, v, st, ':later')
                        if c.typed:
                            typed.check_types(chk, c, v, st)
                            typed.check_values(chk, c, v, st)
                prev = st
    chk.sample('\n'.join(cases[0].lines)[:400])
