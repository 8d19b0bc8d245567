"""C06: references, delivered and classified."""
from dag import *
import reader


def mk(run, r, k):
    g = Gen(r)
    w = g.world(nfiles=r.choice([1, 1, 2, 3]), nnodes=r.choice([3, 10, 30, 80]), values=False, definitions=False, extra_hier=r.choice([0.2, 0.7]), parents=r.random() < 0.6)
    for n in w.nodes():
        # repeated references, and the standard types on every class
        for _ in range(r.choice([0, 0, 1])):
            if n.refs:
                n.refs.append(list(r.choice(n.refs)))
        if r.random() < 0.05:
            for _ in range(r.choice([20, 120])):
                n.refs.append([I(r.choice(NONHIER0)), (w.files[0].uris[-1] if w.files[0].uris[-1] != UA_URI else '', 's', 'T%d' % r.randint(0, 9999)), r.random() < 0.5])
        if n.cls not in (OBJECT, VARIABLE) and r.random() < 0.1:
            n.refs.append([I(40), I(58), True])
    mode = r.random()
    unknown = False
    types = sorted({rt for n in w.nodes() for rt, _, _ in n.refs}, key=repr)
    if mode < 0.3:
        # a caller's service that knows nothing of the standard; acyclic whatever it says is not given, so hierarchical
        # types stay a subset of the hierarchical ones
        w.kinds = {}
        for rt in types:
            if rt == I(40):
                w.kinds[rt] = r.choice('TTN')
            elif (rt[0] == '' and rt[2] in HIER0_ALL) or rt in w.hier:
                w.kinds[rt] = r.choice('HHHNT')
            else:
                w.kinds[rt] = r.choice('NNNT')
    if r.random() < 0.2:
        unknown = True
        n = r.choice(list(w.nodes()))
        u = next(x for x in w.files[0].uris if x != UA_URI)
        rt = r.choice([(u, 'i', 99999), (u, 's', 'NoSuchType')])
        for _ in range(r.choice([1, 2])):
            n.refs.insert(r.randint(0, len(n.refs)), [rt, r.choice([I(85), n.id]), r.random() < 0.5])
        if w.kinds is not None and r.random() < 0.5:
            # also a standard type the caller's service does not know
            known = [t for t in types if t[0] == '']
            if known:
                w.kinds.pop(r.choice(known), None)
    c = world_case(run, w, Style(r) if r.random() < 0.3 else None, tag='c06/%d' % k, sort_between=not unknown and 'maybe')
    c.unknown = unknown
    return c


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random nodesets with standard and file-declared reference types (supertypes before or after, in any file), repeated references, long lists, '
                'built-in and caller-supplied reference service, unknown types; compared as multisets per list; non-trivial: distinct files with at least 10 references')
    cases = generate(chk, 3000 if THOROUGH else 400, lambda r, k: mk(run, r, k))
    # many custom types, long subtype chains
    for nt, how in ((60, 'chain'), (60, 'flat'), (250, 'chain'), (250, 'tree'), (120, 'rev')):
        r = random.Random('types%d%s%d' % (nt, how, SEED))
        w = World()
        w.idx['urn:t'] = 7
        f = File(['urn:t'])
        w.files.append(f)
        for root in (33, 32, 47, 41, 49):
            prev = [I(root)]
            for k in range(nt // 5):
                t = Node(REFTYPE, ('urn:t', 'i', root * 1000 + k))
                t.bn = ('', 't')
                t.refs.append([I(45), {'chain': prev[-1], 'rev': prev[-1], 'flat': prev[0], 'tree': r.choice(prev)}[how], False])
                if root in (33, 47, 49):
                    w.hier.add(t.id)
                prev.append(t.id)
                f.nodes.append(t)
        ts = [n.id for n in f.nodes]
        if how == 'rev':
            f.nodes.reverse()
        for k, t in enumerate(ts):
            m = Node(OBJECT, ('urn:t', 's', 'o%d' % k))
            m.bn = ('', 'o')
            m.refs.append([t, I(85), False])
            m.refs.append([I(40), I(58), True])
            f.nodes.append(m)
        if how != 'rev':
            r.shuffle(f.nodes)
        c = world_case(run, w, tag='types %d %s' % (nt, how))
        c.unknown = False
        cases.append(c)
    # one node with very many references, one target of very many
    for nrefs in (300, 70000):
        r = random.Random('manyrefs%d/%d' % (nrefs, SEED))
        w = World()
        w.idx['urn:t'] = 7
        f = File(['urn:t'])
        w.files.append(f)
        hub = Node(OBJECT, ('urn:t', 's', 'hub'))
        hub.bn = ('', 'hub')
        for k in range(nrefs):
            hub.refs.append([I(r.choice([41, 47, 35, 39, 53])), ('urn:t', 'i', k), True])
        f.nodes.append(hub)
        for k in range(0, nrefs, 7):
            m = Node(VARIABLE, ('urn:t', 'i', k))
            m.bn = ('', 'm')
            m.refs.append([I(41), hub.id, True])
            f.nodes.append(m)
        c = world_case(run, w, tag='refs %d' % nrefs)
        c.unknown = False
        cases.append(c)
    for c in reader.core_cases(run, 'c06', 6 if THOROUGH else 1):
        c.unknown = False
        cases.append(c)
    for c, r in run_cases(run, cases):
        chk.saw()
        for e in r.ev('badctx'):
            chk.violation('context', 'callback with a wrong context: %s' % e, c.replay())
        if c.unknown:
            if report_crash(chk, r, c.replay(), c.tag):
                continue
            o = Observed(r)
            chk.count('unknown_types')
            if not all(o.imports):
                chk.violation('import-failed', str(o.logs[:2]), c.replay())
            elif o.sorts != [False]:
                chk.violation('unknown-type-accepted', 'sort returned %s although a reference type is unknown' % o.sorts, c.replay())
            elif not o.errors:
                chk.violation('unknown-type-silent', 'no error message', c.replay())
            continue
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        if sum(len(n.refs) for n in c.world.nodes()) >= 10:
            chk.nontriv(doc_key(c))
        chk.count('custom_service' if c.world.kinds is not None else 'builtin_service')
        check_refs(chk, c, o)
    chk.sample(cases[1].docs[0].decode()[:500])
