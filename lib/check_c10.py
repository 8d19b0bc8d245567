"""C10: data type definitions and encoding links."""
from core import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random data types of every definition kind with 0 to 300 fields and attribute subsets, with and without default binary encoding nodes '
                '(also other encodings, forward links, aliases, ids of all kinds); links read before and after sorting; non-trivial: distinct files with a field or a link')
    chk.assumptions = ['option sets are flagged and carry no fields', 'one definition element per data type']

    def mk(r, k):
        g = Gen(r)
        w = g.world(nfiles=r.choice([1, 1, 2]), nnodes=r.choice([4, 20, 40]), classes=[DATATYPE] * 4 + [OBJECT, VARIABLE], values=False, aliases=False, custom_refs=r.random() < 0.3)
        dts = [n for n in w.nodes() if n.cls == DATATYPE]
        links = []
        for n in dts:
            if r.random() < 0.05 and n.definition:
                n.definition['fields'] = [{'name': 'f%d' % j, 'dt': I(r.randint(1, 25)), 'ValueRank': r.choice(['-1', '1'])} for j in range(r.choice([100, 300]))]
                n.definition.pop('IsOptionSet', None)
            for enc in ('Default Binary', 'Default XML', 'Default JSON', 'Default BinaryX'):
                if r.random() < 0.4:
                    e = Node(OBJECT, g.new_id(n.id[0]))
                    e.bn = (r.choice(['', '', '', n.id[0]]), enc)
                    way = r.choice(['i', 'i', 'i', 'f', 'if', 'w', 'iw', 'b'])
                    if 'i' in way:
                        e.refs.append([I(38), n.id, False])
                        if enc == 'Default Binary':
                            links.append([w.gid(n.id), w.gid(e.id), w.gid(I(38))])
                    if 'w' in way:
                        # the wrong way round: no statement that the node is an encoding
                        e.refs.append([I(38), r.choice([n.id, I(90)]) if way == 'w' else I(90), True])
                    if 'b' in way:
                        n.refs.append([I(38), e.id, False])
                    if 'f' in way:
                        n.refs.append([I(38), e.id, True])
                    e.refs.append([I(40), I(76), True])
                    if r.random() < 0.3:
                        e.refs.append([I(39), r.choice([I(85), n.id]), r.random() < 0.5])
                    r.shuffle(e.refs)
                    f = r.choice(w.files)
                    f.nodes.insert(r.randint(0, len(f.nodes)), e)
        for f in w.files:
            g.aliases(w, f)
        c = world_case(run, w, Style(r) if r.random() < 0.5 else None, ops=('bidi', 'sort', 'bidi', 'dump', 'del'), tag='c10/%d' % k)
        c.links = links
        return c
    cases = generate(chk, 3000 if THOROUGH else 400, mk)
    large = []
    for nf in (256, 1000, 70000):
        for kind in ('struct', 'enum'):
            w = World()
            w.idx['urn:t'] = 9
            f = File(['urn:t'])
            w.files.append(f)
            n = Node(DATATYPE, ('urn:t', 'i', 1))
            n.bn = ('urn:t', 'D')
            n.definition = {'name': 'D', 'fields': [{'name': 'f%d' % j, 'Value': str(j)} if kind == 'enum' else {'name': 'f%d' % j, 'dt': I(j % 25 + 1), 'ValueRank': '-1'} for j in range(nf)]}
            f.nodes.append(n)
            c = world_case(run, w, ops=('bidi', 'sort', 'bidi', 'dump', 'del'), tag='c10/fields %d' % nf)
            c.links = []
            (large if nf > 1000 else cases).append(c)
    w = World()
    w.idx['urn:t'] = 9
    f = File(['urn:t'])
    w.files.append(f)
    links = []
    for j in range(2500):
        n, e = Node(DATATYPE, ('urn:t', 'i', j)), Node(OBJECT, ('urn:t', 's', 'e%d' % j))
        n.bn, e.bn = ('urn:t', 'D'), ('', 'Default Binary')
        e.refs.append([I(38), n.id, False])
        f.nodes += [n, e] if j % 2 else [e, n]
        links.append([w.gid(n.id), w.gid(e.id), w.gid(I(38))])
    c = world_case(run, w, ops=('bidi', 'sort', 'bidi', 'dump', 'del'), tag='c10/links')
    c.links = links
    cases.append(c)
    for c in reader.core_cases(run, 'c10', 6 if THOROUGH else 1, ops=('bidi', 'sort', 'bidi', 'dump', 'del')):
        w = c.world
        c.links = [[w.gid(tg), w.gid(n.id), w.gid(I(38))] for n in w.nodes() if n.cls == OBJECT and n.bn[1] == 'Default Binary' for rt, tg, fw in n.refs if rt == I(38) and not fw]
        cases.append(c)
    for c, r in run_cases(run, cases) + run_cases(Runner(build_plain(d), d), large):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        check_definitions(chk, c, o)
        seqs, cur = [], []
        for e in r.events:
            if e['e'] == 'bidi':
                cur.append([e['src'], e['dst'], e['rt']])
            elif e['e'] == 'bidiend':
                seqs.append(cur)
                cur = []
        if len(seqs) != 2:
            chk.violation('links', 'links could not be read', c.replay())
        for when, s in zip(('import', 'sort'), seqs):
            chk.count('links_compared', len(c.links))
            m, x = msdiff(c.links, s)
            if m or x:
                chk.violation('links', 'after %s: missing %s, unexpected %s' % (when, m, x), c.replay())
        if c.links or any(n.definition and n.definition['fields'] for n in c.world.nodes()):
            chk.nontriv(doc_key(c))
    chk.sample(cases[0].docs[0].decode()[:500])
