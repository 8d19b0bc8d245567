"""C08: aliases against written-out ids, and against the model."""
from core import *

NAMES = ['HasComponent' * 12 + 'A', 'HasComponent' * 12 + 'B', 'HasComponent', 'HasComponentX', 'HasComp', 'i=47', 'i=4', 'ns=1;i=1000', 'Boolean', 'boolean', 'Bool', 'a b', 'Ä', 'x;y=z', '85', 's=abc', 'ns=1;s=x', 'HasSubtype', 'Organizes', 'g=1']


def strip(n):
    n = dict(n)
    for k in ('e', 's'):
        n.pop(k, None)
    return json.dumps(n, sort_keys=True)


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random nodesets whose ids are replaced by aliases in every allowed position: 0 to 2000 aliases per file, names that are prefixes of each other or look '
                'like node ids, ids of all kinds, several aliases for one id, different aliases per file; delivered data compared with the model and with the same file '
                'without aliases; non-trivial: distinct files that use at least 3 aliases')
    chk.assumptions = ['alias names are unique per file', 'alias names and ids carry no surrounding white space']

    def mk(r, k):
        g = Gen(r)
        w = g.world(nfiles=r.choice([1, 1, 2, 3]), nnodes=r.choice([3, 10, 40, 120]), values=False, aliases=False)
        for f in w.files:
            used = []
            for n in f.nodes:
                for rt, tg, fw in n.refs:
                    used += [rt, tg]
                if n.datatype:
                    used.append(n.datatype)
                if n.definition:
                    used += [fl['dt'] for fl in n.definition['fields'] if fl.get('dt')]
            used = sorted(set(used), key=repr)
            r.shuffle(used)
            used = used[:r.choice([0, 1, 3, 20, len(used)])]
            pool = NAMES[:]
            r.shuffle(pool)
            items = []
            for i in used:
                for _ in range(r.choice([1, 1, 3])):
                    nm = pool.pop() if pool and r.random() < 0.5 else 'Alias%d' % len(items)
                    items.append((nm, i))
            # entries nobody uses; sizes around the initial capacity and its doublings
            want = r.choice([0, 0, 0, 298, 299, 300, 301, 599, 600, 601, 1300, 2000])
            u = next(x for x in f.uris if x != UA_URI)
            while len(items) < want:
                items.append(('Pad%d' % len(items), r.choice([I(len(items)), (u, 's', 'p%d' % len(items)), (u, 'g', '00000000-0000-0000-0000-%012x' % len(items))])))
            r.shuffle(items)
            # an alias name must not be a plain id written elsewhere in this file
            plain = set()
            for n in f.nodes:
                for rt, tg, fw in n.refs:
                    plain |= {id_str(f, rt), id_str(f, tg)}
                for x in [n.datatype] + ([fl.get('dt') for fl in n.definition['fields']] if n.definition else []):
                    if x:
                        plain.add(id_str(f, x))
            seen = set()
            al = set(i for _, i in items)
            for nm, i in items:
                if nm in seen:
                    continue
                seen.add(nm)
                if nm in plain:
                    continue
                f.aliases[nm] = i
        if len(w.files) > 1 and r.random() < .5:
            # the alias used last in a file is the one used first in the next one, with another meaning
            for a, b in zip(w.files, w.files[1:]):
                x = [tg for n in a.nodes[-3:] for rt, tg, fw in n.refs]
                y = [z for n in b.nodes[:3] for z in [n.datatype] + [rt for rt, tg, fw in n.refs[:2]] if z]
                if not x or not y or x[-1] == y[0]:
                    continue
                nm = 'Again%d' % r.randint(0, 3)
                for g, i in ((a, x[-1]), (b, y[0])):
                    g.aliases = {m: z for m, z in g.aliases.items() if z != i and m != nm}
                    g.aliases[nm] = i
        for f in w.files:
            used = {z for n in f.nodes for rt, tg, fw in n.refs for z in (rt, tg)}
            f.nused = sum(1 for i in f.aliases.values() if i in set(used))
        c = world_case(run, w, Style(r, alias_use=r.choice([1.0, 0.5])) if r.random() < 0.6 else None, tag='c08/%d' % k)
        w2 = copy.deepcopy(w)
        for f in w2.files:
            f.aliases = {}
        c.plain = world_case(run, w2, tag='c08p/%d' % k)
        return c
    cases = generate(chk, 2000 if THOROUGH else 260, mk)
    for na in (5000, 70000):
        r = random.Random('c08big%d/%d' % (na, SEED))
        w = World()
        w.idx['urn:t'] = 7
        f = File(['urn:t'])
        w.files.append(f)
        for k in range(na):
            f.aliases['A%x' % k] = ('urn:t', 'i', k)
        for k in sorted({0, 1, 255, 256, na - 1, na // 2, 65535 % na, 65536 % na}):
            m = Node(VARIABLE, ('urn:t', 's', 'n%d' % k))
            m.bn = ('', 'n')
            m.datatype = ('urn:t', 'i', k)
            m.refs += [[I(41), ('urn:t', 'i', k), True], [I(47), ('urn:t', 'i', r.randrange(na)), False]]
            f.nodes.append(m)
        f.nused = 8
        c = world_case(run, w, tag='c08/aliases %d' % na)
        w2 = copy.deepcopy(w)
        w2.files[0].aliases = {}
        c.plain = world_case(run, w2, tag='c08p/aliases %d' % na)
        cases.append(c)
    res = run.run([c.lines for c in cases] + [c.plain.lines for c in cases])
    for k, c in enumerate(cases):
        chk.saw()
        o = loaded(chk, c, res[k], c.tag)
        p = loaded(chk, c.plain, res[len(cases) + k], c.tag)
        if o is None or p is None:
            continue
        n = sum(f.nused for f in c.world.files)
        chk.count('aliases_declared', sum(len(f.aliases) for f in c.world.files))
        if n >= 3:
            chk.nontriv(doc_key(c))
        check_nodes(chk, c, o)
        check_refs(chk, c, o)
        check_definitions(chk, c, o)
        a, b = sorted(strip(x) for x in o.nodes), sorted(strip(x) for x in p.nodes)
        if a != b:
            x = next(((i, j) for i, j in zip(a, b) if i != j), (a[-1:], b[-1:]))
            chk.violation('differs', 'with aliases: %s\nwritten out: %s' % x, c.replay())
        if sorted(map(str, o.bidi)) != sorted(map(str, p.bidi)):
            chk.violation('links-differ', '%s %s' % (o.bidi[:3], p.bidi[:3]), c.replay())
    chk.sample(cases[0].docs[0].decode()[:500])
