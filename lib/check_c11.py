"""C11: extension sessions against the document, and without a handler."""
from core import *


def exp_events(e):
    """Events of one Extension element."""
    out = []

    def walk(t, nsmap):
        name, attrs, text, kids = t
        out.append(['xstart', local(t), sorted([a, v] for a, v in attrs if not a.startswith('xmlns'))])
        for k in kids:
            walk(k, nsmap)
        out.append(['xend', local(t), None if kids else (text or None), bool(kids), text])
    for t in e:
        walk(t, {})
    return out


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random extensions on nodes of all classes: inner elements nested up to 12 deep, named like nodeset elements (also Extension), with attributes and texts, one to '
                'three extension elements per node; each file is loaded with and without handler; non-trivial: distinct files with at least one inner element')
    chk.assumptions = ['the text of an element that also contains elements is only compared with the text the element has itself, it may be incomplete', 'of several extensions on one node the node carries the object of the last one']

    def mk(r, k):
        g = Gen(r)
        w = g.world(nfiles=r.choice([1, 1, 2]), nnodes=r.choice([2, 8, 25]), exts=True, custom_refs=False, values=r.random() < 0.5)
        for n in w.nodes():
            if n.exts and r.random() < 0.1:
                n.exts.append([])
            if n.exts and r.random() < 0.1:
                n.exts = [[g.ext_tree(r.choice([6, 12]))] for _ in range(3)]
        docs = [render(f, Style(r, unknown=0) if r.random() < 0.5 else None) for f in w.files]
        # every file has a handler of its own, or none
        h = [r.choice([1, 1, 1, 2, 0]) for _ in docs] if len(docs) > 1 else [r.choice([1, 2])]
        c = world_case(run, w, ext=h, docs=docs, tag='c11/%d' % k, sort_between='maybe')
        c.handlers = h
        c.none = world_case(run, w, ext=False, docs=docs, tag='c11n/%d' % k)
        return c
    cases = generate(chk, 2500 if THOROUGH else 320, mk)
    for k, what in enumerate(('attributes', 'elements', 'sessions', 'text', 'depth', 'extensions')):
        g = Gen(random.Random('c11big%d/%d' % (k, SEED)))
        w = g.world(nnodes=6, custom_refs=False, values=False)
        ns = w.files[0].nodes
        leaf = lambda j: ['e%d' % (j % 50), [('a', str(j))], 't%d' % j, []]
        chain = lambda n: ['d%d' % n, [('a', 'b')], 'deep' if n < 2 else None, [chain(n - 1)] if n > 1 else []]
        if what == 'attributes':
            ns[0].exts = [[['E', [('a%d' % j, 'v%d' % j) for j in range(n)], 'x', []] for n in (10, 11, 64, 65, 300, 1000)]]
        elif what == 'elements':
            ns[0].exts = [[leaf(j) for j in range(20000)]]
        elif what == 'depth':
            ns[0].exts = [[chain(n)] for n in (30, 66, 130, 240)]
        elif what == 'sessions':
            ns[0].exts, ns[-1].exts = [[leaf(j)] for j in range(1200)], [[leaf(j)] for j in range(3)]
        elif what == 'text':
            ns[0].exts = [[['E', [('a', 'y' * 70000)], 'x' * 300000 + '&', []]]]
        else:
            w = g.world(nnodes=3000, custom_refs=False, values=False)
            for j, n in enumerate(w.files[0].nodes):
                n.exts = [[leaf(j)]]
        docs = [render(w.files[0])]
        c = world_case(run, w, ext=True, docs=docs, tag='c11/many ' + what)
        c.handlers = [1]
        c.none = world_case(run, w, ext=False, docs=docs, tag='c11n/many ' + what)
        cases.append(c)
    res = run.run([c.lines for c in cases] + [c.none.lines for c in cases])
    for k, c in enumerate(cases):
        chk.saw()
        o = loaded(chk, c, res[k], c.tag)
        q = loaded(chk, c.none, res[len(cases) + k], c.tag)
        if o is None or q is None:
            continue
        w = c.world
        sess, order = {}, []
        for e in o.res.events:
            if not e['e'].startswith('x'):
                continue
            x = e['x']
            if e['e'] == 'xnew':
                if any(s[0] == 'open' for s in order):
                    chk.violation('nesting', 'a session starts before the previous one finished', c.replay())
                sess[x] = ['open', [], {e['h']}, x if x >= 0 else -2]
                order.append(sess[x])
                continue
            if x not in sess or sess[x][0] != 'open':
                chk.violation('session', 'callback %s outside of an open session' % e, c.replay())
                continue
            sess[x][2].add(e['h'])
            if e['e'] == 'xstart':
                sess[x][1].append(['xstart', e['name'], sorted([a, v] for a, p, u, v in e['at'])])
            elif e['e'] == 'xend':
                sess[x][1].append(['xend', e['name'], e['v']])
            else:
                sess[x][0] = 'done'
        if any(s[0] == 'open' for s in order):
            chk.violation('unfinished', 'a session never finished', c.replay())
        want = [(n, e) for f, h in zip(w.files, c.handlers) for n in f.nodes for e in (n.exts or []) if h]
        used = [h for f, h in zip(w.files, c.handlers) for n in f.nodes for e in (n.exts or []) if h]
        if len(order) != len(want):
            chk.violation('sessions', '%d sessions for %d extension elements' % (len(order), len(want)), c.replay())
            continue
        last = {}
        inner = 0
        for s, (n, e), h in zip(order, want, used):
            last[id(n)] = s[3]
            chk.count('sessions')
            chk.count('sessions_without_object', s[3] < 0)
            if s[2] != {h}:
                chk.violation('handler', 'extension of %s of a file with handler %d went to %s' % (w.gid(n.id), h, sorted(s[2])), c.replay())
            ev, got = exp_events(e), s[1]
            inner += len(ev)
            chk.count('events_compared', len(ev))
            ok = len(ev) == len(got)
            for a, b in zip(ev, got):
                if a[0] != b[0] or a[1] != b[1] or (a[0] == 'xstart' and a[2] != b[2]):
                    ok = False
                elif a[0] == 'xend' and not a[3] and (a[2] or '') != (b[2] or ''):
                    ok = False
                elif a[0] == 'xend' and a[3] and (b[2] or '').strip() not in (a[4] or ''):
                    ok = False      # only text of its own
            if not ok:
                i = next((i for i, (a, b) in enumerate(zip(ev, got)) if a[:2] != b[:2] or a[2] != b[2]), min(len(ev), len(got)))
                chk.violation('events', 'event %d: got %s expected %s' % (i, got[i:i + 2], ev[i:i + 2]), c.replay())
        if inner:
            chk.nontriv(doc_key(c))
        for n in w.nodes():
            for g in o.by_id.get(w.gid(n.id), [])[:1]:
                if g['ext'] != last.get(id(n), -2):
                    chk.violation('object', '%s carries extension object %s, expected %s' % (nid(g), g['ext'], last.get(id(n), -2)), c.replay())
            for g in q.by_id.get(w.gid(n.id), [])[:1]:
                if g['ext'] != -2:
                    chk.violation('object-without-handler', nid(g), c.replay())
        if any(e['e'].startswith('x') for e in q.res.events):
            chk.violation('callbacks-without-handler', 'extension callbacks ran', c.replay())
        for x in (o, q):
            check_nodes(chk, c, x)
            check_refs(chk, c, x)
            check_values(chk, c, x)
            check_definitions(chk, c, x)
            no_errors(chk, c, x)
    server(chk, d)
    chk.sample(cases[0].docs[0].decode()[:500])


def server(chk, d):
    """A backend load hands each node's object to the server as the node's context."""
    import backend
    run = Runner(backend.build(d), d)

    def mk(r, k):
        w = backend.BGen(r).world(nfiles=r.choice([1, 1, 2, 3]), nnodes=r.choice([8, 30, 60]), exts=True) if k % 5 else backend.chain_world(r, r.choice([3, 12, 40]))
        for f in w.files:
            for n in f.nodes:
                if k % 5 == 0 or r.random() < .1:
                    n.exts = [[['E', [], 'x', []]] for _ in range(r.choice([1, 2]))]
        return backend.bcase(run, w, Style(r, unknown=0) if r.random() < .3 else None, tag='c11s/%d' % k, ext=r.random() < .8)
    cases = generate(chk, 600 if THOROUGH else 60, mk)
    for c, r in run_cases(run, cases):
        chk.saw()
        b = backend.judge(chk, c, r, types=False, values=False, space=False)
        if b is None:
            continue
        x = 0
        ext = c.lines[1].split('\t')[3] != '0'
        w = c.world.upto(len(c.world.files))
        st = b.dumps[-1]
        w.set_idx(st.ns)
        for f in c.world.files:
            for n in f.nodes:
                want = -2
                if ext:
                    x += len(n.exts or [])
                    want = x - 1 if n.exts else -2
                g = st.nodes.get(w.gid(n.id))
                if g is None:
                    continue        # C15
                chk.count('server_node_contexts')
                chk.count('server_node_contexts_with_object', want >= 0)
                if g['ctx'] != want:
                    chk.violation('server-context', '%s on the server has extension object %s as context, expected %s' % (g['id'], g['ctx'], want), c.replay())
        if ext:
            chk.nontriv(doc_key(c))
