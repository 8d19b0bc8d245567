"""C15: the server's nodes and references after a load against the declared ones."""
from backend import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('one to three files loaded in order into one server: all node classes, custom reference types (also below types of other files), forward-only, inverse-only, doubled and parent-id hierarchies '
                'across files, arbitrary non-hierarchical references, own type definitions, with and without logger and extension handler, in random renderings; chains of up to several hundred nodes of alternating '
                'classes declared in reverse. Every attribute and every reference of every node of the server is compared after each load. Non-trivial: distinct file sequences')
    chk.assumptions = ['the stand-in server (shim/) behaves like open62541 1.4 for the calls the backend makes: its node, reference and type rules are described in DESIGN.md',
                       'methods, views and type nodes declare an inverse hierarchical reference or a parent id; a parent id agrees with the hierarchical references of the node']

    def mk(r, k):
        if k % 25 == 24:
            return bcase(run, chain_world(r, r.choice([3, 12, 40, 150, 400 if THOROUGH else 220]), classes=r.choice([(OBJECT, VARIABLE, METHOD), (OBJECT, METHOD), (VARIABLE, OBJECT), (METHOD, VARIABLE, VIEW, OBJECT), (OBJECT, OBJECT, VARIABLE)]),
                                               reverse=r.random() < .7), tag='c15/chain%d' % k)
        w = BGen(r).world(nfiles=r.choice([1, 1, 1, 2, 3]), nnodes=r.choice([1, 3, 10, 30, 80] if k % 40 else [600]), deep=r.random() < .3, forward=r.random() < .7, parents=r.random() < .7, exts=r.random() < .2)
        return bcase(run, w, Style(r) if r.random() < .5 else None, tag='c15/%d' % k, logger=int(r.random() < .9), ext=r.random() < .15)
    def large(k):
        r = random.Random('c15large%d/%d' % (k, SEED))
        if k == 0:      # more nodes than the containers hold at first
            w = BGen(r).world(nnodes=2000, nns=2)
            f = w.files[0]
            uri = [u for u in f.uris if u != UA_URI][0]
            for j in range(11000):
                n = Node([OBJECT, VARIABLE][j % 2], (uri, 's', 'many%d' % j))
                n.bn, n.dn = (uri, 'm'), (None, 'm')
                n.refs.append([I(47), I(85) if j < 50 else (uri, 's', 'many%d' % r.randrange(j)), False])
                f.nodes.append(n)
            r.shuffle(f.nodes)
        elif k == 1:    # one node with very many references
            w = BGen(r).world(nnodes=6, nns=1)
            f = w.files[0]
            uri = [u for u in f.uris if u != UA_URI][0]
            hub = Node(OBJECT, (uri, 's', 'hub'))
            hub.bn, hub.dn = (uri, 'hub'), (None, 'hub')
            hub.refs.append([I(35), I(85), False])
            f.nodes.append(hub)
            for j in range(3000):
                n = Node([OBJECT, VARIABLE, METHOD, VIEW][j % 4], (uri, 's', 'many%d' % j))
                n.bn, n.dn = (uri, 'm'), (None, 'm')
                if j % 3 and n.cls in (OBJECT, VARIABLE):
                    hub.refs.append([I(47), n.id, True])
                else:
                    n.refs.append([I(47), hub.id, False])
                hub.refs.append([I(41 if j % 2 else 37), n.id, j % 5 == 0])
                f.nodes.append(n)
            r.shuffle(f.nodes)
        else:           # many namespaces
            w = BGen(r).world(nfiles=2, nnodes=400, nns=270)
        return bcase(run, w, None, tag='c15/large%d' % k)
    cases = [large(k) for k in range(3)] + generate(chk, 9000 if THOROUGH else 1100, mk)
    cases += reader.back_cases(run, 'c15', 6 if THOROUGH else 1)
    # the same in processes with other locales and time zones
    def fractions(r, k):
        w = BGen(r).world(nnodes=30)
        for n in w.nodes():
            if n.cls == VARIABLE:
                n.attrs['MinimumSamplingInterval'] = '%d.%d' % (r.randrange(10 ** r.randrange(6)), r.randrange(1, 1000))
        return bcase(run, w, None, tag='c15/locale%d' % k, unlink=False)
    some = generate(chk, 60 if THOROUGH else 30, fractions)
    res = [x for e in environments(d) for x in run_cases(Runner(exe, d, extra_env=e), some)]
    chk.count('cases_in_other_locales', len(res))
    for c, r in run_cases(run, cases) + res:
        chk.saw()
        b = judge(chk, c, r, types=False, values=False)
        if b is None:
            continue
        chk.nontriv(doc_key(c))
        for n in c.world.nodes():
            chk.count('class_' + TAG[n.cls])
    chk.sample(cases[0].docs[0].decode()[:500])
