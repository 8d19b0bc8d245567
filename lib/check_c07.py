"""C07: namespace translation and the callback protocol."""
from core import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random namespace tables (1 to 300 URIs, permuted per file, the standard URI at any position, arbitrary non-monotonic results up to 65535), '
                'ids of every kind in every position, repeated URIs, several files per loader and several loaders with different mappings in one process; '
                'non-trivial: distinct files with at least 2 namespaces')
    chk.assumptions = ['every namespace index used in a file lies inside its table', 'table entries have non-empty text']

    def mk(r, k):
        g = Gen(r)
        nns = r.choice([1, 2, 3, 5, 9, 40 if k % 10 else 300])
        w = g.world(nfiles=r.choice([1, 2, 3]), nnodes=r.choice([5, 20, 50]), values=False, nns=nns)
        us = [u for u in w.idx if u not in ('', UA_URI)]
        mode = r.random()
        if mode < 0.3:
            vals = r.sample(range(1, nns + 3), nns)
        elif mode < 0.5:
            vals = [65535 - i for i in range(nns)]
        elif mode < 0.6:
            # shifted by one: an untranslated index is always wrong
            vals = list(range(2, 2 + nns))
        else:
            vals = r.sample(range(1, 65536), nns)
        for u, v in zip(us, vals):
            w.idx[u] = v
        for f in w.files:
            # drop unused table entries at random, add unused ones
            extra = ['urn:unused:%d' % r.randint(0, 9) for _ in range(r.choice([0, 0, 1, 3]))]
            for e in extra:
                if e not in f.uris:
                    f.uris.insert(r.randint(0, len(f.uris)), e)
                    w.idx.setdefault(e, r.randint(1, 65535))
            if r.random() < .2:     # a URI listed again
                f.uris.insert(r.randint(0, len(f.uris)), r.choice(f.uris))
        return world_case(run, w, Style(r) if r.random() < 0.5 else None, tag='c07/%d' % k, sort_between='maybe')
    cases = generate(chk, 2500 if THOROUGH else 320, mk)
    for nns in (258, 3000):
        g = Gen(random.Random('c07big%d/%d' % (nns, SEED)))
        cases.append(world_case(run, g.world(nfiles=2, nnodes=1500, values=False, nns=nns), tag='c07/tables %d' % nns))
    # two loaders with contradicting mappings, interleaved
    pairs = []
    for k in range(300 if THOROUGH else 40):
        r = random.Random('pair%d/%d' % (k, SEED))
        g = Gen(r)
        a = g.world(nfiles=1, nnodes=15, values=False, nns=3, custom_refs=False)
        b = World()
        b.files, b.hier, b.topo = a.files, a.hier, a.topo
        us = [u for u in a.idx if u not in ('', UA_URI)]
        b.idx = dict(a.idx)
        for u in us:
            b.idx[u] = a.idx[u] + r.randint(1, 5000)
        doc = render(a.files[0])
        p = run.file(doc)
        L = ns_script(a) + ['new\t0\t1\t0', 'new\t1\t1\t0', 'imp\t0\t%s\t0' % p, 'nsclear'] + ns_script(b) + ['imp\t1\t%s\t0' % p]
        tail = ['sort\t0', 'sort\t1', 'dump\t0', 'dump\t1', 'del\t0', 'del\t1']
        pairs.append((a, b, Case(a, L + tail, [doc, doc], 'two loaders')))
    cases += reader.core_cases(run, 'c07', 6 if THOROUGH else 1)
    for c, r in run_cases(run, cases):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        if any(len(f.uris) >= 2 for f in c.world.files):
            chk.nontriv(doc_key(c))
        check_ns(chk, c, o)
        check_nodes(chk, c, o)
        check_refs(chk, c, o)
        check_definitions(chk, c, o)
    for (a, b, c), r in zip(pairs, run.run([p[2].lines for p in pairs])):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        chk.count('loader_pairs')
        for s, w in ((0, a), (1, b)):
            c.world = w
            o2 = Observed(r, s)
            check_nodes(chk, c, o2)
            check_refs(chk, c, o2)
    chk.sample(cases[0].docs[0].decode()[:500])
