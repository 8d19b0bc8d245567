"""C03: every declared node once, with its attributes."""
from core import *
import reader


def mk(run, r, k):
    g = Gen(r)
    w = g.world(nfiles=r.choice([1, 1, 2, 3]), nnodes=r.choice([1, 8, 30, 60, 200 if k % 15 == 0 else 30]), exts=r.random() < 0.2, values=r.random() < 0.3)
    if r.random() < 0.3:
        for n in w.nodes():
            for key in ('dn', 'desc'):
                if r.random() < 0.1 and getattr(n, key) is not None:
                    n.more[key] = [('l%d' % j, g.text()) for j in range(r.choice([1, 2, 5]))]
    return world_case(run, w, Style(r) if r.random() < 0.6 else None, ext=r.random() < 0.3, tag='c03/%d' % k, sort_between='maybe')


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = 'random nodesets over all eight classes, one to three files, every optional attribute and text present or absent; non-trivial: distinct files with at least 5 nodes'
    cases = generate(chk, 2500 if THOROUGH else 260, lambda r, k: mk(run, r, k))
    # containers growing past their initial capacity
    for cls, n in ((VIEW, 35), (OBJECTTYPE, 350), (METHOD, 2100), (OBJECT, 10050), (REFTYPE, 230), (VARIABLE, 10010), (DATATYPE, 205), (VARTYPE, 101), (OBJECT, 66000), (DATATYPE, 4200)):
        g = Gen(random.Random('big%d/%d' % (cls, SEED)))
        w = World()
        w.idx['urn:big'] = 3
        f = File(['urn:big'])
        for k in range(n):
            m = Node(cls, ('urn:big', g.r.choice('ii' 's'), k + 1))
            m.bn = ('urn:big', 'B%d' % k)
            m.refs.append([I(45) if cls == REFTYPE else I(47), I(33) if cls == REFTYPE else I(85), False])
            f.nodes.append(m)
            if cls == REFTYPE:
                w.hier.add(m.id)
        g.r.shuffle(f.nodes)
        w.files.append(f)
        cases.append(world_case(run, w, tag='big %s' % TAG[cls]))
    cases += reader.core_cases(run, 'c03', 6 if THOROUGH else 1)
    for c, r in run_cases(run, cases):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        if sum(1 for _ in c.world.nodes()) >= 5:
            chk.nontriv(doc_key(c))
        chk.count('nodes_compared', len(o.nodes))
        check_nodes(chk, c, o)
        no_errors(chk, c, o)
    chk.sample(cases[2].docs[0].decode()[:600])
