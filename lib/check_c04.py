"""C04: parents before children, by an offline check of the delivery order."""
from dag import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random hierarchies (trees, chains, layers, dense and sparse graphs) over all classes and id kinds, declared by forward and inverse '
                'references, parent ids or both, in shuffled declaration order over one to three files (sorted together, or one after the other), with undeclared nodes in between; '
                'non-trivial: distinct files with at least 10 ordered pairs')
    chk.assumptions = ['a node naming a parent that declares itself the child of that node is not generated']

    def mk(r, k):
        if k % 4 == 3:
            w = Gen(r).world(nfiles=r.choice([1, 2, 3]), nnodes=r.choice([20, 60]), values=False, definitions=False, deep=r.random() < 0.5, extra_hier=r.choice([0.2, 0.8]))
        else:
            w = graph(r, r.choice([3, 10, 40, 40, 120, 400 if k % 10 == 0 else 30]), undeclared=r.choice([0, 0.1, 0.3]), nfiles=r.choice([1, 1, 2, 3]),
                      classes=r.choice([None, [OBJECT], [VARIABLE, OBJECT], [OBJECTTYPE, DATATYPE], [VIEW, METHOD]]), parents=r.choice([0, 0.25, 0.9]))
        return world_case(run, w, tag='c04/%d' % k, sort_between='maybe')
    cases = generate(chk, 3000 if THOROUGH else 420, mk)
    for n, shape in ((4000, 'chain'), (4000, 'tree'), (3000, 'star'), (66000, 'chain'), (66000, 'star'), (66000, 'funnel')) if not THOROUGH else ((30000, 'chain'), (30000, 'tree'), (30000, 'star'), (20000, 'dense'), (66000, 'chain'), (66000, 'star'), (66000, 'funnel'), (132000, 'funnel')):
        cases.append(world_case(run, graph(random.Random('%s%d' % (shape, SEED)), n, shape=shape, classes=[OBJECT, VARIABLE], parents=0.1), tag='big ' + shape))
    cases = [c for c in cases if not contradictory(c.world)]
    cases += reader.core_cases(run, 'c04', 6 if THOROUGH else 1)
    for c, r in run_cases(run, cases):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        before = chk.extra.get('ordered_pairs_checked', 0)
        if len(o.nodes) < 2500:
            check_order(chk, c, o)
        else:
            # large ones: direct pairs only
            pos = {n['id']: (n['it'], k) for k, n in enumerate(o.nodes)}
            for a, b in hier_edges(c.world):
                if a in pos and b in pos and pos[a][0] == pos[b][0]:
                    chk.count('ordered_pairs_checked')
                    if pos[b][1] < pos[a][1]:
                        chk.violation('order', '%s delivered before its parent %s' % (b, a), c.replay())
        if chk.extra.get('ordered_pairs_checked', 0) - before >= 10:
            chk.nontriv(doc_key(c))
        if len(o.nodes) != sum(1 for _ in c.world.nodes()):
            chk.violation('nodes', 'delivered %d of %d nodes' % (len(o.nodes), sum(1 for _ in c.world.nodes())), c.replay())
    chk.sample(cases[0].docs[0].decode()[:500])
