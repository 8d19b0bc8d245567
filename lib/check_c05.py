"""C05: sort fails exactly for cyclic hierarchies; verdict against an independent cycle test."""
from dag import *


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random acyclic hierarchies with self references and repeated edges, and the same with one cycle of length two up to the node count added, '
                'also through undeclared nodes, behind long acyclic prefixes and by parent ids; non-trivial: distinct files with at least one edge')
    chk.assumptions = ['a node naming a parent that declares itself the child of that node is not generated']

    def mk(r, k):
        n = r.choice([2, 3, 5, 12, 40, 150 if k % 8 == 0 else 20])
        cyc = cycles if r.random() < 0.5 else None
        w = graph(r, n, undeclared=r.choice([0, 0.1, 0.3]), nfiles=r.choice([1, 1, 2]), cyc=cyc, dup=r.choice([0, 0.5]), selfref=r.choice([0, 0.1, 0.5]),
                  parents=r.choice([0, 0.3, 1]), custom=0.2, classes=r.choice([None, None, [OBJECT], [OBJECTTYPE, DATATYPE, VARTYPE]]))
        ops = r.choice([('sort', 'dump', 'del'), ('sort', 'del'), ('sort', 'dump', 'bidi', 'del')])
        return world_case(run, w, tag='c05/%d' % k, ops=ops)
    cases = generate(chk, 5000 if THOROUGH else 700, mk)
    big = ((3000, None), (3000, lambda r, i: i[-2:]), (3000, lambda r, i: i), (3000, lambda r, i: r.sample(i, 50)))
    for n, cyc in big:
        for sh in ('chain', 'tree'):
            cases.append(world_case(run, graph(random.Random('%d%s%d' % (n, sh, SEED)), n, shape=sh, cyc=cyc, undeclared=0, parents=0, classes=[OBJECT, VARIABLE]), tag='big'))
    cases = [c for c in cases if not contradictory(c.world)]
    for c, r in run_cases(run, cases):
        chk.saw()
        if report_crash(chk, r, c.replay(), c.tag):
            continue
        o = Observed(r)
        cy = has_cycle(c.world)
        if not all(o.imports):
            chk.violation('import-failed', str(o.logs[:2]), c.replay())
            continue
        if hier_edges(c.world):
            chk.nontriv(doc_key(c))
        chk.count('cyclic' if cy else 'acyclic')
        if o.sorts != [not cy]:
            chk.violation('missed-cycle' if cy else 'false-cycle', 'hierarchy is %scyclic, sort returned %s' % ('' if cy else 'a', o.sorts), c.replay())
        elif cy and not o.errors:
            chk.violation('no-error-message', 'sort failed without an error message', c.replay())
        elif not cy and o.errors:
            chk.violation('error-logged', str(o.errors[:2]), c.replay())
    chk.sample(cases[0].docs[0].decode()[:500])
