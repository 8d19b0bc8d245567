"""C24: the parent link."""
from dag import *
import reader


def pairs(r, k):
    """Parent/child pairs in every arrangement."""
    w = World()
    us = ['urn:p', 'urn:q']
    w.idx['urn:p'], w.idx['urn:q'] = r.sample(range(1, 500), 2)
    f = File(us)
    w.files = [f] + ([File(us[::-1])] if r.random() < 0.3 else [])
    custom = []
    for j in range(r.choice([0, 2])):
        t = Node(REFTYPE, ('urn:p', 'i', 9000 + j))
        t.bn = ('', 'T%d' % j)
        t.refs.append([I(45), r.choice([I(33), I(47)]), False])
        w.hier.add(t.id)
        custom.append(t)
    hier = [I(x) for x in HIER0 if x != 45] + [t.id for t in custom]
    out = []
    g = Gen(r)
    g.zero = True
    for j in range(r.choice([1, 4, 12])):
        p = Node(r.choice([OBJECT, VARIABLE, OBJECTTYPE, VARTYPE, METHOD, VIEW, DATATYPE]), g.new_id(r.choice(us)))
        kids = []
        for _ in range(r.choice([1, 1, 3])):
            c = Node(r.choice(INSTANCE + (VIEW, METHOD)), g.new_id(r.choice(us)))
            kids.append(c)
            mode = r.choice(['none', 'none', 'parent', 'parent2', 'own', 'ownother', 'noparent', 'foreign'])
            if mode != 'noparent':
                c.parent = p.id if mode != 'foreign' else r.choice([I(85), ('urn:q', 's', 'ext')])
            if mode in ('parent', 'parent2'):
                p.refs.append([r.choice(hier), c.id, True])
                if mode == 'parent2':
                    p.refs.append([r.choice(hier), c.id, True])
            if mode == 'own':
                c.refs.append([r.choice(hier), p.id, False])
            if mode == 'ownother':
                c.refs.append([r.choice(hier), r.choice([I(85), ('urn:p', 'i', 5)]), False])
            if mode == 'noparent' and r.random() < 0.5:
                p.refs.append([r.choice(hier), c.id, True])
            for _ in range(r.choice([0, 0, 2])):
                c.refs.append([I(r.choice(NONHIER0)), r.choice([p.id, I(85)]), r.random() < 0.5])
        p.refs.append([I(35) if p.cls in INSTANCE else I(45), I(85), False])
        if r.random() < 0.3:
            p.refs.append([I(r.choice(NONHIER0)), r.choice(kids).id, True])
        out.append((p, kids))
    nodes = []
    for p, kids in out:
        seq = [p] + kids if r.random() < 0.6 else (kids + [p] if r.random() < 0.5 else r.sample([p] + kids, len(kids) + 1))
        nodes += seq
    if r.random() < 0.3:
        r.shuffle(nodes)
    cut = r.randint(0, len(nodes))
    for m in nodes + custom:
        m.bn = ('', 'n')
        if m.cls in (OBJECT, VARIABLE):
            m.refs.append([I(40), I(58), True])
        r.shuffle(m.refs)
    if r.random() < 0.7:
        nodes = custom + nodes
    else:
        nodes = nodes + custom
    if len(w.files) == 2:
        w.files[0].nodes, w.files[1].nodes = nodes[:cut], nodes[cut:]
    else:
        f.nodes = nodes
    return w


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('parents and children of all classes with parent ids: parent before or after the child, in another file or undeclared, with no, one or two forward references of '
                'standard and custom hierarchical types to the child, children with and without hierarchical references of their own; non-trivial: distinct files with a parent link')
    chk.assumptions = ['when the parent is declared after the child or custom types are involved, both has-component and the type the parent uses are accepted']

    def mk(r, k):
        if k % 5 == 4:
            w = Gen(r).world(nfiles=r.choice([1, 2]), nnodes=40, values=False, definitions=False)
        elif k % 5 == 3:
            w = graph(r, r.choice([10, 60]), parents=0.8, undeclared=0.2)
        else:
            w = pairs(r, k)
        return world_case(run, w, tag='c24/%d' % k, sort_between='maybe')
    cases = [c for c in generate(chk, 5000 if THOROUGH else 700, mk) if not contradictory(c.world)]
    cases += reader.core_cases(run, 'c24', 6 if THOROUGH else 1)
    for c, r in run_cases(run, cases):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        before = chk.extra.get('links_checked', 0)
        check_parent_links(chk, c, o)
        if chk.extra.get('links_checked', 0) > before:
            chk.nontriv(doc_key(c))
    chk.sample(cases[0].docs[0].decode()[:500])
