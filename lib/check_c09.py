"""C09: value trees."""
from core import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random values: scalars of all built-in types, lists, extension objects, lists of extension objects, nested structures whose elements share names with '
                'their parents or with the value grammar, texts with entities, CDATA, comments and white space, depth up to 60, lists up to 20000; non-trivial: distinct value trees')
    chk.assumptions = ['element-only or text-only content inside values; a list of extension objects uses one type']

    def deep(g, r, n):
        t = ['Leaf', [], 'x', []]
        for k in range(n):
            t = [r.choice(['S', 'S', 'Body', 'TypeId', 'Value', 'ListOfS', 'ExtensionObject']), [], None, [t] + ([[r.choice(['S', 'Leaf']), [], 'y', []]] if r.random() < 0.3 else [])]
        return t

    def mk(r, k):
        g = Gen(r)
        w = World()
        us = ['urn:v']
        w.idx['urn:v'] = 5
        f = File(us)
        w.files.append(f)
        for j in range(r.choice([1, 5, 20])):
            n = Node(VARIABLE, ('urn:v', 'i', j + 1))
            n.bn = ('', 'V%d' % j)
            c = r.random()
            if c < 0.75:
                n.value = g.value()
            elif c < 0.8:
                n.value = [g.ext_object('uax:', r.randint(3, 8))]
            elif c < 0.85:
                b = deep(g, r, r.choice([2, 10, 60]))
                n.value = [['ExtensionObject', [], None, [['TypeId', [], None, [['Identifier', [], 'i=1', []]]], ['Body', [], None, [['Root', [], None, [b]]]]]]]
            elif c < 0.9 and k % 5 == 0:
                n.value = [['ListOfInt32', [], None, [['Int32', [], str(q), []] for q in range(r.choice([1000, 20000]))]]]
            elif c < 0.92:
                n.value = [['ListOfExtensionObject', [], None, [g.ext_object('', 2, 'i=297', 'Argument') for _ in range(r.choice([30, 200]))]]]
            n.refs.append([I(40), I(63), True])
            # other elements of the node after or before the value
            n.dn, n.desc = g.ltext(), g.ltext()
            f.nodes.append(n)
        return world_case(run, w, Style(r) if r.random() < 0.7 else None, tag='c09/%d' % k)
    cases = generate(chk, 4000 if THOROUGH else 500, mk)
    large = []
    for k, (n, what) in enumerate(((70000, 'list'), (70000, 'members'), (2000, 'objects'), (220, 'depth'), (300000, 'text'))):
        r = random.Random('c09big%s/%d' % (what, SEED))
        w = World()
        w.idx['urn:v'] = 5
        f = File(['urn:v'])
        w.files.append(f)
        v = Node(VARIABLE, ('urn:v', 'i', 1))
        v.bn = ('', 'V')
        g = Gen(r)
        obj = lambda b: ['ExtensionObject', [], None, [['TypeId', [], None, [['Identifier', [], 'i=1', []]]], ['Body', [], None, [['Root', [], None, b]]]]]
        v.value = {'list': lambda: [['ListOfUInt16', [], None, [['UInt16', [], str(j), []] for j in range(n)]]],
                   'members': lambda: [obj([['m%d' % (j % 300), [], str(j), []] for j in range(n)])],
                   'objects': lambda: [['ListOfExtensionObject', [], None, [obj([['m', [], str(j), []]]) for j in range(n)]]],
                   'depth': lambda: [obj([deep(g, r, n)])],
                   'text': lambda: [['String', [], 'x' * n + 'end', []]]}[what]()
        f.nodes.append(v)
        large.append(world_case(run, w, tag='c09/big ' + what))
    for c, r in run_cases(run, cases) + run_cases(Runner(build_plain(d), d), large):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o is None:
            continue
        for n in c.world.nodes():
            if n.value:
                chk.nontriv(json.dumps(n.value))
        check_values(chk, c, o)
        if len(o.nodes) != len(c.world.files[0].nodes):
            chk.violation('nodes', 'delivered %d of %d' % (len(o.nodes), len(c.world.files[0].nodes)), c.replay())
    # values of the nodes are also what iteration delivers in mixed nodesets
    for c, r in run_cases(run, generate(chk, 600 if THOROUGH else 60, lambda r, k: world_case(run, Gen(r).world(nfiles=r.choice([1, 2]), nnodes=30, classes=[VARIABLE, VARIABLE, OBJECT, VARTYPE, DATATYPE]), Style(r), tag='c09w/%d' % k)) + reader.core_cases(run, 'c09', 6 if THOROUGH else 1)):
        chk.saw()
        o = loaded(chk, c, r, c.tag)
        if o:
            check_values(chk, c, o)
    chk.sample(cases[0].docs[0].decode()[:500])
