"""C17: values on the server against the declared ones."""
from backend import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('variables of every supported built-in type, standard subtypes and structures, and random custom enumerations, structures, structures with optional members, unions, option sets and subtypes, scalar '
                'and array, members absent at random, extreme and random numbers, texts, byte strings, ids of all kinds with translated namespaces, dates over the whole range, in random renderings; the variables of the repository\'s own nodesets, decoded by a second decoder. Type, shape and '
                'content of the variant read from the server are compared with the generator\'s value. Non-trivial: distinct file sequences with values')
    chk.assumptions = ['XmlElement, ExpandedNodeId, ExtensionObject, DataValue, Variant, DiagnosticInfo and Decimal are not among the supported value types', 'null and empty texts count as equal']

    def mk(r, k, tag='c17/%d', **kw):
        m = k % 4
        w = typed.typed_world(r, sys.modules['backend'], nfiles=r.choice([1, 1, 2]), ntypes=r.choice([3, 8, 16]), nvars=r.choice([5, 15, 40]), builtin_only=m == 0,
                              kinds=None if m < 2 else ['struct', 'union', 'derived', 'struct', 'enum', 'simple'] if m == 2 else ['struct', 'optionset', 'enum', 'union'])
        return bcase(run, w, Style(r) if r.random() < .5 else None, tag=tag % k, **kw)
    def large(k, cnt):
        r = random.Random('c17large%d/%d' % (k, SEED))
        sm = sys.modules['backend']
        w = typed.typed_world(r, sm, ntypes=6, nvars=0, nns=2, kinds=['struct', 'union', 'enum', 'struct'])
        f = w.files[0]
        uri = [u for u in f.uris if u != UA_URI][0]
        vg = typed.VGen(r, Gen(r), w, f, 'uax:')
        tys = [typed.BUILTIN[i] for i in (1, 3, 6, 11, 12, 15, 13, 21)] + [t for t in w.tg.types if t.supported() and not t.abstract]
        for j, t in enumerate(tys if cnt < 1000 else tys[k % 8:k % 8 + 1]):
            n = Node(VARIABLE, (uri, 's', 'large%d' % j))
            n.bn, n.dn, n.refs = (uri, 'v'), (None, 'v'), [[I(47), I(85), False], [I(40), I(63), True]]
            n.expect = vg.variable(n, t, True, cnt)
            if n.expect is None:
                n.value = None
            f.nodes.append(n)
        return bcase(run, w, None, tag='c17/arrays of %d' % cnt)
    cases = generate(chk, 8000 if THOROUGH else 900, mk)
    cases += [large(k, c) for k, c in enumerate((255, 256, 257, 700))]
    big = Runner(build(d, san=[], name='nlback_o2', opt='-O2'), d)      # growing arrays one by one is quadratic under ASan
    cases += reader.back_cases(run, 'c17', 6 if THOROUGH else 1, values=True)
    some = generate(chk, 60 if THOROUGH else 40, lambda r, k: mk(r, k, 'c17/locale%d', unlink=False))
    for e in environments(d):
        # numbers and times mean the same wherever the process runs
        for c, r in run_cases(Runner(exe, d, extra_env=e), some):
            chk.saw()
            chk.count('cases_in_other_locales')
            judge(chk, c, r, types=False, space=False, what='locale ')
    for c, r in run_cases(run, cases) + run_cases(big, [large(k, c) for k, c in enumerate((66000, 66001, 66002, 66003) if not THOROUGH else range(65530, 65546))]):
        chk.saw()
        before = chk.extra.get('server_values_compared', 0)
        b = judge(chk, c, r, types=False, space=False)
        if b is not None and chk.extra.get('server_values_compared', 0) > before:
            chk.nontriv(doc_key(c))
    chk.sample(cases[0].docs[0].decode()[:500])
