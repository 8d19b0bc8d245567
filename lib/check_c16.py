"""C16: registered data types against the natural C layout."""
from backend import *
import reader


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('random sets of structures, unions, enumerations, option sets, simple subtypes, derived, empty and abstract types over one to three files, members of all built-in types, standard structures and '
                'custom types (also the type itself behind an array or optional member), declared in random order. Registered names, ids, encoding ids, kinds, sizes, paddings, member types, array, optional and '
                'pointer-free flags are compared with the natural layout; the layout model is compared with a C compiler\'s sizeof/_Alignof/offsetof of the same types. Non-trivial: distinct file sequences')
    chk.assumptions = ['members of an abstract type are variants', 'LP64 layout', 'a structure without members counts as one pointer in size']

    def mk(r, k):
        kinds = [None, None, None, ['struct'], ['struct', 'union'], ['struct', 'derived'], ['struct', 'enum', 'simple', 'bits'], ['optionset', 'struct', 'derived']][k % 8]
        if k % 25 == 3:
            # descriptions at their limits
            w = typed.typed_world(r, sys.modules['backend'], nfiles=r.choice([1, 2]), ntypes=8, nvars=0, kinds=['wide', 'wideunion', 'wide', 'huge', 'derived', 'huge'])
            return bcase(run, w, None, tag='c16/wide%d' % k)
        w = typed.typed_world(r, sys.modules['backend'], nfiles=r.choice([1, 1, 2, 3]), ntypes=r.choice([1, 4, 10, 25, 60 if k % 10 == 0 else 15]), nvars=0, kinds=kinds)
        return bcase(run, w, Style(r) if r.random() < .3 else None, tag='c16/%d' % k)
    def edge(k):
        # 65535 bytes exactly: 255 members of 257 bytes each
        r = random.Random('c16edge%d/%d' % (k, SEED))
        sm = sys.modules['backend']
        w = typed.typed_world(r, sm, ntypes=1, nvars=0, nns=1, kinds=['struct'])
        f = w.files[0]
        uri = [u for u in f.uris if u != UA_URI][0]

        def struct(name, members):
            ty = typed.Ty((uri, 's', name), typed.STRUCTURE, name)
            ty.mem = [typed.Mem('m%d' % j, t, a) for j, (t, a) in enumerate(members)]
            ty.own, ty.opts, ty.file = ty.mem, False, 0
            n = w.tg.node(f, uri, ty, I(22), {'name': name, 'fields': [{'name': m.name, 'dt': m.ty.id, 'ValueRank': '1' if m.arr else '-1'} for m in ty.mem]})
            w.tg.types.append(ty)
            assert ty.layout()
            return ty
        b = typed.BUILTIN[3]
        if k == 0:
            s3 = struct('S3', [(b, False)] * 3)
            s257 = struct('S257', [(b, False)] * 254 + [(s3, False)])
            top = struct('S65535', [(s257, False)] * 255)
            assert top.size == 65535
        elif k == 1:        # nested by value
            t = b
            for j in range(200):
                t = struct('N%d' % j, [(t, False), (typed.BUILTIN[r.choice([1, 3, 6, 12])], r.random() < .2)])
        elif k == 2:        # more types than the containers hold at first
            for j in range(450):
                struct('M%d' % j, [(r.choice(w.tg.types) if r.random() < .3 and len(w.tg.types[-1].mem) and w.tg.types[-1].size < 200 else b, r.random() < .5), (typed.BUILTIN[12], False)])
        r.shuffle(f.nodes)
        return bcase(run, w, None, tag='c16/edge%d' % k)
    cases = generate(chk, 8000 if THOROUGH else 900, mk)
    cases += [edge(k) for k in range(3)]
    n = 0
    for i in range(0, len(cases), 500):
        n += typed.c_check(d, [c.world.tg.types for c in cases[i:i + 500]])
    chk.count('layout_facts_confirmed_by_compiler', n)
    cases += reader.back_cases(run, 'c16', 6 if THOROUGH else 1, types=True)
    for c, r in run_cases(run, cases):
        chk.saw()
        b = judge(chk, c, r, values=False, space=False)
        if b is not None and b.dumps and b.dumps[-1].types:
            chk.nontriv(doc_key(c))
            for t in b.dumps[-1].types:
                chk.count('registered_kind_%d' % t['kind'])
                if len(t['mem']) > 250:
                    chk.count('types_with_250_members_or_more')
                if t['size'] > 60000:
                    chk.count('types_of_60000_bytes_or_more')
    chk.sample(cases[0].docs[0].decode()[:500])
