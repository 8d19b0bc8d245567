"""C14: equivalent renderings and histories give identical results (differential)."""
from core import *
import reader


def canon(events, slot=None, docorder=False):
    """Delivered data without the order of delivery and of references."""
    out = []
    for e in events:
        if e['e'] == 'node' and (slot is None or e['s'] == slot):
            n = {k: v for k, v in e.items() if k not in ('e', 's', 'ext')}
            for k in ('h', 'nh', 'un', 'td'):
                if k in n:
                    n[k] = sorted(map(repr, n[k]))
            out.append(json.dumps(n, sort_keys=True))
    return sorted(out)


def raw(events, slot=None):
    return [{k: v for k, v in e.items() if k not in ('s', 'ext')} for e in events if e['e'] in ('node', 'count') and (slot is None or e['s'] == slot)]


def links(events):
    return sorted(repr([e['src'], e['dst'], e['rt']]) for e in events if e['e'] == 'bidi')


def run(chk, d):
    exe = build(d)
    run = Runner(exe, d)
    chk.rule = ('every nodeset is rendered plainly and several times with random prefixes, attribute order, quotes, character references, comments, CDATA, white space, processing '
                'instructions, unknown elements and paddings that move all text across the read chunks; and imported after, before and between other loads in the same process, by '
                'another loader, and twice by the same loader. Non-trivial: distinct pairs of different files')
    chk.assumptions = ['unknown elements do not occur inside text-bearing elements']
    n = 700 if THOROUGH else 70
    V = 8 if THOROUGH else 5
    cases = []
    for k in range(n):
        r = random.Random('c14/%s/%d' % (SEED, k))
        g = Gen(r)
        w = g.world(nfiles=r.choice([1, 1, 2]), nnodes=r.choice([3, 10, 30]))
        plain = [render(f) for f in w.files]
        base = world_case(run, w, docs=plain, ops=('bidi', 'sort', 'dump', 'del'), tag='plain')
        var = [world_case(run, w, Style(r), ops=('bidi', 'sort', 'dump', 'del'), tag='styled') for _ in range(V)]
        # only the position relative to the read chunks moves
        off = r.randint(0, 1024)
        for j in range(2):
            var.append(world_case(run, w, Style(None, pad=off + j * r.randint(1, 400)), ops=('bidi', 'sort', 'dump', 'del'), tag='shifted'))
        # histories
        other = Gen(random.Random('other%d' % k)).world(nfiles=1, nnodes=20)
        for u, i in other.idx.items():
            w.idx.setdefault(u, i)
        oth = run.file(render(other.files[0]))
        # the same text, every alias with another meaning
        m = re.findall(r'<Alias Alias="[^"]*">([^<]*)</Alias>', plain[0].decode('utf-8', 'surrogateescape'))
        it = iter(m[1:] + m[:1])
        rot = run.file(re.sub(r'(<Alias Alias="[^"]*">)[^<]*', lambda x: x.group(1) + next(it), plain[0].decode('utf-8', 'surrogateescape')).encode('utf-8', 'surrogateescape'))
        brk = run.file(plain[0][:len(plain[0]) // 2])
        fs = [run.file(p) for p in plain]
        imp = lambda s: ['imp\t%d\t%s\t0' % (s, f) for f in fs]
        fin = ['sort\t0', 'dump\t0', 'del\t0']
        pre = ns_script(w)
        hist = [
            pre + ['new\t1\t1\t0', 'imp\t1\t%s\t0' % oth, 'sort\t1', 'dump\t1', 'del\t1', 'new\t0\t1\t0'] + imp(0) + fin,
            pre + ['new\t1\t1\t0', 'imp\t1\t%s\t0' % oth, 'new\t0\t1\t0'] + imp(0) + ['sort\t1', 'dump\t1'] + fin + ['del\t1'],
            pre + ['new\t1\t1\t0', 'imp\t1\t%s\t0' % brk, 'new\t0\t1\t0'] + imp(0) + ['del\t1'] + fin,
            pre + ['new\t1\t1\t0'] + imp(1) + ['sort\t1', 'del\t1', 'new\t0\t1\t0'] + imp(0) + fin,
            pre + ['new\t0\t1\t0', 'new\t1\t1\t0'] + sum(([a, b] for a, b in zip(imp(0), imp(1))), []) + ['sort\t1', 'sort\t0', 'dump\t0', 'dump\t1', 'del\t0', 'del\t1'],
            pre + ['new\t0\t1\t0'] + imp(0) + imp(0) + fin,
            pre + ['new\t1\t1\t0', 'imp\t1\t%s\t0' % rot, 'sort\t1', 'new\t0\t1\t0'] + imp(0) + ['del\t1'] + fin,
            pre + ['new\t0\t1\t0'] + imp(0) + ['sort\t0'] + fin,
            pre + ['new\t0\t1\t0'] + imp(0) + ['sort\t0', 'dump\t0', 'dump\t0', 'del\t0'],
        ]
        hs = [Case(w, h, plain + [render(other.files[0])], 'history %d' % i) for i, h in enumerate(hist)]
        cases.append((base, var, hs))
    for k in range(3 if THOROUGH else 1):
        r = random.Random('c14real/%s/%d' % (SEED, k))
        for name, w, docs in reader.worlds(r):
            ops = ('bidi', 'sort', 'dump', 'del')
            base = world_case(run, w, docs=docs, ops=ops, tag='real ' + name)
            small = sum(map(len, docs)) < 400000
            var = [world_case(run, w, Style(r), ops=ops, tag='styled ' + name) for _ in range(3 if small else 1)]
            var.append(world_case(run, w, ops=ops, tag='plain ' + name))
            cases.append((base, var, []))
    flat = [x for b, v, h in cases for x in [b] + v + h]
    res = dict(zip(map(id, flat), run.run([c.lines for c in flat])))
    # the same files in processes with other locales and time zones
    some = [b for b, v, h in cases[::3]]
    for e in environments(d):
        for b, x in zip(some, Runner(exe, d, extra_env=e).run([c.lines for c in some])):
            chk.saw()
            if loaded(chk, b, x, 'locale') is None or not res[id(b)].ok:
                continue
            chk.count('environments_compared')
            if canon(x.events) != canon(res[id(b)].events) or raw(x.events) != raw(res[id(b)].events) or links(x.events) != links(res[id(b)].events):
                chk.violation('environment', 'other results with %s' % e['H_LOCALE'], b.replay())
    for b, v, h in cases:
        rb = res[id(b)]
        chk.saw()
        if loaded(chk, b, rb, b.tag) is None:
            continue
        cb, lb, rawb = canon(rb.events), links(rb.events), raw(rb.events)
        for c in v:
            chk.saw()
            x = res[id(c)]
            if loaded(chk, c, x, c.tag) is None:
                continue
            chk.count('renderings_compared')
            if c.docs != b.docs:
                chk.nontriv(doc_key(b) + doc_key(c))
            cx = canon(x.events)
            if cx != cb:
                df = next(((p, q) for p, q in zip(cb, cx) if p != q), (len(cb), len(cx)))
                chk.violation('rendering', 'plain: %s\n%s: %s' % (df[0], c.tag, df[1]), {'plain': b.replay(), 'other': c.replay()})
            elif raw(x.events) != rawb:
                chk.violation('rendering-order', 'delivery order depends on the rendering (%s)' % c.tag, {'plain': b.replay(), 'other': c.replay()})
            if links(x.events) != lb:
                chk.violation('rendering-links', 'encoding links differ', {'plain': b.replay(), 'other': c.replay()})
        for i, c in enumerate(h):
            chk.saw()
            x = res[id(c)]
            if report_crash(chk, x, c.replay(), c.tag):
                continue
            chk.count('histories_compared')
            chk.nontriv(doc_key(b) + b'%d' % i)
            if i == len(h) - 1:
                # two iterations
                ev = x.events
                half = [k for k, e in enumerate(ev) if e['e'] == 'count' and e['cls'] == 7]
                a, z = raw(ev[:half[0] + 1]), raw(ev[half[0] + 1:])
                if a != z or a != rawb:
                    chk.violation('history:iterate', 'second iteration differs', c.replay())
                continue
            for s in ((0, 1) if i == 4 else (0,)):
                if canon(x.events, s) != cb:
                    cx = canon(x.events, s)
                    df = next(((p, q) for p, q in zip(cb, cx) if p != q), (len(cb), len(cx)))
                    chk.violation('history:%d' % i, 'alone: %s\nin %s: %s' % (df[0], c.tag, df[1]), c.replay())
                elif i != 5 and raw(x.events, s) != rawb:
                    chk.violation('history-order:%d' % i, 'delivery order depends on the history', c.replay())
    chk.sample(cases[0][1][0].docs[0].decode()[:500])
