"""Hierarchies as random directed graphs, declared in every way a nodeset can."""
from core import *


def ids(r, n, uris, style=None):
    style = style or r.choice(['num', 'num', 'str', 'mixed', 'guid', 'bytes', 'ns'])
    out = []
    for k in range(n):
        s = style if style != 'mixed' else r.choice(['num', 'str', 'guid', 'bytes'])
        u = r.choice(uris)
        if s == 'num':
            out.append((uris[0], 'i', 1000 + k))
        elif s == 'ns':
            out.append((u, 'i', 1000 + k))
        elif s == 'str':
            out.append((u, 's', r.choice(['n%d', '%d', 'a.b.%04d', 'ü%d']) % k))
        elif s == 'guid':
            out.append((u, 'g', '%08x-0000-0000-%04x-%012x' % (r.choice([0, 1, k]), r.choice([0, 7]), k)))
        else:
            out.append((u, 'b', k.to_bytes(3, 'big') + b'x' * r.choice([0, 2])))
    how = r.choice(['asc', 'desc', 'rand', 'rand', 'zig'])
    if how == 'desc':
        out.reverse()
    elif how == 'rand':
        r.shuffle(out)
    elif how == 'zig':
        out = out[::2] + out[1::2][::-1]
    return out


def graph(r, n, undeclared=0.1, density=1.5, classes=None, shape=None, cyc=None, nfiles=1, parents=0.25, custom=0.3, dup=0.1, selfref=0.05):
    """A world whose hierarchy is a random graph over n ids; ranks ascend unless cyc adds a cycle."""
    w = World()
    uris = ['urn:g%d' % k for k in range(r.choice([1, 2, 3]))]
    for u, g in zip(uris, r.sample(range(1, 3000), len(uris))):
        w.idx[u] = g
    files = [File(r.sample(uris, len(uris))) for _ in range(nfiles)]
    w.files = files
    idl = ids(r, n, uris)
    rts = [I(x) for x in HIER0]
    tnodes = []
    if r.random() < custom:
        for k in range(r.randint(1, 4)):
            t = Node(REFTYPE, (uris[0], 'i', 10 + k))
            t.bn = ('', 'T%d' % k)
            t.refs.append([I(45), r.choice([I(33), I(47)] + [x.id for x in tnodes]), False])
            tnodes.append(t)
            w.hier.add(t.id)
        rts += [t.id for t in tnodes] * 2
    declared = {}
    for i in idl:
        if r.random() >= undeclared:
            c = r.choice(classes or [OBJECT] * 5 + [VARIABLE] * 3 + [METHOD, OBJECTTYPE, DATATYPE, VARTYPE, VIEW])
            m = Node(c, i)
            m.bn = ('', 'N')
            declared[i] = m
    edges = []
    shape = shape or r.choice(['tree', 'tree', 'chain', 'dense', 'layers', 'star', 'sparse'])
    for k in range(1, n):
        if shape == 'tree':
            ps = [r.randrange(k)]
        elif shape == 'chain':
            ps = [k - 1]
        elif shape == 'dense':
            ps = [r.randrange(k) for _ in range(min(k, 4))]
        elif shape == 'layers':
            lay = max(1, n // 6)
            base = (k // lay - 1) * lay
            ps = [r.randint(base, base + lay - 1) for _ in range(2)] if base >= 0 else []
        elif shape == 'star':
            ps = [0]
        elif shape == 'funnel':
            ps = range(k) if k == n - 1 else []
        else:
            ps = [r.randrange(k)] if r.random() < 0.4 else []
        for p in set(ps):
            edges.append((idl[p], idl[k]))
    w.edges = edges
    inh = {}   # child -> number of own hierarchical references
    pend = []

    def declare(a, b, allow_parent=True):
        na, nb = declared.get(a), declared.get(b)
        ways = []
        if na is not None:
            ways += ['f', 'f']
        if nb is not None:
            ways += ['i', 'i', 'i']
        if na is not None and nb is not None:
            ways.append('fi')
        if not ways:
            return False
        way = r.choice(ways)
        if allow_parent and nb is not None and nb.cls in INSTANCE and nb.parent is None and r.random() < parents:
            pend.append((a, b, way))
            return True
        rt = r.choice(rts)
        for _ in range(2 if r.random() < dup else 1):
            if 'f' in way:
                na.refs.append([rt, b, True])
            if 'i' in way:
                nb.refs.append([rt, a, False])
            if r.random() < 0.5:
                rt = r.choice(rts)
        return True
    for a, b in edges:
        declare(a, b)
    if cyc:
        order = cyc(r, idl)
        for k in range(len(order)):
            a, b = order[k], order[(k + 1) % len(order)]
            if a in declared or b in declared:
                declare(a, b, parents > 0 and all(not w.is_hier(x[0]) for x in (declared[b].refs if b in declared else [])))
    # parent ids only count when the node declares no hierarchical reference at all
    for a, b, way in pend:
        nb = declared[b]
        if any(w.is_hier(x[0]) for x in nb.refs) or nb.parent is not None:
            if 'i' in way:
                nb.refs.append([r.choice(rts), a, False])
            else:
                declared[a].refs.append([r.choice(rts), b, True])
        else:
            nb.parent = a
            if a in declared and 'f' in way and r.random() < 0.3:
                declared[a].refs.append([r.choice(rts), b, True])
    # an inverse reference and a parent id may have met on one node: the parent id is then only informative
    for m in declared.values():
        if r.random() < selfref:
            m.refs.append([r.choice(rts), m.id, r.random() < 0.5])
        if m.cls in (OBJECT, VARIABLE):
            m.refs.append([I(40), I(58), True])
        for _ in range(r.choice([0, 0, 1])):
            # arbitrary non-hierarchical references do not matter for the order
            m.refs.append([I(r.choice(NONHIER0)), r.choice(idl), r.random() < 0.5])
        r.shuffle(m.refs)
    allm = list(declared.values()) + tnodes
    how = r.choice(['rand', 'rand', 'topo', 'rev'])
    if how == 'rand':
        r.shuffle(allm)
    elif how == 'rev':
        allm.reverse()
    for m in allm:
        r.choice(files).nodes.append(m)
    w.declared = declared
    return w


def has_cycle(w):
    succ, indeg = {}, {}
    for a, b in set(hier_edges(w)):
        succ.setdefault(a, []).append(b)
        indeg[b] = indeg.get(b, 0) + 1
        indeg.setdefault(a, indeg.get(a, 0))
    q = [x for x in indeg if not indeg[x]]
    seen = 0
    while q:
        x = q.pop()
        seen += 1
        for y in succ.get(x, ()):
            indeg[y] -= 1
            if not indeg[y]:
                q.append(y)
    return seen != len(indeg)


def contradictory(w):
    """A node that names a parent which in turn names the node as its parent: not claimed."""
    inv = {n.id: {tg for rt, tg, fw in n.refs if not fw and w.is_hier(rt)} for n in w.nodes()}
    return any(n.cls in INSTANCE and n.id in inv.get(n.parent, ()) and not declares_hier(w, n) for n in w.nodes())


def cycles(r, idl):
    """Picks a cycle over the given ids."""
    n = r.choice([2, 2, 3, 5, len(idl)])
    return r.sample(idl, max(2, min(n, len(idl))))
