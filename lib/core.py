"""Workloads through the public core API and the shared parts of its checkers."""
from collections import Counter
import base64, zlib
import zlib
from common import *
from runner import *
import model
from model import *


def environments(d):
    """Environments of a process that must not matter to the library: locales with a decimal comma, time zones."""
    out = []
    for k, (loc, cs, tz) in enumerate((('de_DE', 'UTF-8', 'Asia/Kolkata'), ('tr_TR', 'ISO-8859-9', 'America/St_Johns'))):
        n = '%s.%s' % (loc, cs)
        os.makedirs(d + '/locales', exist_ok=True)
        subprocess.run(['localedef', '-i', loc, '-f', cs, '%s/locales/%s' % (d, n)], capture_output=True)
        if os.path.exists('%s/locales/%s/LC_NUMERIC' % (d, n)):
            out.append({'LOCPATH': d + '/locales', 'H_LOCALE': n, 'TZ': tz})
    return out


def build(d, san=None, name='nlcore', extra=(), opt='-O1', src='nlcore.c'):
    b = Build(os.path.join(d, 'b_' + name), san=san, extra=extra, opt=opt)
    hs = ASAN_ONLY if san is None else san
    objs = b.compile(b.core_sources() + b.shim_sources() + [(VERIF + '/harness/' + src, [], hs)])
    return b.link(name, objs)


def build_plain(d):
    """For single large inputs: without sanitizers, which make growing arrays element by element quadratic."""
    return build(d, san=[], name='nlcore_o2', opt='-O2')


class Case:
    """One execution: files on disk, a script, and whatever the checker needs."""
    between = False
    def __init__(self, world=None, lines=None, docs=None, tag='', **kw):
        self.world = world
        self.lines = lines
        self.docs = docs or []
        self.tag = tag
        self.__dict__.update(kw)

    def replay(self):
        return {'tag': self.tag, 'script': self.lines, 'files': [d.decode('utf-8', 'surrogateescape') for d in self.docs]}


def id_script(w, i):
    uri, k, v = i
    return '%d;%s=%s' % (w.idx[uri], k, base64.b64encode(v).decode() if k == 'b' else v)


def ref_script(w):
    return ['ref\t%s\t%s' % (k, id_script(w, rt)) for rt, k in (w.kinds or {}).items()]


def separable(w):
    """Can every file be sorted before the next one is imported? Its reference types have to be known by then."""
    known = set()
    for f in w.files:
        types = {n.id: n for n in f.nodes if n.cls == REFTYPE}
        known |= set(types)
        for n in f.nodes:
            for rt, tg, fw in n.refs:
                if rt[0] not in ('', UA_URI) and rt not in known:
                    return False
                if n.cls == REFTYPE and not fw and tg[0] not in ('', UA_URI) and tg not in known:
                    return False
    return True


def world_case(run, w, style=None, ext=False, logger=1, refsvc=None, ops=('sort', 'dump', 'bidi', 'del'), tag='', docs=None, sort_between=False):
    refsvc = (w.kinds is not None) if refsvc is None else refsvc
    docs = docs or [render(f, style) for f in w.files]
    # now and then a logger or a reference service without a context, a sort after every file
    h = zlib.crc32(tag.encode())
    between = sort_between == 'maybe' and len(docs) > 1 and h // 12 % 2 and separable(w)
    lines = ns_script(w) + ref_script(w) + ['new\t0\t%d\t%d' % (2 if logger and h % 4 == 0 else logger, 2 if refsvc and h % 3 == 0 else refsvc)]
    ext = ext if isinstance(ext, list) else [ext] * len(docs)
    for k, (d, x) in enumerate(zip(docs, ext)):
        lines.append('imp\t0\t%s\t%d' % (run.file(d), int(x)))
        if between and k < len(docs) - 1:
            lines.append('sort\t0')
    lines += ['%s\t0' % o for o in ops]
    c = Case(w, lines, docs, tag)
    c.between = between
    return c


class Observed:
    """What one case delivered."""
    def __init__(self, r, slot=None):
        self.res = r
        mine = lambda e: slot is None or e.get('s') == slot
        self.imports = [e['r'] for e in r.events if e['e'] == 'imp']
        self.sorts = [e['r'] for e in r.events if e['e'] == 'sort']
        self.nodes = [e for e in r.events if e['e'] == 'node' and mine(e)]
        self.counts = {e['cls']: e['n'] for e in r.events if e['e'] == 'count' and mine(e)}
        self.logs = [e for e in r.events if e['e'] == 'log']
        self.errors = [e for e in self.logs if e['lv'] == 2]
        self.ns = [e for e in r.events if e['e'] == 'ns']
        self.bidi = [[e['src'], e['dst'], e['rt']] for e in r.events if e['e'] == 'bidi']
        self.by_id = {}
        for n in self.nodes:
            self.by_id.setdefault(n['id'], []).append(n)


def loaded(chk, case, r, what):
    """Common preconditions: ended normally, imports and sort succeeded."""
    if report_crash(chk, r, case.replay(), what):
        return None
    o = Observed(r)
    if any(e['e'] == 'garbled' for e in r.events):
        chk.violation('garbled', 'undecodable output ' + str([e for e in r.events if e['e'] == 'garbled'][:2]), case.replay())
        return None
    if not all(o.imports) or len(o.imports) != len(case.docs):
        chk.violation('import-failed', 'import of a well-formed nodeset failed: ' + str(o.logs[:3]), case.replay())
        return None
    if o.sorts and not all(o.sorts):
        chk.violation('sort-failed', 'sort of an acyclic, fully known nodeset failed: ' + str(o.logs[:3]), case.replay())
        return None
    return o


def msdiff(exp, got):
    e, g = Counter(map(repr, exp)), Counter(map(repr, got))
    return sorted((e - g).elements())[:4], sorted((g - e).elements())[:4]


def kinds(n):
    return TAG[n.cls]


def nid(e):
    return '%s %s' % (TAG[e['cls']], e['id'])


# ------------------------------------------------------------ projections

def check_nodes(chk, case, o):
    """C03: exactly the declared nodes with exactly their attributes."""
    w = case.world
    exp = [exp_node(w, n) for n in w.nodes()]
    more = {w.gid(n.id): n.more for n in w.nodes() if n.more}
    ids = Counter(e['id'] for e in exp)
    got = Counter(n['id'] for n in o.nodes)
    if ids != got:
        chk.violation('nodes', 'missing %s, extra or repeated %s' % (list((ids - got).elements())[:4], list((got - ids).elements())[:4]), case.replay())
    by = Counter(e['cls'] for e in exp)
    for c in range(8):
        if o.counts.get(c) != by.get(c, 0):
            chk.violation('count', 'class %s: iteration returned %s, %d declared' % (TAG[c], o.counts.get(c), by.get(c, 0)), case.replay())
    for n in o.nodes:
        if n['it'] != n['cls']:
            chk.violation('class', 'node %s delivered in the iteration of class %d' % (nid(n), n['it']), case.replay())
    for e in exp:
        for g in o.by_id.get(e['id'], [])[:1]:
            for k, v in e.items():
                chk.count('attributes_compared')
                if k in more.get(e['id'], {}) and g.get(k) in [exp_text(t) for t in more[e['id']][k]]:
                    continue    # one of several declared texts
                if g.get(k, '<absent>') != v:
                    chk.violation('attr:%s:%s' % (TAG[e['cls']], k), '%s %s: delivered %r, declared %r' % (nid(g), k, g.get(k, '<absent>'), v), case.replay())


def check_refs(chk, case, o, links=True):
    """C06: declared references, once each, correctly classified; only parent-id links added."""
    w = case.world
    for n in w.nodes():
        g = (o.by_id.get(w.gid(n.id)) or [None])[0]
        if g is None:
            continue
        h, nh, td = exp_refs(w, n)
        acc = exp_parent_link(w, n)
        gh = [list(x) for x in g['h']]
        if acc is not None:
            # remove one synthesized link, whatever it looks like (C24 judges it)
            extra = [x for x in gh if x[1] == w.gid(n.parent)]
            rest = list(h)
            for x in extra:
                if x not in rest:
                    gh.remove(x)
                    break
        chk.count('references_compared', len(n.refs))
        for name, e, gg in (('hierarchical', h, gh), ('non-hierarchical', nh, g['nh']), ('type-definition', td, g.get('td', []))):
            if name == 'type-definition':
                gg = gg[:1] if len(td) <= 1 else gg
            m, x = msdiff(e, gg)
            if m or x:
                chk.violation('refs:' + name, '%s: missing %s, unexpected %s' % (nid(g), m, x), case.replay())
        if g['un']:
            chk.violation('refs:unknown', '%s still has references of unknown type after a successful sort: %s' % (nid(g), g['un'][:3]), case.replay())


def check_parent_links(chk, case, o):
    """C24."""
    w = case.world
    for n in w.nodes():
        g = (o.by_id.get(w.gid(n.id)) or [None])[0]
        if g is None or n.cls not in INSTANCE:
            continue
        h, nh, td = exp_refs(w, n)
        acc = exp_parent_link(w, n)
        m, x = msdiff(h, g['h'])
        if m:
            continue   # C06
        if acc is None:
            chk.count('nodes_without_link')
            if x:
                chk.violation('unexpected-link', '%s (parent id %s, %d declared hierarchical references) got %s' % (nid(g), n.parent and w.gid(n.parent), len(h), x), case.replay())
            continue
        chk.count('links_checked')
        if acc[0][0] != w.gid(I(47)):
            chk.count('links_of_parents_type')
        if len(x) != 1 or x[0] not in map(repr, acc):
            chk.violation('link', '%s names parent %s: got links %s, acceptable %s' % (nid(g), w.gid(n.parent), x, acc), case.replay())


def hier_edges(w, nodes=None):
    """Parent -> child pairs the nodes of the world declare."""
    ed = []
    for n in w.nodes() if nodes is None else nodes:
        for rt, tg, fw in n.refs:
            if w.is_hier(rt):
                a, b = (n.id, tg) if fw else (tg, n.id)
                if a != b:
                    ed.append((w.gid(a), w.gid(b)))
        if n.cls in INSTANCE and n.parent is not None and not declares_hier(w, n) and n.parent != n.id:
            ed.append((w.gid(n.parent), w.gid(n.id)))
    return ed


def check_order(chk, case, o):
    """C04."""
    w = case.world
    pos = {}
    for k, n in enumerate(o.nodes):
        pos.setdefault(n['id'], (n['it'], k))
    if not case.between:
        _check_order(chk, case, hier_edges(w), pos)
        return
    # sorted file by file: the order among the nodes of one file, earlier nodes are handed out already
    earlier = set()
    for f in w.files:
        ids = {w.gid(n.id) for n in f.nodes}
        chk.count('files_sorted_separately')
        _check_order(chk, case, [(a, b) for a, b in hier_edges(w, f.nodes) if a not in earlier and b not in earlier], {i: p for i, p in pos.items() if i in ids})
        earlier |= ids


def _check_order(chk, case, edges, pos):
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    # transitive: walk down from every delivered node
    for a, (cls, k) in pos.items():
        seen = set()
        st = list(succ.get(a, ()))
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += succ.get(b, ())
            if b in pos and pos[b][0] == cls:
                chk.count('ordered_pairs_checked')
                if pos[b][1] < k:
                    chk.violation('order', '%s delivered before its ancestor %s' % (b, a), case.replay())


def check_values(chk, case, o):
    """C09."""
    w = case.world
    for n in w.nodes():
        if n.cls != VARIABLE:
            continue
        g = (o.by_id.get(w.gid(n.id)) or [None])[0]
        if g is None:
            continue
        e = exp_value(n)
        chk.count('values_compared' if e else 'variables_without_value')
        if g.get('value') != e:
            chk.violation('value:%s' % ('unexpected' if e is None else 'differs'), '%s: delivered %s declared %s' % (nid(g), json.dumps(g.get('value'))[:600], json.dumps(e)[:600]), case.replay())


def check_definitions(chk, case, o):
    """C10 (definitions)."""
    w = case.world
    for n in w.nodes():
        if n.cls != DATATYPE:
            continue
        g = (o.by_id.get(w.gid(n.id)) or [None])[0]
        if g is None:
            continue
        e = exp_def(w, n)
        if e:
            chk.count('definitions_compared')
            chk.count('fields_compared', len(e['fields']))
        if not def_equal(e, g.get('def')):
            chk.violation('definition', '%s: delivered %s declared %s' % (nid(g), json.dumps(g.get('def'))[:700], json.dumps(e)[:700]), case.replay())


def check_ns(chk, case, o):
    """C07: the callback protocol; translated ids are compared through every id of the node records."""
    w = case.world
    exp = [(u, w.idx[u]) for f in w.files for u in f.uris]
    got = [(e['uri'], e['idx']) for e in o.ns]
    if exp != got:
        chk.violation('ns-callback', 'calls %s, declared %s' % (got[:6], exp[:6]), case.replay())
    for e in o.ns:
        chk.count('callback_calls')
        if not e['ctx']:
            chk.violation('ns-context', 'callback without the caller\'s context', case.replay())


def no_errors(chk, case, o):
    if o.errors:
        chk.violation('error-logged', 'error message although everything succeeded: ' + str(o.errors[:2]), case.replay())


def generate(chk, n, mk):
    """n worlds by mk(rng, k)."""
    out = []
    for k in range(n):
        out.append(mk(random.Random('%s/%s/%d' % (chk.prop, SEED, k)), k))
    return out


def run_cases(run, cases):
    return list(zip(cases, run.run([c.lines for c in cases])))


def doc_key(case):
    return b'\0'.join(case.docs)
