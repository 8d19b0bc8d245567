"""C02: live allocations after deletion, measured by allocation hooks around every call into the library."""
from hostile import *
import check_c13, check_c23, subprocess


def run(chk, d):
    chk.rule = ('the histories of C01 (hostile, valid and large documents, every prefix of the call sequence), each run twice in a process; blocks allocated by the library during the second run and '
                'still live after the last loader was deleted are leaks. Arena and parser request sequences likewise. Non-trivial: distinct pairs of documents and history')
    chk.assumptions = ['memory that libxml2 keeps for the process is allocated in the first run and not counted']
    exe = build(d)
    run = Runner(exe, d, leak=True)
    docs = base_docs(SEED, 300 if THOROUGH else 60)
    cases = core_cases(run, 'c02/%s' % SEED, 40000 if THOROUGH else 3000, docs) + good_cases(run, 'c02/%s' % SEED, 2000 if THOROUGH else 300) + big_cases(run, 1500)
    import dag
    for k in range(1500 if THOROUGH else 200):
        r = random.Random('c02dag/%s/%d' % (SEED, k))
        w = dag.graph(r, r.choice([2, 5, 20]), cyc=dag.cycles if r.random() < .6 else None, selfref=.2)
        cases.append(world_case(run, w, tag='hierarchy', ops=r.choice([('sort', 'dump', 'del'), ('sort', 'del'), ('del',), ('sort', 'sort', 'del')])))
    for c, r in run_cases(run, cases):
        chk.saw()
        judge(chk, c, r)
    # arena and parser in isolation
    direct(chk, d)
    import backend
    backend.c02(chk, d)
    chk.sample('\n'.join(cases[3].lines)[:400])


def judge(chk, c, r):
    rep = c.replay() if len(doc_key(c)) < 300000 else {'tag': c.tag}
    if report_crash(chk, r, rep, c.tag):
        return
    l = r.ev('live')
    if not l:
        chk.violation('unfinished', 'no measurement: ' + r.err[-300:], rep)
        return
    l = l[0]
    chk.count('allocations_watched', l['allocs'])
    for e in r.events:
        if e['e'] in ('imp', 'sort', 'load'):
            chk.count('%s_%s' % (e['e'], 'ok' if e['r'] else 'failed'))
    if l['allocs']:
        chk.nontriv(repr([re.sub(r'/\S*/f\d+', '', x) for x in c.lines]).encode() + doc_key(c))
    if l['fds'] != 0:
        chk.violation('leak:descriptors', '%d more open file descriptors' % l['fds'], rep)
    if l['n'] != 0:
        st = re.findall(r'live block of \d+ bytes:((?: < \S+)*)', r.err)
        fr = [f for f in (st[0].split(' < ') if st else []) if f and f not in ('malloc', 'calloc', 'realloc', '__interceptor_malloc', '__interceptor_calloc')]
        chk.violation('leak:' + '<'.join(fr[:3]), '%d blocks live; %s' % (l['n'], r.err[-1200:]), rep)


def direct(chk, d):
    r = chk.rng
    exe = check_c23.build(os.path.join(d, 'b_parser'))
    import xmlgen
    docs = []
    for k in range(3000 if THOROUGH else 500):
        x = xmlgen.document(r, r.choice([1, 5, 30]))
        if k % 3 == 0:
            x = xmlgen.malform(r, x)
        b = x if isinstance(x, bytes) else x.encode('utf-8', 'surrogateescape')
        if k % 5 == 0:
            b = b[:r.randrange(len(b) + 1)]
        docs.append((b, r.choice([0, 1, 2, 3, 4]), r.randrange(0, 3000)))
    for doc_, ev, res in check_c23.run_docs(chk, exe, docs, ['leak']):
        chk.saw()
        chk.count('parser_runs')
        chk.nontriv(doc_[0])
        if res[3] != 0:
            chk.violation('leak:parser', '%d blocks live after parsing' % res[3], {'doc': doc_[0].hex(), 'mode': doc_[1:]})
    exe = check_c13.build(os.path.join(d, 'b_arena'))
    ops = []
    n = 3000 if THOROUGH else 400
    for k in range(n):
        ops += check_c13.gen_case(r, r.choice(['mix', 'grow', 'long'] if k % 20 == 0 else ['mix', 'grow']))
    try:
        p = subprocess.run([exe, 'leak'], input=('\n'.join(ops) + '\n').encode(), capture_output=True, env=run_env(), timeout=120)
    except subprocess.TimeoutExpired:
        chk.inconclusive.append('arena sequences do not end')
        return
    o = p.stdout.decode()
    chk.saw(n)
    chk.count('arena_sequences', n)
    m = re.search(r'LEAK (\d+) (-?\d+)', o)
    if m:
        chk.violation('leak:arena', 'sequence %s leaves %s blocks' % m.groups(), {'script': ops[-200:]})
    elif p.returncode or 'done' not in o:
        k, fn = sanitizer_summary(p.stderr.decode('utf-8', 'replace'))
        chk.violation('arena:%s:%s' % (k, fn), (o + p.stderr.decode('utf-8', 'replace'))[-1500:], {'script': ops[-200:]})
