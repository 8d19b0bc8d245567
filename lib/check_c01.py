"""C01: hostile documents and histories under ASan+UBSan with CPU limits; valgrind memcheck for uninitialised reads."""
from hostile import *
import tempfile, glob as g_


def memcheck(chk, d, cases, builder=build, name='nlplain'):
    """Uninitialised reads: plain build under valgrind."""
    exe = builder(d, san=[], name=name, extra=['-fno-builtin'])
    vd = os.path.join(d, 'vg_' + name)
    os.makedirs(vd, exist_ok=True)
    run = Runner(exe, d, cpu=120, wrapper=['valgrind', '-q', '--error-exitcode=77', '--leak-check=no', '--log-file=%s/%%p.log' % vd, '--child-silent-after-fork=no'])
    for c, r in zip(cases, run.run([c.lines for c in cases], batch=max(1, len(cases) // NCPU + 1))):
        chk.saw()
        chk.count('memcheck_cases')
        if r.kind == 'exit' and r.value == 77:
            logs = [open(p).read() for p in sorted(g_.glob(vd + '/*.log'))]
            t = next((x for x in logs if x.strip()), '')
            fn = next((m.group(1) for m in re.finditer(r'(?:at|by) 0x[0-9A-F]+: (\w+) \((?!nlcore|nlback|common|ua_)', t)), None)
            m = re.search(r'==\d+== (Conditional jump|Use of uninit|Invalid \w+|Syscall param|Mismatched|Invalid free|Source and dest)[^\n]*', t)
            chk.violation('memcheck:%s:%s' % (m.group(1) if m else '?', fn), t[:2500], c.replay())
        elif not r.ok and r.kind != 'skipped' and not r.cpu and r.kind != 'lost':
            report_crash(chk, r, c.replay(), 'plain build')


def scaling(chk, d):
    """CPU time against input size: four times the input must not cost much more than linear effort allows."""
    exe = build(d, san=[], name='nlopt', opt='-O2')
    run = Runner(exe, d, cpu=20)
    f = 40000 if THOROUGH else 12000
    cases = big_cases(run, f) + many_cases(run, 500000 if THOROUGH else 150000)
    # reference types: quadratic effort is fine, 5 000 in a chain (cubic: more than 80 s)
    cases += [c for c in big_cases(run, 40000) if ':reftypes' in c.tag]
    for c, r in run_cases(run, cases):
        chk.saw()
        chk.count('scaling_cases')
        chk.nontriv(c.tag)
        if not report_crash(chk, r, {'tag': c.tag, 'size': f, 'how': 'hostile.big_docs'}, c.tag):
            if not r.ev('end'):
                chk.violation('unfinished', c.tag, {'tag': c.tag})


def run(chk, d):
    chk.rule = ('nodeset files of the repository and generated ones, mutated in structure (elements removed, repeated, moved, renamed, wrapped; hostile attribute values and texts) or in bytes, '
                'imported in random histories of new/import/invalid import/sort/iterate/links/delete on up to three loaders; documents that are large in one dimension. '
                'Non-trivial: distinct pairs of documents and history')
    chk.assumptions = ['memory exhaustion is not injected', 'a call that needs more than 24 CPU seconds (sanitizer build, inputs below 1 MB) counts as a hang']
    exe = build(d)
    run = Runner(exe, d)
    docs = base_docs(SEED, 400 if THOROUGH else 60)
    cases = core_cases(run, SEED, 60000 if THOROUGH else 4500, docs) + good_cases(run, SEED, 2000 if THOROUGH else 150) + big_cases(run, 4000) + huge_cases(run)
    for c, r in run_cases(run, cases):
        chk.saw()
        chk.nontriv(repr(c.lines and [re.sub(r'/\S*/f\d+', '', l) for l in c.lines]).encode() + doc_key(c))
        chk.count(c.tag.split(':')[0] + '_cases')
        if report_crash(chk, r, c.replay() if len(doc_key(c)) < 300000 else {'tag': c.tag}, c.tag):
            continue
        for e in r.events:
            if e['e'] in ('imp', 'sort'):
                chk.count('%s_%s' % (e['e'], 'ok' if e['r'] else 'failed'))
            elif e['e'] == 'node':
                chk.count('nodes_read')
        if not r.ev('end'):
            chk.violation('unfinished', 'the history did not reach its end', c.replay())
    memcheck(chk, d, core_cases(run, 'vg%s' % SEED, 400 if THOROUGH else 40, docs) + good_cases(run, 'vg%s' % SEED, 100 if THOROUGH else 16))
    scaling(chk, d)
    import backend
    backend.c01(chk, d)
    chk.sample(cases[3].docs[0].decode('utf-8', 'replace')[:400])
