#!/usr/bin/env python3
"""mutants.py <outfile> [-n max] [-j jobs] [-f regex of files] [-s seed]: development aid, not a check.
Makes small syntactic changes of the library in scratch copies and runs the checks until one reports a violation;
what no check reports is printed as SURVIVED for manual inspection. Never touches /repo; run it from a copy of /verif."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-n', type=int, default=10**9); ap.add_argument('-j', type=int, default=4)
ap.add_argument('-f', default='.'); ap.add_argument('-s', type=int, default=1); ap.add_argument('-c', default='')
ap.add_argument('-x', default='', help='json {file: {line: 0|1}}: mutate executed lines only')
ap.add_argument('-q', action='store_true', help='without the long checks')
A = ap.parse_args()
CORE = 'C03 C06 C12 C09 C10 C07 C08 C04 C05 C24 C14 C11 C13 C23 C20 C15 C16 C17 C18 C19 C22 C21 C02 C01'.split()
BACK = 'C15 C16 C17 C18 C19 C22 C21 C02 C01'.split()
FIRST = {'CharAllocator.c': ['C13'], 'Parser.c': ['C23'], 'Sort.c': ['C04', 'C05'], 'InternalRefService.c': ['C04', 'C15', 'C24'], 'PrintfLogger.c': ['C22'],
         'Value.c': ['C09', 'C17'], 'DataTypeNode.c': ['C10'], 'InstanceNode.c': ['C24'], 'NodeContainer.c': ['C03', 'C12'], 'AliasList.c': ['C08'], 'NamespaceList.c': ['C07'],
         'DataTypeImporter.c': ['C16'], 'customDataType.c': ['C18'], 'RefServiceImpl.c': ['C15'], 'nodeset_base64.h': ['C17'], 'ServerContext.c': ['C15']}
INC = ['-I' + V + '/shim', '-Iinclude', '-Isrc', '-Ibackends/open62541/include', '-Ibackends/open62541/src', '-I/usr/include/libxml2']


def mutants(path, text):
    lines = text.split('\n')
    depth, prev = 0, ''
    incomment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            incomment = True
        skip = incomment or s.startswith('//') or s.startswith('#') or not s
        if '*/' in s:
            incomment = False
        d0 = depth
        if not skip:
            depth += l.count('{') - l.count('}')
        if skip or d0 == 0 and not path.endswith('.h') and not re.search(r'\{.*\}', l) and 'static' not in l:
            if not skip:
                prev = s
            continue
        def m(new):
            return (n, '\n'.join(lines[:n] + [new] + lines[n + 1:]), s + '  ==>  ' + new.strip())
        if re.search(r'[;{}:)]$', prev) and s.endswith(';') and not re.match(r'(return|case|default|struct|const|static|int |char |size_t |bool |void |for)', s) and d0 > 0:
            yield m(re.match(r'\s*', l).group() + ';')
        for a, b in (('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), ('&&', '||'), ('||', '&&'), (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'),
                     ('++', ''), ('NULL', '(void*)1') if 0 else ('continue;', 'break;'), ('break;', ';'), ('return;', ';'), ('return NULL', 'return (void*)0x0'), (' += ', ' = '), (' + ', ' - '), (' * ', ' + ')):
            p = l.find(a)
            while p >= 0:
                if not (a in ('<', '>') and '->' in l):
                    yield m(l[:p] + b + l[p + len(a):])
                p = l.find(a, p + 1)
        for mm in re.finditer(r'(?<![\w."\[])(\d+)(?![\w."])', l):
            v = int(mm.group(1))
            yield m(l[:mm.start()] + str(v + 1) + l[mm.end():])
            if v:
                yield m(l[:mm.start()] + str(v - 1) + l[mm.end():])
        mm = re.match(r'(.*\b(?:if|while)\s?\()(.*)(\)\s*\{?)$', l)
        if mm and mm.group(2).count('(') == mm.group(2).count(')'):
            yield m(mm.group(1) + '!(' + mm.group(2) + ')' + mm.group(3))
            if 'while' not in l:
                yield m(mm.group(1) + '0 && (' + mm.group(2) + ')' + mm.group(3))
                yield m(mm.group(1) + '1 || (' + mm.group(2) + ')' + mm.group(3))
        mm = re.match(r'(\s*return )(.+);$', l)
        if mm and mm.group(2) not in ('true', 'false', 'NULL'):
            yield m(mm.group(1) + '0;')
        mm = re.match(r'(.*?)(\w+)\((\w+), (\w+)\)(.*)$', l)
        if mm and d0 and mm.group(2) not in ('if', 'while', 'for'):
            yield m('%s%s(%s, %s)%s' % (mm.group(1), mm.group(2), mm.group(4), mm.group(3), mm.group(5)))
        prev = s


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


BASE = tempfile.mkdtemp(prefix='mutbase-')
subprocess.run('git -C /repo archive HEAD | tar x -C ' + BASE, shell=True, check=True)
files = [f for f in sh('git', 'ls-files', 'src', 'backends/open62541/src', cwd='/repo').stdout.split() if f.endswith(('.c', '.h')) and re.search(A.f, f)]


def obj(tree, f):
    if f.endswith('.h'):
        r = b''
        for u in ['backends/open62541/src/import.c', 'backends/open62541/src/Value.c', 'backends/open62541/src/DataTypeImporter.c'] if 'backends' in f else ['src/Nodeset.c', 'src/Sort.c']:
            r += obj(tree, u) or b'?'
        return r
    o = tree + '/o.o'
    p = sh('clang', '-w', '-O1', '-DUSE_CLEANUP_CUSTOM_DATATYPES=1', *INC, '-c', f, '-o', o, cwd=tree)
    if p.returncode:
        return None
    return open(o, 'rb').read()


import json
COV = json.load(open(A.x)) if A.x else None
work = []
for f in files:
    t = open(BASE + '/' + f).read()
    for n, new, d in mutants(f, t):
        nul = re.search(r'if ?\(!?\(?[\w>\-*.]+( [!=]= NULL)?\)$', t.split('\n')[n].strip()) and (COV or {}).get(f, {}).get(str(n + 3)) == 0
        if COV and (not COV.get(f, {}).get(str(n + 1)) or nul):
            continue
        work.append((f, n, new, d))
random.Random(A.s).shuffle(work)
work = work[:A.n]
print('%d mutants of %d files' % (len(work), len(files)), flush=True)
base = {f: obj(BASE, f) for f in files}
OUT = open(A.out, 'a')


def one(w):
    f, n, new, d = w
    t = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run('cp -a %s/. %s' % (BASE, t), shell=True, check=True)
        open(t + '/' + f, 'w').write(new)
        o = obj(t, f)
        if o is None or b'?' == o[:1]:
            return
        if o == base[f]:
            return
        os.path.exists(t + '/o.o') and os.unlink(t + '/o.o')
        order = BACK if 'backends' in f else CORE
        order = list(dict.fromkeys(FIRST.get(os.path.basename(f), []) + order))
        if A.c:
            order = A.c.split(',')
        if A.q:
            order = [c for c in order if c not in ('C01', 'C02', 'C21', 'C20') + (() if 'backends' in f else ('C16', 'C18', 'C19'))]
        odd = ''
        for c in order:
            try:
                r = sh('timeout', '600', 'python3', V + '/check.py', c, env=dict(os.environ, VERIF_REPO=t, VERIF_SEED='1', VERIF_TIER='quick', VERIF_NCPU='2'), cwd=V)
            except Exception as e:
                return 'ERR %s' % e
            if r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout:
                return 'killed %s%s  %s:%d  %s' % (c, odd, f, n + 1, d)
            if r.returncode:
                odd += ' %s=rc%d' % (c, r.returncode)
        return 'SURVIVED%s  %s:%d  %s' % (odd, f, n + 1, d)
    finally:
        shutil.rmtree(t, ignore_errors=True)


with ThreadPoolExecutor(A.j) as ex:
    for fu in as_completed([ex.submit(one, w) for w in work]):
        r = fu.result()
        if r:
            OUT.write(r + '\n'); OUT.flush()
shutil.rmtree(BASE, ignore_errors=True)
OUT.write('DONE\n')
