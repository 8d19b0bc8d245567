#!/usr/bin/env python3
"""mkseed.py <spec.py>: makes /verif/seeded/<id>/ for every seed of the spec and confirms it.
A spec defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], kind, demo)]."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('MKSEED_REPO', '/repo')  # in a copy the stable tests are not run
NL_PY = open(os.path.join(V, 'tools', 'seed_nl.py')).read()
CORE_SH = '''#!/bin/bash
# builds the library from the current tree and runs demo.py against it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
%s || exit 3
PYTHONDONTWRITEBYTECODE=1 timeout 250 python3 "$D/demo.py" "$T/prog" "$T"
'''
INC = '-w -g -UNDEBUG -I"$D/shim" -Iinclude -Isrc -Ibackends/open62541/include -Ibackends/open62541/src $(xml2-config --cflags 2>/dev/null || echo -I/usr/include/libxml2)'
KIND = {
 'core': (['nlcore.c', 'common.h'], 'core', 'clang %s -O1 %s $(find src -name "*.c") "$D/shim/ua_types.c" "$D/nlcore.c" -o "$T/prog" -lxml2 -lm -lpthread'),
 'back': (['nlback.c', 'common.h'], 'all', 'clang %s -O1 -DUSE_CLEANUP_CUSTOM_DATATYPES=1 %s $(find src backends/open62541/src -name "*.c") "$D"/shim/*.c "$D/nlback.c" -o "$T/prog" -lxml2 -lm -lpthread'),
 'c': ([], 'core', 'clang %s -O1 %s $(find src -name "*.c") "$D/shim/ua_types.c" "$D/demo.c" -o "$T/prog" -lxml2 -lm -lpthread'),
}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def original(diff):
    """does the patch change a line of the original repository?"""
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.split()[0]
    f = n = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1].split(',')[0][1:])
        elif n and l[:1] in (' ', '-') and not l.startswith('---'):
            if l[0] == '-':
                b = sh('git -C %s blame -s -l -L %d,%d HEAD -- %s' % (R, n, n, f)).stdout
                if b.startswith('^') and base.startswith(b[1:].split()[0]):
                    return True
            n += 1
    return False


def one(s):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/shim')
    files, sh_, build = KIND[s['kind']]
    for f in files:
        open(os.path.join(d, f), 'w').write(open(os.path.join(V, 'harness', f)).read().replace('"../shim/', '"'))
    shutil.copytree(V + '/shim/open62541', d + '/shim/open62541')
    for f in os.listdir(V + '/shim'):
        if f.endswith(('.c', '.h', '.inc')) and (sh_ == 'all' or f == 'ua_types.c'):
            shutil.copy(V + '/shim/' + f, d + '/shim')
    open(d + '/demo.sh', 'w').write(CORE_SH % (build % (INC, s.get('flags', ''))))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/nl.py', 'w').write(NL_PY)
    open(d + '/demo.py', 'w').write(s['demo'])
    if s.get('demo_c'):
        open(d + '/demo.c', 'w').write(s['demo_c'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
    a = sh('bash %s/demo.sh' % d, cwd=R)
    try:
        for f, old, new in s['edits']:
            p = R + '/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % R).stdout
        open(d + '/patch.diff', 'w').write(diff)
        ok = {'passed': [0] * 5, 'failed': []}
        if R == '/repo':
            t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            ok = json.load(open('/tmp/seed_out.json'))
        orig = original(diff)
        b = sh('bash %s/demo.sh' % d, cwd=R)
    finally:
        sh('git -C %s checkout -- .' % R)
        if R == '/repo':
            sh('bash /opt/vp/build.sh')
    good = orig and a.returncode == 0 and b.returncode not in (0, 3) and not ok['failed'] and len(ok['passed']) >= 5
    print('%s %s: clean %d, patched %d, tests %d passed %d failed' % ('OK ' if good else 'BAD', s['id'], a.returncode, b.returncode, len(ok['passed']), len(ok['failed'])))
    if not orig:
        print('    no original line is changed')
    if not good:
        print((a.stdout + a.stderr)[-1500:] if a.returncode else '', (b.stdout + b.stderr)[-1500:])
    else:
        print('    ' + (b.stdout + b.stderr).strip()[-200:].replace('\n', ' | '))


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for s in g['SEEDS']:
        if len(sys.argv) < 3 or s['id'] in sys.argv[2:]:
            one(s)
