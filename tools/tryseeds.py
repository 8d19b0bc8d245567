#!/usr/bin/env python3
"""tryseeds.py [-a] [ids]: runs the check of every planted bug's property (-a: all checks) against a patched copy of the tree.
Prints caught / MISSED. Never touches /repo."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = '-a' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
M = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}


def one(i):
    s = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    t = tempfile.mkdtemp(prefix='seedtree-')
    try:
        subprocess.run('git -C %s archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff' % (os.environ.get("TRY_REPO", "/repo"), t, t, V, i), shell=True, check=True)
        props = sorted(M) if ALL else [s['property']]
        res = []
        for p in props:
            if p not in M:
                res.append(p + ':unregistered')
                continue
            r = subprocess.run(['python3', V + '/check.py', p], env=dict(os.environ, VERIF_REPO=t, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True, cwd=V)
            if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout:
                res.append(p + ':caught')
            elif r.returncode:
                res.append(p + ':rc%d' % r.returncode)
            elif not ALL:
                res.append(p + ':MISSED')
        return '%s  %s' % (i, ' '.join(res))
    finally:
        shutil.rmtree(t, ignore_errors=True)


with ThreadPoolExecutor(2 if not ALL else 2) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
