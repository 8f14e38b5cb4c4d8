#!/usr/bin/env python3
"""Development aid: runs the check of each planted bug on a scratch copy with the bug. usage: tryseed.py [id ...]"""
import os, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)


def one(i):
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && git -C %s init -q && git -C %s apply %s/patch.diff' % (w, w, w, d), shell=True)
        e = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + '/ev', MODAN_LIMIT='300')
        r = subprocess.run(['python3', V + '/check.py', p], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return i, p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'rror' in l][:2]
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(7) as ex:
    for i, p, rc, l in ex.map(one, ids):
        print(i, p, 'caught' if rc == 1 else 'MISSED rc=%d' % rc, '' if rc == 1 else l, flush=True)
