#!/usr/bin/env python3
"""Development aid: which planted bugs pass the repository's stable tests. usage: countseed.py [id ...]"""
import os, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def one(i):
    w = tempfile.mkdtemp(prefix='seed')
    try:
        shutil.copytree('/repo', w + '/r', symlinks=True)
        subprocess.check_call('git -C %s/r apply %s/seeded/%s/patch.diff' % (w, V, i), shell=True)
        r = subprocess.run(['unshare', '-Urnm', 'sh', '-c', 'ip link set lo up; mount --bind %s/r /repo && bash /opt/vp/test.sh %s/out.json' % (w, w)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            ok = set(json.load(open(w + '/out.json'))['passed'])
        except Exception:
            return i, r.stdout[-500:]
        return i, [t for t in STABLE if t not in ok]
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(6) as ex:
    for i, l in ex.map(one, ids):
        print(i, 'counts' if not l else 'DOES NOT COUNT %s' % l, flush=True)
