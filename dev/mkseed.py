#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from dev/seeds*.py and checks the demonstrations on scratch copies.
usage: mkseed.py [id ...]"""
import os, sys, json, shutil, subprocess, importlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
OUT = os.path.join(os.path.dirname(HERE), 'seeded')


def sh(cmd, cwd=None, t=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    ids = sys.argv[1:]
    for fn in sorted(os.listdir(HERE)):
        if not (fn.startswith('seeds') and fn.endswith('.py')):
            continue
        for s in importlib.import_module(fn[:-3]).SEEDS:
            if ids and s['id'] not in ids:
                continue
            d = os.path.join(OUT, s['id'])
            w = tempfile.mkdtemp(prefix='seed')
            try:
                shutil.copytree('/repo', w + '/r', symlinks=True)
                r = w + '/r'
                for f, old, new in s['edits']:
                    p = os.path.join(r, f)
                    x = open(p, newline='').read()
                    if '\r\n' in x:
                        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                    assert x.count(old) == 1, (s['id'], x.count(old), old)
                    open(p, 'w', newline='').write(x.replace(old, new))
                diff = subprocess.run('git diff', shell=True, cwd=r, stdout=subprocess.PIPE).stdout
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'wb').write(diff)
                open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
                open(d + '/demo.sh', 'w').write('#!/bin/bash\ncd "${REPO_DIR:-$PWD}" || exit 2\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
                                             if False else
                                             '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$HERE/demo.py" "$PWD"\n')
                os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                b = sh('bash %s/demo.sh' % d, r)
                sh('git checkout -- .', r)
                a = sh('bash %s/demo.sh' % d, r)
                ok = a.returncode == 0 and b.returncode not in (0, 124)
                print(s['id'], 'clean', a.returncode, 'patched', b.returncode, 'OK' if ok else 'PROBLEM')
                if not ok or '-v' in sys.argv:
                    print(a.stdout[-600:], '\n---\n', b.stdout[-600:])
            finally:
                shutil.rmtree(w)


main()
