#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current source by static analysis."""
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from modan import registry                       # noqa: E402
from modan.drive import Missing                  # noqa: E402
from modan.interp import Interp, Budget          # noqa: E402
from modan.rules.base import Report              # noqa: E402

EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
ROOT = os.environ.get('VERIF_REPO', '/repo')


class TimeUp(BaseException):
    pass


def known_findings():
    """{property: [key]} of the recorded findings"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: '):
                w = line.split()
                d = dict(x.split('=', 1) for x in w[1:] if '=' in x)
                out.setdefault(d.get('property'), {})[d.get('key')] = line.strip()
    return out


def run(pid, tier):
    t0 = time.time()
    p = registry.PROPS[pid]
    rep = Report(pid, tier)
    errors = []

    def up(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.alarm(int(os.environ.get('MODAN_LIMIT', 0)) or (600 if tier == 'quick' else 3000))
    try:
        I = Interp(ROOT)
        for mod, fn in p['rules']:
            m = importlib.import_module('modan.rules.' + mod)
            try:
                getattr(m, fn)(I, rep)
            except Missing as e:
                rep.und(fn, 'entry point not found: %s' % e)
            except Budget as e:
                rep.und(fn, 'analysis budget exceeded: %s' % e)
            except MemoryError:
                rep.und(fn, 'analysis ran out of memory')
            except RecursionError:
                rep.und(fn, 'analysis too deep')
            except TimeUp:
                raise
            except Exception as e:
                errors.append('%s: %s' % (fn, traceback.format_exc()[-1500:]))
                rep.und(fn, 'analysis failed: %s: %s' % (type(e).__name__, str(e)[:200]))
    except TimeUp:
        rep.und('time', 'time limit of the analysis reached')
    except Exception as e:
        errors.append(traceback.format_exc()[-1500:])
        rep.und('source', 'source could not be analysed: %s: %s' % (type(e).__name__, str(e)[:200]))
    signal.alarm(0)
    return rep, errors, time.time() - t0


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    rep, errors, wall = run(pid, tier)
    p = registry.PROPS[pid]
    known = known_findings().get(pid, {})
    new = [f for f in rep.findings if f.key not in known]
    old = [f for f in rep.findings if f.key in known]
    proved = sum(rep.proved.values())
    opened = sum(len(v) for v in rep.open.values())
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, '%s-findings.txt' % pid)
    with open(replay, 'w') as f:
        for x in rep.findings:
            f.write(x.text() + '\n')
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': '%s. %s' % (p['technique'], p['note']),
            'paths_analysed': rep.paths,
            'functions': sorted(rep.analysed),
            'obligations_shown': proved,
            'obligations_per_rule': rep.proved,
            'obligations_left_open': opened,
            'open': dict((k, v[:20]) for k, v in rep.open.items()),
            'notes': rep.notes[:20],
            'errors': errors[:5],
        },
        'assumptions': registry.COMMON + p['assumptions'],
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    with open(os.path.join(EVID, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s: %d paths, %d obligations shown, %d left open, %.1fs' % (pid, tier, rep.paths, proved, opened, wall))
    for k in sorted(rep.open):
        for y in rep.open[k][:6]:
            print('  open %s: %s' % (k, y))
    for x in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, x.text()))
    for x in new:
        print('  ' + x.text())
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.exit(main(sys.argv))
