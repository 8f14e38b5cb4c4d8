#!/usr/bin/env python3
"""Development aid: applies the edits of corpus*.py to copies of the sources and shows which checks react.
usage: run.py [-k NAME] [-p C01,C02]"""
import importlib, os, shutil, sys, tempfile, multiprocessing, time, io, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def job(a):
    name, kind, edits, props = a
    import check, resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    from modan import registry
    d = tempfile.mkdtemp(prefix='modan')
    try:
        shutil.copytree('/repo/modbus_tk', d + '/modbus_tk')
        for fn, old, new in edits:
            p = d + '/modbus_tk/' + fn
            s = open(p).read()
            if s.count(old) < 1:
                return name, kind, 'EDIT DOES NOT APPLY: %s' % old[:60], {}, 0
            s = s.replace(old, new)
            open(p, 'w').write(s)
        try:
            compile(s, p, 'exec')
        except SyntaxError as e:
            return name, kind, 'SYNTAX %s' % e, {}, 0
        check.ROOT = d
        res = {}
        t0 = time.time()
        import pickle
        for pid in props:
            # one process per check, as in the real runs
            r, w = os.pipe()
            child = os.fork()
            if not child:
                os.close(r)
                try:
                    rep, errors, _ = check.run(pid, 'quick')
                    out = ([f.text()[:230] for f in rep.findings], [k + ': ' + y[:150] for k, v in rep.open.items() for y in v], errors)
                except BaseException as e:
                    out = ([], [], ['crash %r' % e])
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(child, 0)
            res[pid] = pickle.loads(data) if data else ([], [], ['died'])
        return name, kind, '', res, time.time() - t0
    finally:
        shutil.rmtree(d)


def main():
    from modan import registry
    args = sys.argv[1:]
    props = sorted(registry.PROPS)
    key = None
    files = None
    verbose = '-v' in args
    if '-p' in args:
        props = args[args.index('-p') + 1].split(',')
    if '-k' in args:
        key = args[args.index('-k') + 1]
    skip = int(args[args.index('-s') + 1]) if '-s' in args else 0
    if '-f' in args:
        files = args[args.index('-f') + 1].split(',')
    jobs = []
    for fn in sorted(os.listdir(HERE)):
        if fn.startswith('corpus') and fn.endswith('.py') and (not files or fn[:-3] in files):
            m = importlib.import_module(fn[:-3])
            for name, want, edits in m.CORPUS:
                if '-m' in args and not want or '-b' in args and want:
                    continue
                if key and key not in name:
                    continue
                jobs.append((name, want, edits, want.split(',') if '-w' in args and want else props))
    jobs = jobs[skip:]
    bad = 0
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        for name, want, err, res, w in pool.imap(job, jobs):
            hit = [p for p in res if res[p][0]]
            opens = [p for p in res if res[p][1]]
            errs = [p for p in res if res[p][2]]
            w_ = want.split(',') if want else []
            if err:
                st = 'BROKEN ' + err
            elif not w_:
                st = 'quiet' if not hit else 'FALSE ALARM'
            else:
                st = 'caught' if set(w_) & set(hit) else ('caught elsewhere' if hit else 'MISSED')
                if set(w_) - set(props) == set(w_) and st != 'caught':
                    st = 'n/a'
            if st not in ('quiet', 'caught', 'n/a') or verbose or errs:
                bad += 1
                print('%-28s %-18s want=%s hit=%s open=%s %.0fs %s' % (name, st, want, ','.join(hit), ','.join(opens), w, 'ERRORS ' + ','.join(errs) if errs else ''))
                for p in res:
                    for x in res[p][0][:3]:
                        print('      BAD %s %s' % (p, x))
                    if not hit:
                        for x in res[p][1][:2]:
                            print('      open %s %s' % (p, x))
                    for x in res[p][2][:1]:
                        print('      ERR', x[-700:])
            elif opens:
                print('%-28s %-18s want=%s hit=%s open=%s %.0fs' % (name, st, want, ','.join(hit), ','.join(opens), w))
                if not hit:
                    for p in opens:
                        print('      open %s %s' % (p, res[p][1][0]))
    print('%d entries, %d to look at' % (len(jobs), bad))


main()
