"""C27: the connection of a master."""
from ..drive import *
from ..drive import only, call, callm, need, has_method, exc_name
from .base import *
from .bank import serial_port
from .master import MASTERS, SENDS, At
from .serial import attr, set_at

LIMIT = T('limit', (), 'float')
FIRST = T('first_limit', (), 'float')


def sockets(s):
    """socket -> [connected, closed, limit] in order of first use"""
    out = {}
    for e in flat(s.events()):
        if e.kind != 'io' or not isinstance(e.d['recv'], Ref):
            continue
        op, r = e.d['op'], e.d['recv']
        x = out.setdefault(r, [False, False, None])
        if op == 'connect':
            x[0] = True
        elif op == 'close':
            x[1] = True
        elif op == 'settimeout':
            x[2] = e.d['args'][0] if e.d['args'] else None
        elif op == 'setblocking' and e.d['args']:
            x[2] = NONE if e.d['args'][0] == TRUE or e.d['args'][0] == N(1) else N(0)
    return out


def live(s):
    return [r for r, x in sockets(s).items() if x[0] and not x[1]]


def steps(I, rep, st, m, ops):
    """[(state, value)] after a sequence of (method, args, faults); an exception ends a sequence"""
    cur = [(st, None)]
    for op, args, faults in ops:
        nxt = []
        for s, v in cur:
            if isinstance(v, Exc):
                nxt.append((s, v))
                continue
            s = s.fork()
            I.cfg = Config(faults=faults)
            for s2, v2 in callm(I, s, m, op, args):
                rep.paths += 1
                functions(rep, s2)
                nxt.append((s2, v2))
        cur = nxt
    I.cfg = Config()
    return cur


EXECUTE = ('execute', [N(sym('unit', 1, 247)), N(3), N(sym('addr', 0, 0xffff)), N(1)])


def execs(I, rep, s, m, faults=()):
    I.cfg = Config(faults=faults, deaf=True)
    outs = callm(I, s.fork(), m, EXECUTE[0], EXECUTE[1])
    I.cfg = Config()
    for s2, v in outs:
        rep.paths += 1
        functions(rep, s2)
    return outs


def since(s, n, ops, kinds=('io', 'iofail')):
    return [e for e in flat(s.events()[n:]) if e.kind in kinds and e.d['op'] in ops]


def tcp(I, rep, kind):
    R = 'connection'
    mod, cls, _, _ = MASTERS[kind]
    I.cfg = Config()
    st = I.new_state()
    f = st.facts.add_all([('bool', ('lt', N(0), FIRST), True)])
    st.facts = f if f is not None else st.facts
    st, m = only([(s, v) for s, v in call(I, st, need(I, mod, cls), [], {'timeout_in_sec': FIRST}, mod=mod) if not negative(s)], cls)

    def one(s, cl, what):
        """exactly one connection, and it is really one"""
        l = live(s)
        if len(l) == 1:
            rep.ok(R)
            return True
        if not l:
            must_not(rep, R, s, [], cl, last_loc(s), '%s leaves the master without a connection' % what)
        else:
            must_not(rep, R, s, [], cl, last_loc(s), '%s leaks the connection it replaces' % what)
        return False

    def reopen(s, cl, what):
        """the next open, and the next execute, really connect"""
        n = s.ntrace
        for s2, v in steps(I, rep, s, m, [('open', [], ())]):
            if isinstance(v, Exc):
                must_not(rep, R, s2, [], cl, last_loc(s2), 'open fails with %s after %s' % (exc_name(I, s2, v), what))
            elif not since(s2, n, ('connect',)):
                must_not(rep, R, s2, [], cl, last_loc(s2), 'open does not connect after %s' % what)
            else:
                one(s2, cl, 'open after %s' % what)
        for s2, v in execs(I, rep, s, m):
            on_live(s2, n, '%s.execute' % cls, 'after %s' % what)

    def on_live(s, n, cl, what):
        evs = s.events()
        for i, e in enumerate(evs):
            if i < n or e.kind not in ('io', 'iofail') or e.d['op'] not in SENDS:
                continue
            at = At(s, e.facts)
            con, clo = False, False
            others = {}
            for x in flat(evs[:i]):
                if x.kind == 'io' and x.d['op'] == 'connect':
                    others[x.d['recv']] = True
                elif x.kind == 'io' and x.d['op'] == 'close':
                    others[x.d['recv']] = False
            if not others.get(e.d['recv']):
                must_not(rep, R, at, [], cl, e.loc, 'sends on a socket that is not connected %s' % what)
            elif [x for x in flat(evs[n:i]) if x.kind == 'iofail' and x.d['op'] in ('select', 'recv')]:
                x = [x for x in flat(evs[n:i]) if x.kind == 'iofail' and x.d['op'] in ('select', 'recv')][-1]
                if [y for y in flat(evs[n:i]) if y.kind == 'io' and y.d['op'] == 'connect' and y.d['recv'] == e.d['recv']]:
                    rep.ok(R)
                else:
                    must_not(rep, R, at, [], cl, e.loc, 'sends on a connection that was found to be broken')
            elif sum(others.values()) > 1:
                must_not(rep, R, at, [], cl, e.loc, 'leaks the connection it replaces %s' % what)
            else:
                rep.ok(R)
                lim = None
                for x in flat(evs[:i]):
                    if x.kind == 'io' and x.d['recv'] == e.d['recv']:
                        if x.d['op'] == 'settimeout':
                            lim = x.d['args'][0]
                        elif x.d['op'] == 'setblocking':
                            lim = NONE
                for s2, v in callm(I, s.fork(), m, 'get_timeout'):
                    if negative(s2):
                        continue
                    if lim is None or (lim != v and not isinstance(v, Exc)):
                        must_not(rep, 'time-limit', At(s2, e.facts), [], cl, e.loc, 'uses a connection without the time limit of the master', [lim, v])
                    else:
                        rep.ok('time-limit')

    # open, open again
    for s, v in steps(I, rep, st, m, [('open', [], ())]):
        cl = '%s.open' % cls
        if isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), 'raises %s although connecting works' % exc_name(I, s, v))
            continue
        if not one(s, cl, 'open'):
            continue
        n = s.ntrace
        for s2, v2 in steps(I, rep, s, m, [('open', [], ())]):
            x = since(s2, n, ('connect', 'close'))
            if x:
                must_not(rep, R, s2, [], cl, x[0].loc, 'opens an open master once more')
            elif isinstance(v2, Exc):
                must_not(rep, R, s2, [], cl, last_loc(s2), 'raises %s on an open master' % exc_name(I, s2, v2))
            else:
                rep.ok(R)
        # execute on an open master: on its connection; when it is broken, on a new one
        for faults in ((), ('io:select', 'io:recv')):
            for s2, v2 in execs(I, rep, s, m, faults):
                cl2 = '%s.execute' % cls
                on_live(s2, n, cl2, '')
                if not faults:
                    x = since(s2, n, ('connect',))
                    if x and not since(s2, n, ('recv',)) and not since(s2, n, ('select', 'recv'), ('iofail',)):
                        must_not(rep, R, s2, [], cl2, x[0].loc, 'connects once more although the master is open and its connection works')
        # after a failing execute
        for s2, v2 in execs(I, rep, s, m, ('io:sendall', 'io:send')):
            if not isinstance(v2, Exc):
                continue
            closing(I, rep, R, s2, m, cls, reopen, 'a failed execute')
        closing(I, rep, R, s, m, cls, reopen, 'open')
        # the time limit of an open connection
        n = s.ntrace
        for s2, v2 in steps(I, rep, s, m, [('set_timeout', [LIMIT], ())]):
            if isinstance(v2, Exc):
                must_not(rep, 'time-limit', s2, [], '%s.set_timeout' % cls, last_loc(s2), 'raises %s' % exc_name(I, s2, v2))
                continue
            pos = ('bool', ('lt', N(0), LIMIT), True)
            for r, x in sockets(s2).items():
                if x[0] and not x[1]:
                    if x[2] != LIMIT:
                        if s2.facts.add_all([pos]) is not None and not negative(s2):
                            must_not(rep, 'time-limit', s2, [], '%s.set_timeout' % cls, last_loc(s2), 'does not change the time limit of the open connection', [x[2]])
                    else:
                        rep.ok('time-limit')
    # the time limit last set is that of every later connection
    S_, O_, C_ = ('set_timeout', [LIMIT], ()), ('open', [], ()), ('close', [], ())
    for seq in ([S_], [O_, S_], [O_, S_, C_], [S_, O_, C_], [O_, C_, S_], [O_, S_, C_, O_, C_], [O_, C_, S_, O_, C_], [S_, S_, O_, C_]):
        for s, v in steps(I, rep, st, m, seq):
            if isinstance(v, Exc) or negative(s):
                continue
            for s2, v2 in steps(I, rep, s, m, [O_]) + execs(I, rep, s, m):
                if negative(s2):
                    continue
                for k, q in sockets(s2).items():
                    if q[0] and not q[1]:
                        if q[2] != LIMIT:
                            must_not(rep, 'time-limit', s2, [], '%s.open' % cls, last_loc(s2), 'a connection opened after %s has not the time limit that was set' % ', '.join(y[0] for y in seq), [q[2]])
                        else:
                            rep.ok('time-limit')
    # zero: every operation returns at once; and numbers
    for seq, want in (([('set_timeout', [N(ZERO)], ())], N(ZERO)), ([O_, ('set_timeout', [N(ZERO)], ())], N(ZERO)),
                      ([('set_timeout', [N(ZERO)], ()), ('set_timeout', [N(Lin(7))], ())], N(Lin(7))),
                      ([O_, ('set_timeout', [N(ZERO)], ()), ('set_timeout', [N(Lin(7))], ())], N(Lin(7))),
                      ([O_, ('set_timeout', [N(Lin(7))], ()), ('set_timeout', [N(ZERO)], ()), C_], N(ZERO))):
        for s, v in steps(I, rep, st, m, seq):
            if isinstance(v, Exc):
                must_not(rep, 'time-limit', s, [], '%s.set_timeout' % cls, last_loc(s), 'raises %s' % exc_name(I, s, v))
                continue
            for s2, v2 in steps(I, rep, s, m, [O_]):
                for k, q in sockets(s2).items():
                    if q[0] and not q[1] and not isinstance(v2, Exc):
                        if q[2] != want:
                            must_not(rep, 'time-limit', s2, [], '%s.open' % cls, last_loc(s2), 'the open connection has not the time limit of %s seconds that was set last' % want, [q[2]])
                        else:
                            rep.ok('time-limit')
    # failing connects
    for s, v in steps(I, rep, st, m, [('open', [], ('io:connect', 'io:setsockopt', 'io:socket'))]):
        failed = since(s, 0, ('connect', 'setsockopt', 'socket'), ('iofail',))
        if not failed:
            continue
        cl = '%s.open' % cls
        if not isinstance(v, Exc):
            must_not(rep, R, s, [], cl, failed[0].loc, 'hides that connecting failed')
            continue
        rep.ok(R)
        reopen(s, cl, 'a failed connect')
        for s2, v2 in steps(I, rep, s, m, [('close', [], ())]):
            if isinstance(v2, Exc):
                must_not(rep, R, s2, [], '%s.close' % cls, last_loc(s2), 'raises %s after a failed connect' % exc_name(I, s2, v2))
            else:
                reopen(s2, cl, 'a failed connect and close')
    for s, v in execs(I, rep, st, m, ('io:connect',)):
        failed = since(s, 0, ('connect',), ('iofail',))
        if failed and isinstance(v, Exc):
            if since(s, 0, SENDS):
                must_not(rep, R, s, [], '%s.execute' % cls, last_loc(s), 'sends although connecting failed')
            reopen(s, '%s.execute' % cls, 'a failed connect')
        elif not failed:
            on_live(s, 0, '%s.execute' % cls, 'opened by execute')
    # never opened
    for s, v in steps(I, rep, st, m, [('close', [], ())]):
        if isinstance(v, Exc):
            must_not(rep, R, s, [], '%s.close' % cls, last_loc(s), 'raises %s on a closed master' % exc_name(I, s, v))
        else:
            reopen(s, '%s.close' % cls, 'close')


def negative(s):
    """the path is one for limits that are not positive"""
    for l in s.facts.log:
        if l[0] == 'bool' and l[1][0] == 'lt' and l[2] is False:
            return True
        if l[0] == 'bool' and l[1][0] == 'truth' and l[2] is False:
            return True
    return False


def closing(I, rep, R, s, m, cls, reopen, what):
    cl = '%s.close' % cls
    for s2, v2 in steps(I, rep, s, m, [('close', [], ())]):
        if isinstance(v2, Exc):
            must_not(rep, R, s2, [], cl, last_loc(s2), 'raises %s after %s' % (exc_name(I, s2, v2), what))
            continue
        l = live(s2)
        if l:
            must_not(rep, R, s2, [], cl, last_loc(s2), 'leaves the connection open after %s' % what)
        else:
            rep.ok(R)
        reopen(s2, cl, '%s and close' % what)
        for s3, v3 in steps(I, rep, s2, m, [('close', [], ())]):
            if isinstance(v3, Exc):
                must_not(rep, R, s3, [], cl, last_loc(s3), 'closing twice raises %s' % exc_name(I, s3, v3))
                continue
            reopen(s3, cl, '%s and two closes' % what)


# ------------------------------------------------------------------ serial
def set_open(s, port, v):
    s = s.fork()
    o = s.get(port.oid)
    at = dict(o.attrs)
    at['is_open'] = v
    s.put(port.oid, o.set(attrs=at))
    return s


def rtu(I, rep):
    R = 'connection'
    mod, cls, _, _ = MASTERS['rtu']
    for opened in (FALSE, TRUE):
        I.cfg = Config()
        st = I.new_state()
        st, port = serial_port(I, st, opened=opened)
        st, m = only(call(I, st, need(I, mod, cls), [port], {}, mod=mod), cls)

        def is_open(s, cl, what):
            if attr(s, port, 'is_open') != TRUE:
                must_not(rep, R, s, [], cl, last_loc(s), '%s leaves the port closed' % what, [attr(s, port, 'is_open')])
                return False
            rep.ok(R)
            return True

        def reopen(s, cl, what):
            n = s.ntrace
            for s2, v in steps(I, rep, s, m, [('open', [], ())]):
                if isinstance(v, Exc):
                    must_not(rep, R, s2, [], cl, last_loc(s2), 'open fails with %s after %s' % (exc_name(I, s2, v), what))
                else:
                    is_open(s2, cl, 'open after %s' % what)
            for s2, v in execs(I, rep, s, m):
                on_open(s2, n, '%s.execute' % cls, what)

        def on_open(s, n, cl, what):
            cur = None
            for i, e in enumerate(s.events()):
                if e.kind == 'io' and e.d['op'] in ('open', 'close'):
                    cur = e.d['op'] == 'open'
                if e.kind == 'setattr' and False:
                    pass
                if i >= n and e.kind in ('io', 'iofail') and e.d['op'] in SENDS:
                    if cur is False or (cur is None and opened == FALSE):
                        must_not(rep, R, At(s, e.facts), [], cl, e.loc, 'writes to a closed port after %s' % what)
                    else:
                        rep.ok(R)

        for s, v in steps(I, rep, st, m, [('open', [], ())]):
            cl = '%s.open' % cls
            if isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'raises %s although the port can be opened' % exc_name(I, s, v))
                continue
            if not is_open(s, cl, 'open'):
                continue
            n = s.ntrace
            for s2, v2 in steps(I, rep, s, m, [('open', [], ())]):
                x = since(s2, n, ('open', 'close'))
                if x or (opened == TRUE and since(s2, 0, ('open', 'close'))):
                    must_not(rep, R, s2, [], cl, last_loc(s2), 'opens an open port once more')
                elif isinstance(v2, Exc):
                    must_not(rep, R, s2, [], cl, last_loc(s2), 'raises %s on an open master' % exc_name(I, s2, v2))
                else:
                    rep.ok(R)
            for what, s1 in (('open', s), ('the port was closed by another', set_open(s, port, FALSE))):
                for k in (1, 2):
                    for s2, v2 in steps(I, rep, s1, m, [('close', [], ())] * k):
                        cl2 = '%s.close' % cls
                        if isinstance(v2, Exc):
                            must_not(rep, R, s2, [], cl2, last_loc(s2), 'raises %s after %s' % (exc_name(I, s2, v2), what))
                            continue
                        if attr(s2, port, 'is_open') != FALSE:
                            must_not(rep, R, s2, [], cl2, last_loc(s2), 'leaves the port open after %s' % what, [attr(s2, port, 'is_open')])
                            continue
                        rep.ok(R)
                        reopen(s2, cl2, '%s and close' % what)
            for s2, v2 in execs(I, rep, s, m):
                on_open(s2, n, '%s.execute' % cls, 'open')
        if opened == TRUE:
            continue
        for s, v in steps(I, rep, st, m, [('open', [], ('io:open',))]):
            failed = since(s, 0, ('open',), ('iofail',))
            if not failed:
                continue
            cl = '%s.open' % cls
            if not isinstance(v, Exc):
                must_not(rep, R, s, [], cl, failed[0].loc, 'hides that opening the port failed')
                continue
            rep.ok(R)
            reopen(s, cl, 'a failed open')
            for s2, v2 in steps(I, rep, s, m, [('close', [], ())]):
                if isinstance(v2, Exc):
                    must_not(rep, R, s2, [], '%s.close' % cls, last_loc(s2), 'raises %s after a failed open' % exc_name(I, s2, v2))
                else:
                    reopen(s2, cl, 'a failed open and close')
        for s, v in steps(I, rep, st, m, [('close', [], ())]):
            if isinstance(v, Exc):
                must_not(rep, R, s, [], '%s.close' % cls, last_loc(s), 'raises %s on a closed master' % exc_name(I, s, v))
            else:
                reopen(s, '%s.close' % cls, 'close')


def c27(I, rep):
    tcp(I, rep, 'tcp')
    tcp(I, rep, 'rot')
    rtu(I, rep)
