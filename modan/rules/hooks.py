"""C31, C32: the registry of hooks and the hook points."""
import ast
from ..drive import *
from ..drive import only, call, callm, need, has_method, exc_name, top
from .base import *
from .bank import serial_port
from .master import MASTERS, SENDS, At, make_master
from . import servers as S
from .servers import Tcp, Rtu, STUBS, handled, ios, closed

H = 'modbus_tk.hooks'
REAL = {H + '.call_hooks': lambda *a: NotImplemented}
NAMES = ('modbus.Slave.handle_request', 'modbus.Master.after_send', 'a.name.never.used')
FN = [T('hookfn%d' % i, (), 'obj') for i in range(1, 5)]
RESULTS = {'zero': N(0), 'empty': K(''), 'false': FALSE, 'data': Bs((('sl', 'result', ZERO, sym('nresult', 0)),))}


# ------------------------------------------------------------------ C31
class Reg(object):
    def __init__(self, I, rep):
        self.I, self.rep = I, rep
        self.ops = 0

    def op(self, st, fn, args, modes=None):
        I = self.I

        def ufn(I2, s, f, a, kw, fr, node):
            if f not in FN:
                return None
            m = (modes or {}).get(f, 'none')
            s = s.fork()
            if m == 'none':
                return [(s, NONE)]
            if m == 'raise':
                return [I2.raise_(s, 'KeyError')]
            if m == 'raiseT':
                return [I2.raise_(s, 'TypeError')]
            if m == 'leave':
                # takes itself out while it is running
                r = I2.call(s, need(I2, H, 'uninstall_hook'), [K(NAMES[0]), f], {}, top(I2, H), None)
                return [(s2, v if isinstance(v, Exc) else NONE) for s2, v in r]
            if m == 'clear':
                r = I2.call(s, need(I2, H, 'uninstall_hook'), [K(NAMES[0])], {}, top(I2, H), None)
                return [(s2, v if isinstance(v, Exc) else RESULTS['data']) for s2, v in r]
            if m == 'add':
                r = I2.call(s, need(I2, H, 'install_hook'), [K(NAMES[0]), FN[3]], {}, top(I2, H), None)
                return [(s2, v if isinstance(v, Exc) else NONE) for s2, v in r]
            if m == 'nested':
                r = I2.call(s, need(I2, H, 'call_hooks'), [K(NAMES[1]), Tup(K('inner'))], {}, top(I2, H), None)
                return [(s2, v if isinstance(v, Exc) else NONE) for s2, v in r]
            return [(s, RESULTS[m])]
        I.cfg = Config(stubs=REAL, ufn=ufn)
        outs = call(I, st.fork(), need(I, H, fn), list(args), mod=H)
        I.cfg = Config()
        self.ops += 1
        for s, v in outs:
            self.rep.paths += 1
            functions(self.rep, s)
        return outs

    def calls(self, R, st, table, hist):
        """call every name in every mode"""
        rep, I = self.rep, self.I
        for name in NAMES:
            fs = table.get(name, [])
            plans = [{}]
            for i, f in enumerate(fs):
                for m in ('zero', 'empty', 'false', 'data', 'raise', 'raiseT'):
                    plans.append({f: m})
                for g in fs[i + 1:]:
                    plans.append({f: 'data', g: 'raise'})
                    plans.append({f: 'raise', g: 'data'})
            for modes in plans:
                args = Tup(T('subject'), N(sym('arg', 0)))
                n = st.ntrace
                for s, v in self.op(st, 'call_hooks', [K(name), args], modes):
                    self.result(R, s, v, n, name, fs, modes, args, table, hist)

    def result(self, R, s, v, n, name, fs, modes, args, table, hist):
        rep, I = self.rep, self.I
        cl = 'call_hooks'
        want_fs, want = [], NONE
        for f in fs:
            want_fs.append(f)
            m = modes.get(f, 'none')
            if m in RESULTS:
                want = RESULTS[m]
                break
            if m.startswith('raise'):
                want = m
                break
        what = 'after %s' % (', '.join(hist) or 'nothing')
        ucs = [e for e in flat(s.events()[n:]) if e.kind == 'ucall' and e.d['fn'] in FN]
        got = [e.d['fn'] for e in ucs]
        loc = ucs[-1].loc if ucs else last_loc(s)
        if got != want_fs:
            must_not(rep, R, s, [], cl, loc, '%s: a call runs %s instead of %s%s' % (what, names(got), names(want_fs), plan(modes)))
            return
        for e in ucs:
            if tuple(e.d['args']) != (args,) or e.d['kw']:
                must_not(rep, R, s, [], cl, e.loc, '%s: the function is not called with the arguments of the hook point' % what, list(e.d['args']))
                return
        if isinstance(want, str):
            x = 'KeyError' if want == 'raise' else 'TypeError'
            if not isinstance(v, Exc):
                must_not(rep, R, s, [], cl, loc, '%s: a hook that fails is silently skipped' % what, [v])
            elif exc_name(I, s, v) != x:
                must_not(rep, R, s, [], cl, loc, '%s: the failure of a hook becomes %s' % (what, exc_name(I, s, v)))
            else:
                rep.ok(R)
        elif isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), '%s: a call raises %s' % (what, exc_name(I, s, v)))
        elif v != want:
            must_not(rep, R, s, [], cl, loc, '%s: the result is not the first value other than None%s' % (what, plan(modes)), [v])
        else:
            rep.ok(R)
        if s.locks:
            must_not(rep, R, s, [], cl, last_loc(s), '%s: leaves a lock held' % what)


def names(fs):
    return '[%s]' % ', '.join(f.op for f in fs)


def plan(modes):
    return ' (%s)' % ', '.join('%s: %s' % (f.op, m) for f, m in modes.items()) if modes else ''


def c31(I, rep):
    R = 'registry'
    X = Reg(I, rep)
    I.cfg = Config()
    st = I.new_state()
    for i, f in enumerate(FN):
        for g in FN[:i]:
            # these are different functions
            p, q = (f, g) if repr(f) <= repr(g) else (g, f)
            st.facts = st.facts.add_literal(('bool', ('eq', p, q), False))
    depth = 4 if rep.tier == 'thorough' else 3

    def walk(st, table, hist, d):
        X.calls(R, st, table, hist)
        if not d or rep.findings:
            return
        steps = []
        for name in NAMES[:2]:
            fs = table.get(name, [])
            free = [f for f in FN[:3] if f not in fs]
            # functions are alike: the first free one, and one used elsewhere
            for f in free[:1] + [f for f in free[1:] if any(f in table.get(x, []) for x in NAMES)][:1]:
                steps.append(('install_hook', name, f))
            for f in fs:
                steps.append(('uninstall_hook', name, f))
            steps.append(('uninstall_hook', name, None))
        for fn, name, f in steps:
            h = hist + ['%s(%s%s)' % (fn, 'ab'[NAMES.index(name)], ', %s' % f.op if f else '')]
            t = dict((k, list(x)) for k, x in table.items())
            if fn == 'install_hook':
                t.setdefault(name, []).append(f)
            elif f is None:
                t[name] = []
            else:
                t[name].remove(f)
            for s, v in X.op(st, fn, [K(name)] + ([f] if f else [])):
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], fn, last_loc(s), 'raises %s after %s' % (exc_name(I, s, v), ', '.join(h)))
                elif s.locks:
                    must_not(rep, R, s, [], fn, last_loc(s), 'leaves a lock held')
                else:
                    walk(s, t, h, d - 1)
    walk(st, {}, [], depth)
    # a function installed twice
    s0 = st
    for f in (FN[0], FN[1], FN[0]):
        s0, _ = only(X.op(s0, 'install_hook', [K(NAMES[0]), f]), 'install_hook')
    X.calls(R, s0, {NAMES[0]: [FN[0], FN[1], FN[0]]}, ['installing one function twice'])
    for s, v in X.op(s0, 'uninstall_hook', [K(NAMES[0])]):
        if not isinstance(v, Exc):
            X.calls(R, s, {}, ['uninstalling all'])
    # from inside hooks
    s0 = st
    for f in FN[:3]:
        s0, _ = only(X.op(s0, 'install_hook', [K(NAMES[0]), f]), 'install_hook')
    s1, _ = only(X.op(s0, 'install_hook', [K(NAMES[1]), FN[3]]), 'install_hook')
    args = Tup(T('subject'))
    for i, f in enumerate(FN[:3]):
        for m in ('leave', 'add', 'nested', 'clear'):
            n = s1.ntrace
            for s, v in X.op(s1, 'call_hooks', [K(NAMES[0]), args], {f: m}):
                got = [e.d['fn'] for e in flat(s.events()[n:]) if e.kind == 'ucall' and e.d['fn'] in FN[:3]]
                want = FN[:3] if m != 'clear' else FN[:i + 1]
                cl = 'call_hooks'
                what = {'leave': 'a hook that uninstalls itself', 'add': 'a hook that installs another one', 'nested': 'a hook that fires another hook point',
                        'clear': 'a hook that uninstalls all'}[m]
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], cl, last_loc(s), '%s: the call raises %s' % (what, exc_name(I, s, v)))
                    continue
                if got != want:
                    must_not(rep, R, s, [], cl, last_loc(s), '%s: the call runs %s instead of %s' % (what, names(got), names(want)))
                    continue
                if v != (NONE if m != 'clear' else RESULTS['data']):
                    must_not(rep, R, s, [], cl, last_loc(s), '%s: the result of the call is wrong' % what, [v])
                    continue
                rep.ok(R)
                n2 = s.ntrace
                for s2, v2 in X.op(s, 'call_hooks', [K(NAMES[0]), args]):
                    got = [e.d['fn'] for e in flat(s2.events()[n2:]) if e.kind == 'ucall' and e.d['fn'] in FN]
                    want = {'leave': [g for g in FN[:3] if g != f], 'add': FN[:4], 'nested': FN[:3], 'clear': []}[m]
                    if isinstance(v2, Exc) or got != want:
                        must_not(rep, R, s2, [], cl, last_loc(s2), '%s: the next call runs %s instead of %s' % (what, names(got), names(want)))
                    else:
                        rep.ok(R)


# ------------------------------------------------------------------ C32
DOC = {
    'modbus_rtu.RtuMaster.before_open': 1, 'modbus_rtu.RtuMaster.after_close': 1, 'modbus_rtu.RtuMaster.before_send': 2,
    'modbus_rtu.RtuMaster.after_recv': 2,
    'modbus_rtu.RtuServer.before_close': 1, 'modbus_rtu.RtuServer.after_close': 1, 'modbus_rtu.RtuServer.before_open': 1,
    'modbus_rtu.RtuServer.after_open': 1, 'modbus_rtu.RtuServer.after_read': 2, 'modbus_rtu.RtuServer.before_write': 2,
    'modbus_rtu.RtuServer.after_write': 2, 'modbus_rtu.RtuServer.on_error': 2,
    'modbus_tcp.TcpMaster.before_connect': 1, 'modbus_tcp.TcpMaster.after_connect': 1, 'modbus_tcp.TcpMaster.before_close': 1,
    'modbus_tcp.TcpMaster.after_close': 1, 'modbus_tcp.TcpMaster.before_send': 2, 'modbus_tcp.TcpServer.after_send': 3,
    'modbus_tcp.TcpMaster.after_recv': 2,
    'modbus_tcp.TcpServer.on_connect': 3, 'modbus_tcp.TcpServer.on_disconnect': 2, 'modbus_tcp.TcpServer.after_recv': 3,
    'modbus_tcp.TcpServer.before_send': 3, 'modbus_tcp.TcpServer.on_error': 3,
    'modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv': 2,
    'modbus.Master.before_send': 2, 'modbus.Master.after_send': 1, 'modbus.Master.after_recv': 2,
    'modbus.Slave.handle_request': 2, 'modbus.Slave.on_handle_broadcast': 2, 'modbus.Slave.on_exception': 3,
    'modbus.Databank.on_error': 3, 'modbus.ModbusBlock.setitem': 3,
    'modbus.Server.before_handle_request': 2, 'modbus.Server.after_handle_request': 2, 'modbus.Server.on_exception': 2,
}
HANDLERS = {15: 'write_multiple_coils', 16: 'write_multiple_registers', 6: 'write_single_register', 5: 'write_single_coil',
            4: 'read_input_registers', 3: 'read_holding_registers', 2: 'read_discrete_inputs', 1: 'read_coils',
            22: 'mask_write_register', 23: 'read_write_multiple_registers', 7: 'read_exception_status'}
for _n in HANDLERS.values():
    DOC['modbus.Slave.handle_%s_request' % _n] = 2
R32, V32 = 'fired', 'replaced'


def fires(s, n, name):
    return [e for e in flat(s.events()[n:]) if e.kind == 'hook' and e.d['name'] == name]


def argl(e):
    a = e.d.get('snap')
    if isinstance(a, Sq):
        return a.items()
    return None


class Points(object):
    def __init__(self, I, rep):
        self.I, self.rep = I, rep
        self.seen = set()

    def known(self, s, n):
        """only documented hook points are fired"""
        for e in flat(s.events()[n:]):
            if e.kind == 'hook' and e.d['name'] not in DOC and e.d['name'] != '?':
                must_not(self.rep, R32, At(s, e.facts), [], e.fn, e.loc, 'fires %s, which is no documented hook point' % e.d['name'])

    def once(self, s, n, name, want, cl, count=1, before=None, after=None):
        """fired count times with these arguments (None: any); the event, or None"""
        rep = self.rep
        self.seen.add(name)
        es = fires(s, n, name)
        if len(es) != count:
            if [e for e in flat(s.events()[n:]) if e.kind == 'hook' and e.d['name'] == '?']:
                rep.und(R32, '%s: a hook point whose name is not known' % cl)
                return None
            must_not(rep, R32, s, [], cl, last_loc(s) if not es else es[-1].loc,
                     '%s is %s' % (name, 'not fired' if not es else 'fired %d times' % len(es)))
            return None
        for e in es:
            a = argl(e)
            if a is None:
                rep.und(R32, '%s: arguments not tracked' % name)
                continue
            if len(a) != DOC[name]:
                must_not(rep, R32, At(s, e.facts), [], cl, e.loc, '%s is fired with %d arguments, documented are %d' % (name, len(a), DOC[name]))
                return None
            for i, w in enumerate(want):
                if w is None:
                    continue
                if callable(w):
                    ok = w(a[i])
                else:
                    ok = a[i] == w
                if not ok:
                    if isinstance(w, Bs) and isinstance(a[i], Bs):
                        same_bytes(rep, R32, At(s, e.facts), a[i], w, cl, e.loc, 'argument %d of %s is not the documented one' % (i, name))
                    else:
                        must_not(rep, R32, At(s, e.facts), [], cl, e.loc, 'argument %d of %s is not the documented one' % (i, name),
                                 [a[i]] if isinstance(a[i], T) and a[i].imp else [])
                    return None
        rep.ok(R32)
        evs = list(flat(s.events()))
        if es and (before or after):
            i = evs.index(es[0])
            if before and [x for x in evs[:i] if x.kind == 'io' and x.d['op'] in before]:
                must_not(rep, R32, s, [], cl, es[0].loc, '%s is fired after it' % name)
            elif after and not [x for x in evs[:i] if x.kind == 'io' and x.d['op'] in after]:
                must_not(rep, R32, s, [], cl, es[0].loc, '%s is fired before it' % name)
            else:
                rep.ok(R32)
        return es[0] if es else None

    def used(self, s, got, want, name, cl, loc, what):
        rep = self.rep
        if got == want:
            rep.ok(V32)
        elif got is None or isinstance(got, Ref) or (isinstance(got, T) and got.imp):
            rep.und(V32, '%s: %s not tracked' % (cl, what))
        elif isinstance(got, Bs) and isinstance(want, Bs):
            same_bytes(rep, V32, s, got, want, cl, loc, 'the value returned by %s does not replace the %s' % (name, what) if name else
                       'the %s are not passed on' % what)
        else:
            must_not(rep, V32, s, [], cl, loc, 'the value returned by %s does not replace the %s' % (name, what) if name else 'the %s are not passed on' % what)


def hookbytes(name):
    return Bs((('sl', 'hook(%s)' % name, ZERO, sym('len(hook(%s))' % name, 0, None)),))


def stub_parse(I, st, args, kw, fr, node):
    st = st.fork()
    a = args[1] if len(args) > 1 else kw.get('response')
    I.emit(st, 'parsed', fr, node, data=I.snap(st, a))
    return [I.raise_(st, 'ValueError')]


def masters(I, rep, P):
    for kind in ('tcp', 'rtu', 'rot'):
        mod, cls, qcls, qmod = MASTERS[kind]
        st, m = make_master(I, kind)
        tp = {'tcp': 'modbus_tcp.TcpMaster', 'rot': 'modbus_tcp.TcpMaster', 'rtu': 'modbus_rtu.RtuMaster'}[kind]
        rp = {'tcp': 'modbus_tcp.TcpMaster', 'rot': 'modbus_rtu_over_tcp.RtuOverTcpMaster', 'rtu': 'modbus_rtu.RtuMaster'}[kind]
        I.cfg = Config()
        opened = []
        for s, v in callm(I, st.fork(), m, 'open'):
            if isinstance(v, Exc):
                continue
            cl = '%s.open' % cls
            P.known(s, 0)
            if kind == 'rtu':
                P.once(s, 0, tp + '.before_open', [m], cl, before=('open',))
            else:
                P.once(s, 0, tp + '.before_connect', [m], cl, before=('connect',))
                P.once(s, 0, tp + '.after_connect', [m], cl, after=('connect',))
            opened.append(s)
        if not opened:
            raise Missing('%s.open' % cls)
        st = opened[0]
        n = st.ntrace
        for s, v in callm(I, st.fork(), m, 'close'):
            if isinstance(v, Exc):
                continue
            cl = '%s.close' % cls
            P.known(s, n)
            if kind != 'rtu':
                P.once(s, n, tp + '.before_close', [m], cl, before=('close',))
            P.once(s, n, tp + '.after_close', [m], cl, after=('close',))
        # one request
        stubs = {'%s.%s.parse_response' % (qmod, qcls): stub_parse}
        b1, b2, a1, a2 = 'modbus.Master.before_send', tp + '.before_send', rp + '.after_recv', 'modbus.Master.after_recv'
        for rets in ((), (b1,), (b2,), (b1, b2), (a1,), (a2,), (a1, a2), (b1, b2, a1, a2)):
            I.cfg = Config(hooks=dict((x, ('ret',)) for x in rets), stubs=stubs)
            for verbose in (False, True):
                s0 = st
                if verbose:
                    outs = callm(I, st.fork(), m, 'set_verbose', [TRUE])
                    s0, _ = only(outs, 'set_verbose')
                for s, v in callm(I, s0.fork(), m, 'execute', [N(sym('hookunit', 1, 247)), N(3), N(sym('hookaddr', 0, 0xffff)), N(1)]):
                    rep.paths += 1
                    functions(rep, s)
                    cl = '%s.execute' % cls
                    n0 = s0.ntrace
                    P.known(s, n0)
                    evs = list(flat(s.events()[n0:]))
                    snd = [e for e in evs if e.kind == 'io' and e.d['op'] in SENDS]
                    prs = [e for e in evs if e.kind == 'parsed']
                    e1 = P.once(s, n0, b1, [m], cl, before=SENDS)
                    if e1 is None:
                        continue
                    req = hookbytes(b1) if b1 in rets else argl(e1)[1]
                    e2 = P.once(s, n0, b2, [m], cl, before=SENDS)
                    if e2 is not None:
                        P.used(At(s, e2.facts), argl(e2)[1], req, b1 if b1 in rets else '', cl, e2.loc, 'request')
                        req = hookbytes(b2) if b2 in rets else argl(e2)[1]
                    if snd and e2 is not None:
                        P.used(At(s, snd[0].facts), snd[0].d['args'][0], req, b2 if b2 in rets else b1 if b1 in rets else '', cl, snd[0].loc, 'request')
                    if not prs:
                        if not isinstance(v, Exc):
                            must_not(rep, V32, s, [], cl, last_loc(s), 'the response is not parsed')
                        continue
                    P.once(s, n0, 'modbus.Master.after_send', [m], cl, after=SENDS)
                    e3 = P.once(s, n0, a1, [m], cl, after=SENDS)
                    e4 = P.once(s, n0, a2, [m], cl, after=SENDS)
                    if e3 is None or e4 is None:
                        continue
                    rsp = hookbytes(a1) if a1 in rets else argl(e3)[1]
                    P.used(At(s, e4.facts), argl(e4)[1], rsp, a1 if a1 in rets else '', cl, e4.loc, 'response')
                    rsp = hookbytes(a2) if a2 in rets else argl(e4)[1]
                    P.used(At(s, prs[0].facts), prs[0].d['data'], rsp, a2 if a2 in rets else a1 if a1 in rets else '', cl, prs[0].loc, 'response')


def slaves(I, rep, P):
    E = SlaveEnv(I)
    for fc in sorted(HANDLERS) + [0, 43, 100, 129]:
        for broadcast in (False, True) if fc in (3, 5, 6, 16) else (False,):
            pdu = pdu_fc(fc)
            I.cfg = Config()
            for s, v in callm(I, E.st.fork(), E.slave, 'handle_request', [pdu] + ([TRUE] if broadcast else [])):
                rep.paths += 1
                functions(rep, s)
                cl = 'Slave.handle_request'
                P.known(s, 0)
                if P.once(s, 0, 'modbus.Slave.handle_request', [E.slave, pdu], cl) is None:
                    continue
                hs = [e for e in flat(s.events()) if e.kind == 'hook' and e.d['name'].startswith('modbus.Slave.handle_') and
                      e.d['name'] != 'modbus.Slave.handle_request']
                refused = broadcast and fc in (1, 2, 3, 4)
                if fc in HANDLERS and not refused:
                    w = 'modbus.Slave.handle_%s_request' % HANDLERS[fc]
                    other = [e for e in hs if e.d['name'] != w]
                    if other:
                        must_not(rep, R32, At(s, other[0].facts), [], cl, other[0].loc, 'function %d fires %s' % (fc, other[0].d['name']))
                        continue
                    P.once(s, 0, w, [E.slave, pdu], cl)
                elif hs and not refused:
                    must_not(rep, R32, At(s, hs[0].facts), [], cl, hs[0].loc, 'function %d fires %s' % (fc, hs[0].d['name']))
                if isinstance(v, Exc):
                    continue
                b = I.as_bytes(s, v)
                first = b.segs[0] if b is not None and b.segs else None
                code = None
                if first is not None and first[0] == 'lit':
                    code = first[1][0]
                elif b is not None and b.length().is_const and b.length().c == 2:
                    code = fc | 0x80
                isx = code is not None and code == fc | 0x80
                if isx and fc < 128:
                    P.once(s, 0, 'modbus.Slave.on_exception', [E.slave, N(fc), lambda x: isinstance(x, Ref)], cl)
                if broadcast and (v == K('') or b is not None and not b.segs):
                    P.once(s, 0, 'modbus.Slave.on_handle_broadcast', [E.slave, lambda x: not isinstance(x, K)], cl)
                cells(P, rep, s, cl)
    # the application answers
    h = 'modbus.Slave.handle_request'
    for fc in (3, 6, 100):
        I.cfg = Config(hooks={h: ('ret',)})
        for s, v in callm(I, E.st.fork(), E.slave, 'handle_request', [pdu_fc(fc)]):
            rep.paths += 1
            P.once(s, 0, h, [E.slave, pdu_fc(fc)], 'Slave.handle_request')
            P.used(s, v, hookbytes(h), h, 'Slave.handle_request', last_loc(s), 'response')
    I.cfg = Config()
    # values set by the application
    st = E.st.fork()
    name = T('blockname', (), 'str')
    for s, v in callm(I, E.empty.fork(), E.slave, 'add_block', [name, N(3), N(0), N(10)]):
        if isinstance(v, Exc):
            continue
        n = s.ntrace
        for vals in (N(sym('value', 0, 65535)), Sq((('item', N(1)), ('item', N(2))), 'list')):
            for s2, v2 in callm(I, s.fork(), E.slave, 'set_values', [name, N(2), vals]):
                rep.paths += 1
                if not isinstance(v2, Exc):
                    P.known(s2, n)
                    cells(P, rep, s2, 'Slave.set_values')


def cells(P, rep, s, cl):
    """every write of cells is announced"""
    P.seen.add('modbus.ModbusBlock.setitem')
    pending = []
    for e in flat(s.events()):
        if e.kind == 'hook' and e.d['name'] == 'modbus.ModbusBlock.setitem':
            a = argl(e)
            if a is not None and len(a) != 3:
                must_not(rep, R32, At(s, e.facts), [], cl, e.loc, 'modbus.ModbusBlock.setitem is fired with %d arguments' % len(a))
                return
            pending.append(e)
        elif e.kind == 'wr':
            if not pending:
                must_not(rep, R32, At(s, e.facts), [], cl, e.loc, 'cells are written without firing modbus.ModbusBlock.setitem')
                return
            pending.pop()
            rep.ok(R32)


def databank(I, rep, P):
    I.cfg = Config()
    st, bank = only(call(I, I.new_state(), need(I, 'modbus_tk.modbus', 'Databank'), []), 'Databank()')
    st, _ = only(callm(I, st, bank, 'add_slave', [N(5)]), 'add_slave')
    pdu = b'\x03\0\0\0\1'
    st, q = only(call(I, st, need(I, 'modbus_tk.modbus_tcp', 'TcpQuery'), [], mod='modbus_tk.modbus_tcp'), 'TcpQuery')

    def fail(I2, s, args, kw, fr, node):
        s = s.fork()
        return [I2.raise_(s, 'KeyError')]
    I.cfg = Config(stubs={'modbus_tk.modbus.Slave.handle_request': fail})
    n = st.ntrace
    for s, v in callm(I, st.fork(), bank, 'handle_request', [q, Bs((('lit', b'\0\1\0\0\0\6\5' + pdu),))]):
        rep.paths += 1
        functions(rep, s)
        P.known(s, n)
        P.once(s, n, 'modbus.Databank.on_error', [bank, lambda x: isinstance(x, Ref), lambda x: x == Bs((('lit', pdu),)) or x == K(pdu)], 'Databank.handle_request')
    I.cfg = Config()


def tcp_server(I, rep, P):
    X = Tcp(I, rep)
    srv, (c, c2) = X.srv, X.clients
    cl = 'TcpServer._do_run'
    T_ = 'modbus_tcp.TcpServer.'
    n = X.n
    sto = {None: (ZERO, 1, 'stall')}
    for s, v in X.run(X.st, (X.listener,), sto):
        if isinstance(v, Exc):
            continue
        P.known(s, n)
        a = ios(s, n, ('accept',))
        if a:
            P.once(s, n, T_ + 'on_connect', [srv, a[0].d['ret'], None], cl, after=('accept',))
    for s, v in X.run(X.st, (c,), {None: (ZERO, 1, 'eof')}):
        P.known(s, n)
        P.once(s, n, T_ + 'on_disconnect', [srv, c], cl)
    for s, v in X.run(X.st, (c,), {None: (Lin(3), 1, 'stall')}):
        P.known(s, n)
        P.once(s, n, T_ + 'on_error', [srv, c, lambda x: isinstance(x, Ref)], cl)
    # one request
    st, _, tot = S.lengths(X, c, (6,))
    full = {None: (Lin(tot), None, 'stall')}
    head = Bs((('lit', b'\0\1\0\0\0\2\5\7'),))
    ar, bh, ah, bs, as_ = T_ + 'after_recv', 'modbus.Server.before_handle_request', 'modbus.Server.after_handle_request', T_ + 'before_send', T_ + 'after_send'
    own = Bs((('sl', 'in(%r)' % c, ZERO, Lin(12)),))
    ans = Bs((('sl', 'answer0', ZERO, Lin(S.NANS)),))

    def hv(I2, s, name):
        return head if name == ar else hookbytes(name)
    for rets in ((), (ar,), (bh,), (ah,), (bs,), (ar, bh, ah, bs)):
        I.cfg = Config(ready=(c,), link=full, events=9, peel=700, hooks=dict((x, ('ret',)) for x in rets), hookval=hv, stubs=STUBS)
        outs = callm(I, st.fork(), srv, '_do_run')
        I.cfg = Config()
        for s, v in outs:
            rep.paths += 1
            functions(rep, s)
            P.known(s, n)
            P.once(s, n, ar, [srv, c, None], cl)
            req = head if ar in rets else own
            hs = handled(s, n)
            e = P.once(s, n, bh, [srv, req], 'Server._handle')
            if e is not None and ar in rets:
                P.used(At(s, e.facts), argl(e)[1], head, ar, cl, e.loc, 'request')
            if bh in rets:
                req = hookbytes(bh)
            if len(hs) != 1:
                must_not(rep, V32, s, [], cl, last_loc(s), 'the request is handled %d times' % len(hs))
                continue
            P.used(At(s, hs[0].facts), hs[0].d['req'], req, bh if bh in rets else ar if ar in rets else '', cl, hs[0].loc, 'request')
            P.once(s, n, ah, [srv, ans], 'Server._handle')
            rsp = hookbytes(ah) if ah in rets else ans
            snd = ios(s, n, SENDS)
            if ah in rets and not snd:
                # an empty one is not sent
                continue
            e = P.once(s, n, bs, [srv, c, rsp], cl, before=SENDS)
            if bs in rets:
                rsp = hookbytes(bs)
            if snd:
                P.used(At(s, snd[0].facts), snd[0].d['args'][0], rsp, bs if bs in rets else ah if ah in rets else '', cl, snd[0].loc, 'response')
                P.once(s, n, as_, [srv, c, rsp], cl, after=SENDS)
            else:
                must_not(rep, V32, s, [], cl, last_loc(s), 'the response is not sent')
    # a request without an answer
    for rets in ((), (ah,)):
        I.cfg = Config(ready=(c,), link=full, events=9, peel=700, hooks=dict((x, ('ret',)) for x in rets), hookval=hv, stubs=STUBS, answers=('empty',))
        outs = callm(I, st.fork(), srv, '_do_run')
        I.cfg = Config()
        for s, v in outs:
            functions(rep, s)
            if len(handled(s, n)) == 1:
                no_answer(P, s, n, srv, ah, rets, None)
                snd = ios(s, n, SENDS)
                if rets and snd:
                    P.used(At(s, snd[0].facts), snd[0].d['args'][0], hookbytes(ah), ah, cl, snd[0].loc, 'response')
    # a server that fails
    st, srv, _ = S.life(I, 'tcp')
    q = S.method_qual(I, st, srv, '_do_run')
    for s, v, t in S.start(I, rep, st, srv):
        if t is None:
            continue
        n = s.ntrace
        for s2, v2 in S.run_thread(I, rep, s, t, 3, stubs={q: S.stub_run(('exc',))}):
            P.known(s2, n)
            P.once(s2, n, 'modbus.Server.on_exception', [srv, lambda x: isinstance(x, Ref)], 'Server._run_server')


def rtu_server(I, rep, P):
    R_ = 'modbus_rtu.RtuServer.'
    st, srv, port = S.life(I, 'rtu')
    I.cfg = Config()
    n = st.ntrace
    for s, v in callm(I, st.fork(), srv, '_do_init'):
        P.known(s, n)
        P.once(s, n, R_ + 'before_open', [srv], 'RtuServer._do_init', before=('open',))
        P.once(s, n, R_ + 'after_open', [srv], 'RtuServer._do_init', after=('open',))
        n2 = s.ntrace
        for s2, v2 in callm(I, s.fork(), srv, 'close'):
            P.known(s2, n2)
            P.once(s2, n2, R_ + 'before_close', [srv], 'RtuServer.close', before=('close',))
            P.once(s2, n2, R_ + 'after_close', [srv], 'RtuServer.close', after=('close',))
    X = Rtu(I, rep, False)
    srv, n = X.srv, X.n
    cl = 'RtuServer._do_run'
    full = {None: (Lin(8), None, 'eof')}
    own = Bs((('sl', 'in(%r)' % X.port, ZERO, Lin(8)),))
    ans = Bs((('sl', 'answer0', ZERO, Lin(S.NANS)),))
    ar, bh, ah, bw, aw = R_ + 'after_read', 'modbus.Server.before_handle_request', 'modbus.Server.after_handle_request', R_ + 'before_write', R_ + 'after_write'
    for rets in ((), (ar,), (bh,), (ah,), (bw,), (ar, bh, ah, bw)):
        for s, v in X.run(X.st, (), full, hooks=dict((x, ('ret',)) for x in rets)):
            P.known(s, n)
            req = own
            hs = handled(s, n)
            if P.once(s, n, ar, [srv, own], cl) is None:
                continue
            req = hookbytes(ar) if ar in rets else own
            e = P.once(s, n, bh, [srv], 'Server._handle')
            if e is None:
                continue
            P.used(At(s, e.facts), argl(e)[1], req, ar if ar in rets else '', cl, e.loc, 'request')
            req = hookbytes(bh) if bh in rets else req
            if len(hs) != 1:
                must_not(rep, V32, s, [], cl, last_loc(s), 'the request is handled %d times' % len(hs))
                continue
            P.used(At(s, hs[0].facts), hs[0].d['req'], req, bh if bh in rets else ar if ar in rets else '', cl, hs[0].loc, 'request')
            P.once(s, n, ah, [srv, ans], 'Server._handle')
            rsp = hookbytes(ah) if ah in rets else ans
            e = P.once(s, n, bw, [srv], cl, before=('write',))
            if e is None:
                continue
            P.used(At(s, e.facts), argl(e)[1], rsp, ah if ah in rets else '', cl, e.loc, 'response')
            rsp = hookbytes(bw) if bw in rets else rsp
            for w in ios(s, n, ('write',)):
                P.used(At(s, w.facts), w.d['args'][0], rsp, bw if bw in rets else ah if ah in rets else '', cl, w.loc, 'response')
            e = P.once(s, n, aw, [srv], cl)
            if e is not None:
                P.used(At(s, e.facts), argl(e)[1], rsp, bw if bw in rets else ah if ah in rets else '', cl, e.loc, 'response')
    for rets in ((), (ah,), (bw,)):
        for s, v in X.run(X.st, (), full, hooks=dict((x, ('ret',)) for x in rets), answers=('empty',)):
            if len(handled(s, n)) == 1:
                no_answer(P, s, n, srv, ah, rets, bw)
                P.once(s, n, aw, [srv], cl)
                for w in ios(s, n, ('write',)):
                    P.used(At(s, w.facts), w.d['args'][0], hookbytes(rets[0]) if rets else None, rets[0] if rets else '', cl, w.loc, 'response')
    for s, v in X.run(X.st, (), full, answers=('raise',)):
        P.known(s, n)
        P.once(s, n, R_ + 'on_error', [srv, lambda x: isinstance(x, Ref)], cl)


def no_answer(P, s, n, srv, ah, rets, bw):
    """the points after the handling are fired for a request without an answer as well"""
    rep = P.rep
    e = P.once(s, n, ah, [srv, empty], 'Server._handle')
    if e is None or bw is None:
        return
    e = P.once(s, n, bw, [srv], 'RtuServer._do_run', before=('write',))
    if e is not None and ah in rets:
        P.used(At(s, e.facts), argl(e)[1], hookbytes(ah), ah, 'RtuServer._do_run', e.loc, 'response')


def empty(x):
    return x in (K(''), K(b''), Bs(), NONE)


def literals(I, rep):
    """every constant name in the source is a documented one"""
    for name, tree in sorted(I.trees.items()):
        for c in ast.walk(tree):
            if not isinstance(c, ast.Call) or not isinstance(c.func, (ast.Name, ast.Attribute)) or not c.args:
                continue
            f = c.func.id if isinstance(c.func, ast.Name) else c.func.attr
            a = c.args[0]
            if f == 'call_hooks' and isinstance(a, ast.Constant) and isinstance(a.value, str):
                if a.value not in DOC:
                    rep.bad(R32, name, '%s:%d' % (name, c.lineno), 'fires %s, which is no documented hook point' % a.value)
                else:
                    rep.ok(R32)


def c32(I, rep):
    P = Points(I, rep)
    for f in (masters, slaves, databank, tcp_server, rtu_server):
        try:
            f(I, rep, P)
        except Missing as e:
            rep.und(R32, '%s: %s' % (f.__name__, e))
    for name in sorted(set(DOC) - P.seen):
        rep.und(R32, '%s was not reached' % name)
