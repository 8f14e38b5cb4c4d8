"""C43: logging changes nothing but the log."""
import re
from ..drive import *
from ..drive import only, call, callm, need, exc_name
from .base import *
from .bank import make_server, serial_port
from .master import MASTERS, SENDS, make_master, At
from .lines import Script, put

R = 'logging'
U = 'modbus_tk.utils'
FULL = {'modbus_tk.utils.get_log_buffer': None}


def handlers(I, rep):
    """emit of a handler: formatting, printing and sending may fail, emit does not"""
    for cls, args in (('ConsoleHandler', []), ('LogitHandler', [K(('127.0.0.1', 1975))]), ('DummyHandler', [])):
        cl = '%s.emit' % cls
        try:
            c = need(I, U, cls)
        except Missing as e:
            rep.und(R, str(e))
            continue
        I.cfg = Config()
        st, h = only(call(I, I.new_state(), c, args, {}, mod=U), cls)
        for faults in (('mcall:format',), ('print', 'io')):
            I.cfg = Config(faults=faults)
            for s, v in callm(I, st.fork(), h, 'emit', [T('record', ())]):
                rep.paths += 1
                functions(rep, s)
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], cl, last_loc(s), 'a record that cannot be formatted or written makes the call to the logger fail (%s)' % exc_name(I, s, v))
                else:
                    rep.ok(R)
    I.cfg = Config()


def texts(I, rep):
    """the text of a packet, for any bytes"""
    cl = 'get_log_buffer'
    I.cfg = Config(stubs=FULL)
    g = need(I, U, 'get_log_buffer')
    every = bytes(range(256))
    for b, want in ((Bs((('lit', every),)), '->' + '-'.join(str(i) for i in every)), (Bs((('lit', b'\x07'),)), '->7'), (Bs((('lit', b'\x00\xff'),)), '->0-255'),
                    (Bs(), None), (K(''), None), (Bs((('sl', 'packet', ZERO, sym('len(packet)', 0)),)), None)):
        for s, v in call(I, I.new_state(), g, [K('->'), b], {}, mod=U):
            rep.paths += 1
            functions(rep, s)
            if isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'fails with %s on a packet' % exc_name(I, s, v))
            elif want is not None and isinstance(v, K) and isinstance(v.v, str):
                if v.v != want:
                    must_not(rep, R, s, [], cl, last_loc(s), 'writes %r for the bytes %s' % (v.v[:40], want[2:40]))
                else:
                    rep.ok(R)
            elif want is not None:
                rep.und(R, '%s: text not tracked' % cl)
            else:
                rep.ok(R)
    I.cfg = Config()


# ------------------------------------------------------------------ with and without
def stub_pdu(I, st, args, kw, fr, node):
    outs = []
    for n in (2, 5):
        outs.append((st.fork(), Bs((('sl', 'pdu', ZERO, Lin(n)),))))
    outs.append(I.raise_(st.fork(), 'ValueError'))
    return outs


def norm(x):
    seen = {}
    return re.sub(r'#\d+', lambda m: '#%d' % seen.setdefault(m.group(), len(seen)), x)


def signature(I, s, v, rep):
    """what is observable of a path, without the log"""
    out = []
    for e in flat(s.events()):
        if e.kind in ('io', 'iofail', 'hook', 'handled', 'goes'):
            if e.d.get('op') in ('fileno',):
                continue
            a = e.d.get('snap', e.d.get('args', e.d.get('req')))
            if a is not None and any(anyimp(x) for x in (a if isinstance(a, (tuple, list)) else (a,)) if x is not None):
                return None
            out.append((e.kind, e.d.get('op', e.d.get('name')), str(a)))
    if isinstance(v, Exc):
        out.append(('raises', exc_name(I, s, v)))
    elif v is not None and anyimp(v):
        return None
    else:
        out.append(('returns', str(v)))
    return norm(repr(out))


def same(I, rep, cl, what, runs):
    """runs[False], runs[True]: outcomes without and with verbose"""
    sigs = {}
    for b in (False, True):
        d = {}
        for s, v in runs[b]:
            rep.paths += 1
            functions(rep, s)
            g = signature(I, s, v, rep)
            if g is None:
                rep.und(R, '%s: %s: an effect is not tracked' % (cl, what))
                return
            d.setdefault(g, (s, v))
        sigs[b] = d
    for a, b, text in ((True, False, 'only when verbose'), (False, True, 'only when not verbose')):
        for g in sigs[a]:
            if g in sigs[b]:
                rep.ok(R)
                continue
            s, v = sigs[a][g]
            end = 'ends with %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns %s' % str(v)[:40]
            must_not(rep, R, s, [], cl, last_loc(s), '%s: behaves differently %s: %s' % (what, text, end))


def logged(I, rep, cl, what, outs, wants):
    """with verbose every packet is logged"""
    for s, v in outs:
        n = [e for e in flat(s.events()) if e.kind == 'log']
        if isinstance(v, Exc):
            continue
        for name, want in wants(s):
            if want is None:
                continue
            if any(isinstance(a, T) and a.op == 'packet' and a.args and a.args[0] == want for e in n for a in parts(e)):
                rep.ok(R)
            elif any(anyimp(a) for e in n for a in e.d['args']) or any(not isinstance(a, K) for e in n for a in e.d['args'] if not packet(a)):
                rep.und(R, '%s: %s: log not tracked' % (cl, what))
            else:
                must_not(rep, R, s, [], cl, last_loc(s), '%s: the %s is not logged although verbose is on' % (what, name))


def packet(a):
    return isinstance(a, T) and a.op == 'packet'


def parts(e):
    for a in e.d['args']:
        yield a
        if isinstance(a, T):
            for b in a.args:
                yield b


def stub_text(I, st, args, kw, fr, node):
    b = I.as_bytes(st, I.snap(st, args[1])) if len(args) > 1 else None
    return [(st, T('packet', (b,) if b is not None else (), 'str'))]


def masters(I, rep):
    for kind in ('tcp', 'rot', 'rtu'):
        mod, cls, qcls, qmod = MASTERS[kind]
        cl = '%s.execute' % cls
        parse = {'%s.%s.parse_response' % (qmod, qcls): stub_pdu}
        for unit, fc, more in ((17, 3, [N(Lin(1))]), (17, 1, [N(Lin(9))]), (17, 6, [N(ZERO), N(Lin(77))]), (0, 6, [N(ZERO), N(Lin(77))]), (17, 99, []),
                               (17, 3, [N(Lin(200 if kind == 'rtu' else 120))]), (17, 16, [N(ZERO), Tup(*[N(Lin(i)) for i in range(123)])])):
            total = 8 if not more or more == [N(Lin(1))] or more == [N(Lin(9))] or fc != 3 else 405 if kind == 'rtu' else 245
            runs, log = {}, {}
            for b in (False, True):
                for d, stubs in ((runs, dict(parse, **FULL)), (log, dict(parse, **{'modbus_tk.utils.get_log_buffer': stub_text}))):
                    st, m = make_master(I, kind)
                    I.cfg = Config()
                    st, _ = only(callm(I, st, m, 'set_verbose', [K(b)]), 'set_verbose')
                    sc = Script(0, total=total)
                    I.cfg = Config(peer=sc.peer, ready=sc.ready, events=9, peel=700, logs=True, stubs=stubs)
                    d[b] = callm(I, st, m, 'execute', [N(Lin(unit)), N(Lin(fc)), N(Lin(5))] + more)
            what = 'function %d%s' % (fc, ' as a broadcast' if not unit else '')
            same(I, rep, cl, what, runs)

            def wants(s, unit=unit, total=total):
                ws = [e for e in flat(s.events()) if e.kind == 'goes']
                out = [('request', ws[0].d['data'])] if len(ws) == 1 else []
                if unit and ws:
                    out.append(('response', Bs((('sl', 'answer', ZERO, Lin(total)),)) if kind != 'tcp' else None))
                return out
            logged(I, rep, cl, what, log[True], wants)
    I.cfg = Config()


def stub_handle(I, st, args, kw, fr, node):
    st = st.fork()
    req = args[2] if len(args) > 2 else kw.get('request')
    I.emit(st, 'handled', fr, node, req=I.as_bytes(st, I.snap(st, req)) if req is not None else None)
    outs = []
    for v in (Bs((('sl', 'response', ZERO, Lin(I.cfg.data.get('size', 9))),)), K(''), NONE):
        outs.append((st.fork(), v))
    outs.append(I.raise_(st.fork(), 'ValueError'))
    return outs


def servers(I, rep):
    for size in (12, 3, 300):
        served(I, rep, size)


def served(I, rep, size):
    for kind, mod, cls in (('tcp', 'modbus_tk.modbus_tcp', 'TcpServer'), ('rtu', 'modbus_tk.modbus_rtu', 'RtuServer')):
        cl = '%s._handle' % cls
        handle = {'modbus_tk.modbus.Databank.handle_request': stub_handle}
        runs, log = {}, {}
        req = Bs((('sl', 'request', ZERO, Lin(size)),))
        for b in (False, True):
            for d, stubs in ((runs, dict(handle, **FULL)), (log, dict(handle, **{'modbus_tk.utils.get_log_buffer': stub_text}))):
                I.cfg = Config()
                st, srv = make_server(I, I.new_state(), mod, cls, kind)
                st, _ = only(callm(I, st, srv, 'set_verbose', [K(b)]), 'set_verbose')
                st.trace, st.ntrace = None, 0
                I.cfg = Config(events=9, peel=700, logs=True, stubs=stubs, size=size + 9)
                d[b] = callm(I, st, srv, '_handle', [req])
        same(I, rep, cl, 'a request', runs)

        def wants(s):
            return [('request', req)]
        logged(I, rep, cl, 'a request', log[True], wants)

        def wants2(s):
            return [('response', Bs((('sl', 'response', ZERO, Lin(size + 9)),)))]
        logged(I, rep, cl, 'a request', [(s, v) for s, v in log[True] if isinstance(v, Bs) and v.segs], wants2)
    I.cfg = Config()


def c43(I, rep):
    handlers(I, rep)
    texts(I, rep)
    masters(I, rep)
    servers(I, rep)
