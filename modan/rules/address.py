"""C26, C27: where servers listen and masters connect, and what a dropped master leaves."""
from ..drive import *
from ..drive import only, call, callm, need, exc_name
from .base import *
from .bank import serial_port
from .link import attr, live
from .master import MASTERS, At
from .servers import ios
from .simulator import same

TCP = 'modbus_tk.modbus_tcp'


def normal(rep, R, I, outs, cl, what):
    fine = []
    for s, v in outs:
        rep.paths += 1
        functions(rep, s)
        if isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), '%s: fails with %s' % (what, exc_name(I, s, v)))
        else:
            fine.append((s, v))
    return fine


def settings(host, port):
    out = [({}, 'made without settings'), ({'port': port}, 'made with a port'), ({host: T('host', (), 'str')}, 'made with an address'),
           ({'port': port, host: T('host', (), 'str')}, 'made with address and port')]
    return out


def c26_listen(I, rep):
    R = 'listens'
    cl = 'TcpServer._do_init'
    for kw, what in settings('address', N(sym('tcpport', 1, 65535))):
        for limit in (None, N(ZERO), N(Lin(3))):
            k2 = dict(kw)
            if limit is not None:
                k2['timeout_in_sec'] = limit
            I.cfg = Config()
            for st, srv in normal(rep, R, I, call(I, I.new_state(), need(I, TCP, 'TcpServer'), [], k2, mod=TCP), 'TcpServer.__init__', what):
                want = mkseq([kw.get('address', K('')), kw.get('port', N(Lin(502)))])
                I.cfg = Config(events=9)
                n = st.ntrace
                for s, v in normal(rep, R, I, callm(I, st.fork(), srv, '_do_init'), cl, what):
                    es = ios(s, n, ('bind', 'listen', 'setsockopt'))
                    b = [i for i, e in enumerate(es) if e.d['op'] == 'bind']
                    l = [i for i, e in enumerate(es) if e.d['op'] == 'listen']
                    if len(b) != 1 or not l or l[0] < b[0]:
                        must_not(rep, R, s, [], cl, last_loc(s), '%s: does not bind and then listen' % what)
                        continue
                    e = es[b[0]]
                    # both mean every interface
                    got = e.d['args'][0]
                    if isinstance(got, Sq) and got.items() and got.items()[0] == K('0.0.0.0'):
                        got = mkseq([K('')] + got.items()[1:])
                    same(rep, R, At(s, e.facts), got, want, cl, e.loc, '%s: listens on another address' % what)
                    o = [x for x in es[:b[0]] if x.d['op'] == 'setsockopt' and x.d['recv'] == e.d['recv'] and x.d['args'] and len(x.d['args']) == 3
                         and 'SO_REUSEADDR' in str(x.d['args'][1])]
                    on = [x for x in o if isinstance(x.d['args'][2], (N, K)) and str(x.d['args'][2]) not in ('0', '<0>', 'False')]
                    if on:
                        rep.ok(R)
                    elif any(anyimp(y) for x in es for y in x.d['args'] if isinstance(y, V)):
                        rep.und(R, '%s: options not tracked' % cl)
                    else:
                        must_not(rep, R, s, [], cl, e.loc, 'the address cannot be used again at once after a restart: SO_REUSEADDR is not set before bind')
    I.cfg = Config()


def c27_connect(I, rep):
    R = 'address'
    port = N(sym('tcpport', 1, 65535))
    for kind in ('tcp', 'rot'):
        mod, cls, _, _ = MASTERS[kind]
        cl = '%s.open' % cls
        for kw, what in settings('host', port):
            I.cfg = Config()
            for st, m in normal(rep, R, I, call(I, I.new_state(), need(I, mod, cls), [], kw, mod=mod), cls + '.__init__', what):
                want = mkseq([kw.get('host', K('127.0.0.1')), kw.get('port', N(Lin(502)))])
                I.cfg = Config(events=9)
                n = st.ntrace
                for s, v in normal(rep, R, I, callm(I, st.fork(), m, 'open'), cl, what):
                    es = ios(s, n, ('connect', 'connect_ex', 'create_connection'))
                    if len(es) != 1:
                        must_not(rep, R, s, [], cl, last_loc(s), '%s: makes %d connections' % (what, len(es)))
                        continue
                    e = es[0]
                    same(rep, R, At(s, e.facts), e.d['args'][0], want, cl, e.loc, '%s: connects to another address' % what)
                    if not kw:
                        dropped(I, rep, s, m, cls, None)
    mod, cls, _, _ = MASTERS['rtu']
    I.cfg = Config()
    st, p = serial_port(I, I.new_state())
    for st, m in normal(rep, R, I, call(I, st, need(I, mod, cls), [p], {}, mod=mod), cls, 'made'):
        I.cfg = Config(events=9)
        for s, v in normal(rep, R, I, callm(I, st, m, 'open'), cls, 'open'):
            dropped(I, rep, s, m, cls, p)
    I.cfg = Config()


def dropped(I, rep, st, m, cls, port):
    R = 'dropped'
    cl = '%s.__del__' % cls
    try:
        I.cfg = Config(events=9)
        outs = callm(I, st.fork(), m, '__del__')
    except Missing:
        return
    for s, v in outs:
        rep.paths += 1
        functions(rep, s)
        if isinstance(v, Exc) or (port is None and live(s)) or (port is not None and attr(s, port, 'is_open') != FALSE):
            must_not(rep, R, s, [], cl, last_loc(s), 'an open master that is dropped leaves its connection open',
                     [attr(s, port, 'is_open')] if port is not None else [])
        else:
            rep.ok(R)
