"""C44: the parts of the simulator: its servers, its console, its RPC interface."""
from ..drive import *
from ..drive import only, call, callm, need, exc_name
from ..state import Ev
from .base import *
from .bank import serial_port
from .servers import ios
from .simulator import Sim, SIM, puts

R = 'parts'
SRV = 'modbus_tk.modbus.Server.'


def recorders(fails=()):
    def stub(name):
        def f(I, st, args, kw, fr, node):
            st = st.fork()
            I.emit(st, 'reach', fr, node, name=name, srv=args[0] if args else None, args=tuple(args[1:]) + tuple(kw.values()))
            return [(st, NONE)]
        return f
    return dict((SRV + n, stub(n)) for n in ('start', 'stop', 'set_verbose'))


def reached(s, n, name):
    return [e for e in flat(s.events()[n:]) if e.kind == 'reach' and e.d['name'] == name]


def make(I, rep, k, bank=None):
    """a CompositeServer with k TcpServers and one RtuServer"""
    st = I.new_state()
    tcp, rtu = need(I, 'modbus_tk.modbus_tcp', 'TcpServer'), need(I, 'modbus_tk.modbus_rtu', 'RtuServer')
    st, port = serial_port(I, st)
    classes = [tcp] * k + [rtu]
    args = [mkseq([N(Lin(5020 + i)), K('127.0.0.%d' % (i + 1))]) for i in range(k)] + [mkseq([port])]
    kw = {}
    if bank:
        st, b = only(call(I, st, need(I, 'modbus_tk.modbus', 'Databank'), [], {}, mod='modbus_tk.modbus'), 'Databank')
        kw['databank'] = b
    outs = call(I, st, need(I, SIM, 'CompositeServer'), [mkseq(classes, 'list'), mkseq(args, 'list')], kw, mod=SIM)
    bad = [(s, v) for s, v in outs if isinstance(v, Exc)]
    if bad and len(bad) == len(outs):
        s, v = bad[0]
        must_not(rep, R, s, [], 'CompositeServer.__init__', last_loc(s), 'a server with %d sub-servers cannot be made: %s' % (k + 1, exc_name(I, s, v)))
        return None
    st, comp = only(outs, 'CompositeServer')
    if not isinstance(comp, Ref):
        raise Missing('CompositeServer()')
    return st, comp, kw.get('databank'), port


def composite(I, rep):
    cl = 'CompositeServer'
    for k in (0, 1, 3):
        for bank in (False, True):
            I.cfg = Config(events=9)
            made = make(I, rep, k, bank)
            if made is None:
                continue
            st, comp, given, port = made
            st, db = only(callm(I, st, comp, 'get_db'), 'get_db')
            if given is not None and db != given:
                must_not(rep, R, st, [], cl + '.__init__', last_loc(st), 'the databank given is not the one that is served')
                continue
            subs = None
            for op, args in (('start', []), ('set_verbose', [TRUE]), ('set_verbose', [FALSE]), ('stop', [])):
                I.cfg = Config(events=9, stubs=recorders())
                n = st.ntrace
                outs = callm(I, st.fork(), comp, op, args)
                for s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    es = [e for e in reached(s, n, op) if e.d['srv'] != comp]
                    got = [e.d['srv'] for e in es]
                    what = '%s of %d servers' % (op, k + 1)
                    if isinstance(v, Exc):
                        must_not(rep, R, s, [], '%s.%s' % (cl, op), last_loc(s), '%s fails with %s' % (what, exc_name(I, s, v)))
                    elif any(not isinstance(g, Ref) or g.idx for g in got):
                        rep.und(R, '%s: servers not tracked' % what)
                    elif len(set(got)) != k + 1:
                        must_not(rep, R, s, [], '%s.%s' % (cl, op), last_loc(s), '%s reaches %d of them' % (what, len(set(got))))
                    elif len(got) != k + 1:
                        must_not(rep, R, s, [], '%s.%s' % (cl, op), last_loc(s), '%s reaches a server more than once' % what)
                    elif args and any(e.d['args'] != tuple(args) for e in es):
                        if any(anyimp(x) for e in es for x in e.d['args']):
                            rep.und(R, '%s: argument not tracked' % what)
                        else:
                            must_not(rep, R, s, [], '%s.%s' % (cl, op), last_loc(s), '%s: passes another value on' % what)
                    elif subs is not None and set(got) != set(subs):
                        must_not(rep, R, s, [], '%s.%s' % (cl, op), last_loc(s), '%s reaches other servers than start' % what)
                    else:
                        rep.ok(R)
                        if subs is None:
                            subs = got
                if len(outs) == 1 and not isinstance(outs[0][1], Exc):
                    st = outs[0][0]
            for x in subs or ():
                I.cfg = Config(events=9)
                for s, v in callm(I, st.fork(), x, 'get_db'):
                    if v != db:
                        must_not(rep, R, s, [], cl + '.__init__', last_loc(s), 'a server does not share the databank')
                    else:
                        rep.ok(R)
            if subs:
                own(I, rep, st, subs, k, port, cl)
    I.cfg = Config()


def own(I, rep, st, subs, k, port, cl):
    """every server got its own arguments"""
    got = []
    for x in subs:
        I.cfg = Config(events=9)
        n = st.ntrace
        for s, v in callm(I, st.fork(), x, '_do_init'):
            if isinstance(v, Exc):
                rep.und(R, 'initialisation of a server')
                return
            b = ios(s, n, ('bind',))
            o = ios(s, n, ('open',), port)
            got.append(str(b[0].d['args'][0]) if b and b[0].d['args'] else 'port' if o else '?')
    want = [str(mkseq([K('127.0.0.%d' % (i + 1)), N(Lin(5020 + i))])) for i in range(k)]
    got = [g for g in got if g != '?']
    if len(got) < k:
        rep.und(R, 'addresses of the servers not tracked')
    elif sorted(g for g in got if g != 'port') != sorted(want):
        must_not(rep, R, st, [], cl + '.__init__', last_loc(st), 'the servers do not get their own arguments: %s' % ', '.join(got)[:120])
    else:
        rep.ok(R)


# ------------------------------------------------------------------ the simulator
def kindof(I, s, e, X, parts):
    """what an event starts or stops"""
    if e.kind == 'reach':
        return (e.d['name'], 'servers')
    if e.kind == 'mcall' and e.d['recv'] in parts:
        return (e.d['name'], parts[e.d['recv']])
    if e.kind == 'io' and e.d['op'] in ('shutdown', 'server_close'):
        return ('shutdown', 'rpc')
    if e.kind == 'event' and e.d['op'] == 'clear':
        return ('clear', 'console')
    if e.kind == 'waits':
        return ('waits', 'commands')
    return None


def life(I, rep):
    X = Sim(I, rep)
    st = X.st
    at = st.get(X.sim.oid).attrs
    parts = {}
    for a, v in at.items():
        if isinstance(v, Ref) and not v.idx and st.get(v.oid).kind == 'inst':
            c = st.get(v.oid).cls
            nm = st.get(c.oid).name if isinstance(c, Ref) else ''
            for key, p in (('ConsoleInterface', 'console'), ('RpcInterface', 'rpc')):
                if nm.split('.')[-1] == key:
                    parts[v] = p
    if sorted(parts.values()) != ['console', 'rpc']:
        rep.und(R, 'parts of the simulator not found')
        return

    def empty(I2, s, ref, timed):
        s = s.fork()
        s.emit(Ev('waits', {'obj': ref}, '', s.facts, s.locks, '', ()))
        return [I2.raise_(s, 'queue.Empty' if timed else 'KeyboardInterrupt')]
    cl = 'Simulator.start'
    I.cfg = Config(events=9, stubs=recorders(), queues=empty)
    n = st.ntrace
    started = None
    for s, v in callm(I, st.fork(), X.sim, 'start'):
        rep.paths += 1
        functions(rep, s)
        ks = [k for k in (kindof(I, s, e, X, parts) for e in flat(s.events()[n:])) if k]
        w = ks.index(('waits', 'commands')) if ('waits', 'commands') in ks else None
        if w is None:
            must_not(rep, R, s, [], cl, last_loc(s), 'does not wait for commands')
            continue
        for p in ('servers', 'console', 'rpc'):
            m = ks[:w].count(('start', p))
            if m != 1:
                must_not(rep, R, s, [], cl, last_loc(s), '%s started %s the first command is waited for' % (
                    p, 'more than once before' if m else 'not before'))
            else:
                rep.ok(R)
        started = s
    if started is None:
        return
    cl = 'Simulator.close'
    for faults in ((), ('mcall:shutdown', 'io:shutdown')):
        I.cfg = Config(events=9, stubs=recorders(), faults=faults)
        n = started.ntrace
        for s, v in callm(I, started.fork(), X.sim, 'close'):
            rep.paths += 1
            functions(rep, s)
            ks = [k for k in (kindof(I, s, e, X, parts) for e in flat(s.events()[n:])) if k]
            if isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'fails with %s' % exc_name(I, s, v))
                continue
            failed = any(e.kind == 'iofail' for e in flat(s.events()[n:]))
            for k, text in ((('clear', 'console'), 'the console is not told to end'), (('shutdown', 'rpc'), 'the RPC server is not told to end'),
                            (('stop', 'servers'), 'the servers are not stopped')):
                if k not in ks and not (failed and k[1] == 'rpc'):
                    must_not(rep, R, s, [], cl, last_loc(s), text)
                else:
                    rep.ok(R)
    I.cfg = Config()


# ------------------------------------------------------------------ the console
class Console(object):
    """lines typed at some moments; the command loop answers each one"""

    def __init__(self, I, X, rounds, quiet=(), lines=None):
        self.X, self.rounds, self.quiet = X, rounds, quiet
        self.lines = lines or ['command %d' % k for k in range(rounds)]
        self.stdin = None

    def count(self, s, key):
        v = s.getext(key)
        return v.l.c if v is not None else 0

    def ready(self, I, s, items):
        n = self.count(s, ('polls',))
        s.setext(('polls',), N(Lin(n + 1)))
        s.emit(Ev('poll', {'ready': n not in self.quiet}, '', s.facts, s.locks, '', ()))
        s.setext(('typed',), N(Lin(0 if n in self.quiet else 1)))
        return [] if n in self.quiet else list(items)

    def ext(self, I, st, p, args, kw, fr, node):
        if p in ('sys.stdin.readline', 'input', 'raw_input', 'sys.stdin.read'):
            k = self.count(st, ('lines',))
            s = st.fork()
            I.emit(s, 'readline', fr, node, typed=self.count(s, ('typed',)))
            if k >= self.rounds:
                return [I.raise_(s, 'KeyboardInterrupt')]
            s.setext(('lines',), N(Lin(k + 1)))
            s.setext(('typed',), N(ZERO))
            return [(s, K(self.lines[k] + ('\n' if p.startswith('sys') else '')))]
        if p in ('sys.stdout.write', 'print'):
            s = st.fork()
            I.emit(s, 'write', fr, node, args=tuple(a for a in args if isinstance(a, V)))
            return [(s, NONE)]
        if p == 'sys.stdout.flush':
            return [(st, NONE)]
        return None

    def empty(self, I, st, ref, timed):
        s = st.fork()
        if ref != self.X.outq:
            return [I.raise_(s, 'queue.Empty' if timed else 'KeyboardInterrupt')]
        n = len([e for e in flat(s.events()) if e.kind == 'put' and e.d['obj'] == self.X.inq])
        k = self.count(s, ('answered',))
        if k >= n:
            # nobody answers a command that has not been put
            return [I.raise_(s, 'queue.Empty' if timed else 'KeyboardInterrupt')]
        if timed == 'nowait' and s.getext(('early', k)) is None:
            # the answer takes some time
            s.setext(('early', k), TRUE)
            return [I.raise_(s, 'queue.Empty')]
        s.setext(('answered',), N(Lin(k + 1)))
        return [(s, K('answer %d\r\n' % k))]


def console(I, rep):
    X = Sim(I, rep)
    I.cfg = Config(events=9)
    st, con = only(call(I, X.st, need(I, SIM, 'ConsoleInterface'), [], {}, mod=SIM), 'ConsoleInterface')
    cl = 'ConsoleInterface.run'
    same = ['get_values 1 block 0 1'] * 3
    odd = ['', 'set_values 1 %s 0 %s' % ('b', ' '.join(str(k) for k in range(700))), 'quit']
    for quiet, lines in (((), None), ((0, 2), None), ((), same), ((1,), odd), ((), ['', 'a ', ' b c'])):
        C = Console(I, X, 3, quiet, lines)
        I.cfg = Config(events=9, peel=700, queues=C.empty, ready=C.ready, extcall=C.ext)
        n = st.ntrace
        for s, v in callm(I, st.fork(), con, 'run'):
            rep.paths += 1
            functions(rep, s)
            es = [e for e in flat(s.events()[n:]) if e.kind in ('readline', 'write') or e.kind == 'put' and e.d['obj'] == X.inq]
            if not es and not isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'ends without having been told to')
                continue
            if any(e.kind == 'readline' and not e.d['typed'] for e in es) and quiet:
                must_not(rep, R, s, [], cl, last_loc(s), 'waits for a line although nothing has been typed: cannot be closed any more')
                continue
            ks = [(e.kind, e) for e in es if e.kind != 'readline']
            lines = [e for k, e in ks if k == 'put']
            ok = True
            if len(lines) != 3:
                must_not(rep, R, s, [], cl, last_loc(s), '%d of 3 lines typed passed to the simulator%s' % (
                    len(lines), ', then ends with %s' % exc_name(I, s, v) if isinstance(v, Exc) else ''))
                continue
            for i, e in enumerate(lines):
                x = e.d['value']
                if not (isinstance(x, K) and isinstance(x.v, str)):
                    rep.und(R, '%s: command not tracked' % cl)
                    ok = False
                elif x.v.strip() != C.lines[i].strip():
                    must_not(rep, R, s, [], cl, e.loc, 'passes %r instead of the line typed' % x.v)
                    ok = False
            if not ok:
                continue
            text, bad = '', False
            at = -1
            for k, e in ks:
                if k == 'put':
                    at += 1
                    if at and text.strip() != 'answer %d' % (at - 1):
                        bad = True
                        break
                    text = ''
                else:
                    for a in e.d['args']:
                        if not (isinstance(a, K) and isinstance(a.v, str)):
                            bad = None
                        else:
                            text += a.v
            if bad is None:
                rep.und(R, '%s: output not tracked' % cl)
            elif bad or text.strip() != 'answer 2':
                must_not(rep, R, s, [], cl, last_loc(s), 'does not write the answer to a command before the next one (%r)' % text[:40])
            else:
                rep.ok(R)
    I.cfg = Config(events=9)
    for s0, v in callm(I, st.fork(), con, 'close'):
        C = Console(I, X, 3, (0, 1, 2, 3))
        I.cfg = Config(events=9, peel=20, queues=C.empty, ready=C.ready, extcall=C.ext)
        n = s0.ntrace
        for s, v in callm(I, s0, con, 'run'):
            functions(rep, s)
            if len([e for e in flat(s.events()[n:]) if e.kind == 'poll']) > 3:
                must_not(rep, R, s, [], 'ConsoleInterface.close', last_loc(s), 'the console goes on after close')
            else:
                rep.ok(R)
    I.cfg = Config()


def c44(I, rep):
    composite(I, rep)
    life(I, rep)
    console(I, rep)
