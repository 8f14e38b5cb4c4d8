"""C42: what is left on a line from earlier never becomes part of an exchange."""
from ..drive import *
from ..drive import only, call, callm, need, exc_name
from .base import *
from .bank import make_server
from .hooks import hookbytes
from .master import MASTERS, SENDS, make_master, At
from .servers import STUBS, Rtu

R = 'leftovers'
READS = ('recv', 'read', 'recv_into', 'read_all', 'readall', 'recvfrom', 'readline', 'read_until')


def count(s, key):
    v = s.getext(key)
    return v.l.c if v is not None else 0


class Script(object):
    """a line on which `pending` bytes wait before the request; the answer comes after the request, and its echo too"""

    def __init__(self, pending, closed=False, echo=False, total=8):
        self.pending, self.closed, self.echo, self.total = pending, closed, echo, total

    def waiting(self, s, o):
        v = s.getext(('waiting', o))
        if v is not None:
            return v.l.c
        return self.pending if s.getext(('fresh', o)) is None else 0

    def ready(self, I, s, items):
        out = []
        for o in items:
            if s.getext(('sent', o)) is not None or self.waiting(s, o) or (self.closed and s.getext(('fresh', o)) is None):
                out.append(o)
        return out

    def take(self, I, s, o, n, fr, node, op):
        w = self.waiting(s, o)
        if s.getext(('sent', o)) is not None:
            e = count(s, ('echo', o))
            if e:
                k = min(n, e)
                s.setext(('echo', o), N(Lin(e - k)))
                b = Bs((('sl', 'echo', ZERO, Lin(k)),))
            else:
                p = count(s, ('got', o))
                k = max(min(n, self.total - p), 0)
                s.setext(('got', o), N(Lin(p + k)))
                b = Bs((('sl', 'answer', Lin(p), Lin(k)),)) if k else Bs()
        else:
            k = min(n, w)
            s.setext(('waiting', o), N(Lin(w - k)))
            b = Bs((('sl', 'stale', Lin(self.pending - w), Lin(k)),)) if k else Bs()
        I.emit(s, 'io', fr, node, op=op, recv=o, args=(N(Lin(n)),), ret=b)
        return b

    def peer(self, I, st, o, name, args, kw, fr, node):
        if name in ('connect', 'connect_ex'):
            s = st.fork()
            first = s.getext(('connected', )) is None
            s.setext(('connected',), TRUE)
            if not first:
                s.setext(('fresh', o), TRUE)
            I.emit(s, 'io', fr, node, op='connect', recv=o, args=tuple(args), ret=NONE)
            return [(s, NONE)]
        if name in ('reset_input_buffer', 'flushInput'):
            s = st.fork()
            if s.getext(('sent', o)) is None:
                s.setext(('waiting', o), N(ZERO))
            I.emit(s, 'io', fr, node, op=name, recv=o, args=(), ret=NONE)
            return [(s, NONE)]
        if name in ('in_waiting', 'inWaiting'):
            s = st.fork()
            n = count(s, ('echo', o)) + self.total - count(s, ('got', o)) if s.getext(('sent', o)) is not None else self.waiting(s, o)
            I.emit(s, 'io', fr, node, op='in_waiting', recv=o, args=(), ret=N(Lin(n)))
            return [(s, N(Lin(n)))]
        if name in ('recv', 'read'):
            n = I.intlin(args[0]) if args else ONE
            if n is None or not n.is_const:
                i = st.facts.interval(n, 1 << 17) if n is not None else (None, None)
                if i[0] is None or i[0] != i[1]:
                    return None
                n = Lin(i[0])
            s = st.fork()
            if len(args) > 1:
                return None
            w = self.waiting(s, o) if s.getext(('sent', o)) is None else 1
            if name == 'recv' and not w and not self.closed:
                # nothing comes before the request
                return [I.raise_(s, 'TimeoutError')]
            return [(s, self.take(I, s, o, n.c, fr, node, name))]
        if name in SENDS:
            s = st.fork()
            b = I.as_bytes(s, I.snap(s, args[0])) if args else None
            I.emit(s, 'goes', fr, node, recv=o, waiting=self.waiting(s, o), dead=self.closed and s.getext(('fresh', o)) is None, data=b)
            s.setext(('sent', o), TRUE)
            if self.echo and b is not None and b.length().is_const:
                s.setext(('echo', o), N(b.length()))
            I.emit(s, 'io', fr, node, op=name, recv=o, args=(b,), ret=NONE)
            return [(s, NONE if name == 'sendall' else N(b.length()) if b is not None else NONE)]
        return None


def stub_parse(I, st, args, kw, fr, node):
    st = st.fork()
    a = args[1] if len(args) > 1 else kw.get('response')
    I.emit(st, 'parsed', fr, node, data=I.as_bytes(st, I.snap(st, a)))
    return [I.raise_(st, 'ValueError')]


def origin(b):
    return [g[1] if g[0] == 'sl' else g[0] for g in b.segs]


def longer(I, st, name):
    return Bs((('lit', b'\x01\x03\x00\x00\x00\x01\x02\x03\x04\x05\x06'),))


def masters(I, rep):
    for kind in ('tcp', 'rot', 'rtu'):
        mod, cls, qcls, qmod = MASTERS[kind]
        cl = '%s.execute' % cls
        stubs = {'%s.%s.parse_response' % (qmod, qcls): stub_parse}
        cases = [(n, False, False, False) for n in (0, 1, 2, 7, 260, 1023, 1024, 1500, 3000, 9000)]
        # the application replaces the request
        cases += [(n, False, False, True) for n in (2, 1500)]
        if kind != 'rtu':
            cases += [(0, True, False, False), (5, True, False, False)]
        else:
            cases += [(n, False, True, h) for n in (0, 5) for h in (False, True)]
        before = {'rtu': 'modbus_rtu.RtuMaster.before_send'}.get(kind, 'modbus_tcp.TcpMaster.before_send')
        for n, closed, echo, hook in cases:
            st, m = make_master(I, kind)
            if echo:
                st = put(st, m, 'handle_local_echo', TRUE)
            sc = Script(n, closed, echo)
            # the application replaces the request by a longer one
            hooks = {before: ('ret',)} if hook else {}
            I.cfg = Config(peer=sc.peer, ready=sc.ready)
            starts = [s for s, v in callm(I, st.fork(), m, 'open') if not isinstance(v, Exc)]
            for s0 in starts[:1]:
                I.cfg = Config(peer=sc.peer, ready=sc.ready, events=9, peel=700, stubs=stubs, hooks=hooks, hookval=longer)
                asks = [[N(Lin(3)), N(Lin(5)), N(Lin(1))]]
                if echo and not hook:
                    # requests of every length
                    asks += [[N(Lin(7)), N(ZERO)]] + [[N(Lin(16)), N(Lin(5)), N(ZERO), Tup(*[N(Lin(j)) for j in range(k)])] for k in (1, 2, 5, 30, 123)]
                for a in asks:
                    for s, v in callm(I, s0.fork(), m, 'execute', [N(Lin(17))] + a):
                        rep.paths += 1
                        functions(rep, s)
                        what = '%d old bytes wait%s%s' % (n, ', the connection is closed' if closed else '', ', with local echo' if echo else '')
                        exchange(I, rep, s, v, cl, what)
    I.cfg = Config()


def put(st, ref, name, v):
    s = st.fork()
    o = s.get(ref.oid)
    at = dict(o.attrs)
    at[name] = v
    s.put(ref.oid, o.set(attrs=at))
    return s


def exchange(I, rep, s, v, cl, what):
    goes = [e for e in s.events() if e.kind == 'goes']
    if not goes:
        if isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), 'no request is sent (%s) when %s' % (exc_name(I, s, v), what))
        return
    e = goes[0]
    if e.d['waiting']:
        must_not(rep, R, At(s, e.facts), [], cl, e.loc, 'the request is sent although %d of them are not discarded: %s' % (e.d['waiting'], what))
        return
    if e.d['dead']:
        must_not(rep, R, At(s, e.facts), [], cl, e.loc, 'the request is sent on a connection closed by the peer: %s' % what)
        return
    rep.ok(R)
    prs = [x for x in s.events() if x.kind == 'parsed']
    for x in prs:
        b = x.d['data']
        if b is None:
            rep.und(R, '%s: response not tracked' % cl)
            continue
        o = origin(b)
        bad = [y for y in o if y in ('stale', 'echo')]
        if bad:
            must_not(rep, R, At(s, x.facts), [], cl, x.loc, 'the response contains bytes of %s: %s' % ('the echo of the request' if bad[0] == 'echo' else 'an earlier exchange', what), [b])
        elif b.segs and b.segs[0][0] == 'sl' and b.segs[0][1] == 'answer' and b.segs[0][2] == ZERO:
            rep.ok(R)
        elif o and all(y == 'answer' for y in o):
            must_not(rep, R, At(s, x.facts), [], cl, x.loc, 'the first bytes of the answer are lost: %s' % what, [b])
        elif o:
            rep.und(R, '%s: response not tracked: %s' % (cl, b))
        else:
            must_not(rep, R, At(s, x.facts), [], cl, x.loc, 'nothing of the answer is received: %s' % what, [b])


# ------------------------------------------------------------------ a late answer of the serial server
def late(I, rep):
    X = Rtu(I, rep, True)
    for n in (0, 1, 9):
        cl = 'RtuServer._do_run'

        def peer(I, st, o, name, args, kw, fr, node):
            if name in ('in_waiting', 'inWaiting'):
                s = st.fork()
                k = n if s.getext(('handled',)) is not None else 0
                I.emit(s, 'io', fr, node, op='in_waiting', recv=o, args=(), ret=N(Lin(k)))
                return [(s, N(Lin(k)))]
            return None
        I.cfg = Config(peer=peer, link={None: (Lin(8), None, 'eof')}, events=9, peel=700, answers=('answer',), stubs=STUBS)
        for s, v in callm(I, X.st.fork(), X.srv, '_do_run'):
            rep.paths += 1
            functions(rep, s)
            h = [e for e in s.events() if e.kind == 'handled']
            if not h:
                continue
            w = [e for e in flat(s.events()) if e.kind == 'io' and e.d['op'] == 'write']
            if n and w:
                must_not(rep, R, At(s, w[0].facts), [], cl, w[0].loc, 'answers although the next request has begun to arrive (%d bytes)' % n)
            elif not n and not w and not isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'does not answer although no other request has begun to arrive')
            else:
                rep.ok(R)
    I.cfg = Config()


def c42(I, rep):
    masters(I, rep)
    late(I, rep)
