"""C23, C25, C26: the loop of the servers."""
from ..drive import *
from ..drive import only, call, callm, need, has_method, exc_name
from ..bytesops import bs_region
from ..lin import Facts
from ..state import Ev
from .base import *
from .bank import make_server, serial_port
from .master import At, SENDS

HANDLE = 'modbus_tk.modbus.Databank.handle_request'
READS = ('recv', 'read', 'recv_into')
NANS = 9


def stub_handle(I, st, args, kw, fr, node):
    """the databank: an answer per request, an empty one, or any failure"""
    st = st.fork()
    k = st.getext(('handled',))
    k = k.l.c if k is not None else 0
    st.setext(('handled',), N(k + 1))
    req = args[2] if len(args) > 2 else kw.get('request')
    outs = []
    st0 = st
    for m in I.cfg.data.get('answers', ('answer',)):
        s = st0.fork()
        I.emit(s, 'handled', fr, node, req=I.as_bytes(st0, req) if req is not None else None, k=k, ans=m)
        if m == 'answer':
            outs.append((s, Bs((('sl', 'answer%d' % k, ZERO, Lin(NANS)),))))
        elif m == 'empty':
            outs.append((s, K('')))
        else:
            outs.append((s, I.any_exc(s)))
    return outs


STUBS = {HANDLE: stub_handle}


def handled(s, n=0):
    return [e for e in s.events()[n:] if e.kind == 'handled']


def ios(s, n, ops, recv=None, kinds=('io',)):
    return [e for e in flat(s.events()[n:]) if e.kind in kinds and e.d['op'] in ops and (recv is None or e.d['recv'] == recv)]


def closed(s, r):
    return s.getext(('closed', r)) is not None


class Tcp(object):
    """a TcpServer that listens and has two connections"""
    kind = 'tcp'
    MOD, CLS = 'modbus_tk.modbus_tcp', 'TcpServer'

    def __init__(self, I, rep, **kw):
        self.I, self.rep = I, rep
        I.cfg = Config()
        st, self.srv = make_server(I, I.new_state(), self.MOD, self.CLS, 'tcp', **kw)
        I.cfg = Config(events=9)
        st, _ = only(callm(I, st, self.srv, '_do_init'), '_do_init')
        b = ios(st, 0, ('bind', 'listen'))
        if not b:
            raise Missing('_do_init does not bind')
        self.listener = b[0].d['recv']
        self.clients = []
        self.dropped = []
        for i in range(2):
            st = self.connect(st)
        self.st = st
        self.n = st.ntrace

    def connect(self, st):
        """one more connection"""
        n = st.ntrace
        good = []
        for s, v in self.run(st, (self.listener,), {None: (ZERO, 1, 'stall')}):
            a = ios(s, n, ('accept',))
            if isinstance(v, Exc) or len(a) != 1:
                continue
            if any(closed(s, c) and not closed(st, c) for c in self.clients + [self.listener]) or closed(s, a[0].d['ret']):
                # a new connection costs another one
                self.dropped.append(s)
                continue
            good.append((s, a[0].d['ret']))
        if not good:
            if self.dropped:
                raise Missing('a new connection closes another one')
            raise Missing('a new connection is not accepted')
        s, c = good[0]
        self.clients.append(c)
        return s

    def run(self, st, ready, link, faults=(), hooks=None, answers=('answer',)):
        I = self.I
        I.cfg = Config(ready=ready, link=link, events=9, peel=700, faults=faults, hooks=hooks or {}, answers=answers, stubs=STUBS)
        outs = callm(I, st.fork(), self.srv, '_do_run')
        I.cfg = Config()
        for s, v in outs:
            self.rep.paths += 1
            functions(self.rep, s)
        return outs

    def rounds(self, st, ready, link, k, stop=None, **kw):
        cur = [(st, None)]
        for _ in range(k):
            nxt = []
            for s, v in cur:
                if isinstance(v, Exc) or (stop is not None and stop(s)):
                    nxt.append((s, v))
                else:
                    rd = tuple(r for r in ready if self.readable(s, r, link))
                    if not rd:
                        nxt.append((s, v))
                    else:
                        nxt.extend(self.run(s, rd, link, **kw))
            cur = nxt
        return cur

    def readable(self, s, r, link):
        if closed(s, r):
            return False
        limit, _, end = link.get(r, link.get(None))
        p = s.getext(('pos', r))
        left = limit - (p.l if p is not None else ZERO)
        return end == 'eof' or not (left.is_const and left.c <= 0)

    def length(self, c, off):
        return fld('in(%r)' % c, Lin(off), 2, False, '>')


# ------------------------------------------------------------------ C23
LENGTHS = (1, 2, 3, 6, 7, 12, 70, 253, 254, 260, 300, 520)


def lengths(X, c, ls):
    """the state in which the requests of connection c announce these lengths; with the offsets of the requests"""
    s = X.st.fork()
    o = 0
    offs = []
    for l in ls:
        s.facts = s.facts.add('eq', X.length(c, o + 4) - l)
        offs.append((o, 6 + l))
        o += 6 + l
    return s, offs, o


def sent(s, n, c):
    """bytes sent on a connection, None when not known"""
    segs = ()
    for e in ios(s, n, SENDS, c):
        b = e.d['args'][0] if e.d['args'] else None
        if isinstance(b, Ref):
            b = None
        if not isinstance(b, Bs):
            return None
        if e.d['op'] == 'send':
            if not (isinstance(e.d['ret'], N) and b.length().is_const):
                return None
            b = bslice(b, ZERO, e.d['ret'].l)
        segs += b.segs
    return Bs(segs)


def bslice(b, i, n):
    r = bs_region(b, i, n, Facts())
    return r if isinstance(r, Bs) else Bs(r)


def endless(X, s, cl, what, R='no-stall'):
    """the path goes through a loop that does nothing any more"""
    if 'stuck' not in s.flags:
        return False
    at = At(s, s.facts)
    at.flags = frozenset(x for x in at.flags if x != 'stuck')
    must_not(X.rep, R, at, [], cl, last_loc(s), '%s: loops for ever' % what)
    return True


def judge(X, R, s, v, c, want, total, exact, cl, what):
    """handled requests of connection c are exactly want (or a prefix of it when not exact); answers are complete"""
    rep, n = X.rep, X.n
    hs = handled(s, n)
    base = 'in(%r)' % c
    if endless(X, s, cl, what):
        return
    if isinstance(v, Exc):
        must_not(rep, R, s, [], cl, last_loc(s), '%s raises %s' % (what, exc_name(X.I, s, v)))
        return
    for i, e in enumerate(hs):
        q = e.d['req']
        if q is None:
            rep.und(R, '%s: request not tracked' % cl)
            return
        if i >= len(want):
            must_not(rep, R, At(s, e.facts), [], cl, e.loc, '%s: something is handled that is no complete request' % what)
            return
        o, m = want[i]
        w = Bs((('sl', base, Lin(o), Lin(m)),))
        if q == w:
            rep.ok(R)
        elif q.length().is_const and q.length().c != m:
            must_not(rep, R, At(s, e.facts), [], cl, e.loc, '%s: hands %d bytes to request handling, the request has %d' % (what, q.length().c, m))
            return
        elif same_bytes(rep, R, At(s, e.facts), q, w, cl, e.loc, '%s: the bytes handed to request handling are not those of the request' % what) is not True:
            return
    if exact and len(hs) < len(want):
        must_not(rep, R, s, [], cl, last_loc(s), '%s: a complete request is not handled' % what)
        return
    b = sent(s, n, c)
    w = Bs(tuple(('sl', 'answer%d' % i, ZERO, Lin(NANS)) for i in range(len(hs))))
    if b is None:
        rep.und(R, '%s: what is sent is not tracked' % cl)
    elif b != w:
        must_not(rep, R, s, [], cl, last_loc(s), '%s: the answers sent are not the whole answers in order' % what, [b])
    else:
        rep.ok(R)
    for e in ios(s, n, SENDS):
        if e.d['recv'] != c:
            must_not(rep, R, At(s, e.facts), [], cl, e.loc, '%s: answers on another connection' % what)


def modes(X, R, s, cl):
    """reading and sending waits, but not for ever"""
    rep = X.rep
    mode = {}
    fresh_ = set()
    for e in flat(s.events()):
        if e.kind not in ('io', 'iofail'):
            continue
        if e.d['op'] == 'select':
            fresh_ = set(X.clients)
        if not isinstance(e.d['recv'], Ref):
            continue
        op, r = e.d['op'], e.d['recv']
        if op in READS and r in fresh_:
            # there is something to read: it needs not wait
            fresh_.discard(r)
            continue
        if op == 'settimeout' and e.kind == 'io':
            mode[r] = e.d['args'][0]
        elif op == 'setblocking' and e.kind == 'io':
            x = e.d['args'][0]
            mode[r] = NONE if x in (TRUE, N(1)) else N(0) if x in (FALSE, N(0)) else None
        elif op in READS + SENDS and r in X.clients:
            m = mode.get(r, NONE)
            if m == N(0):
                must_not(rep, R, At(s, e.facts), [], cl, e.loc, 'does not wait for the rest of a request or answer (non-blocking socket)')
            elif m == NONE:
                must_not(rep, 'no-stall', At(s, e.facts), [], cl, e.loc, 'waits for ever for a client that sends a part of a request')
            else:
                rep.ok(R)


def c23(I, rep):
    R = 'reassembly'
    try:
        X = Tcp(I, rep)
    except Missing as e:
        rep.und(R, str(e))
        return
    cl = 'TcpServer._do_run'
    c, c2 = X.clients
    ls = LENGTHS if rep.tier == 'thorough' else (300, 1, 2, 6, 70, 254)
    for l in ls:
        if rep.findings:
            return
        for l2 in (6, 2):
            st, offs, tot = lengths(X, c, (l, l2, 5))
            cuts = sorted(set([0, 1, 5, 6, 7, 5 + l, 6 + l, 7 + l, 6 + l + 6, 6 + l + 5 + l2, 6 + l + 6 + l2, 6 + l + 6 + l2 + 3]))
            for cut in cuts:
                want = [(o, m) for o, m in offs if o + m <= cut]
                for chunk in (None, 3, 1) if l2 == 6 else (None, 1):
                    if rep.findings:
                        return
                    for end in ('eof', 'stall'):
                        what = 'requests of %d and %d bytes, %s after %d bytes, %s' % (
                            6 + l, 6 + l2, 'closed' if end == 'eof' else 'silent', cut,
                            'read at once' if chunk is None else '%d byte(s) at a time' % chunk)
                        def wrong(s, want=want):
                            hs = handled(s, X.n)
                            return len(hs) > len(want) or any(e.d['req'] is None or not e.d['req'].length().is_const or e.d['req'].length().c != w[1]
                                                              for e, w in zip(hs, want))
                        for s, v in X.rounds(st, (c,), {None: (Lin(cut), chunk, end)}, 4, wrong):
                            judge(X, R, s, v, c, want, tot, True, cl, what)
                            if chunk == 1 and l2 == 6:
                                modes(X, R, s, cl)
                            if cut in (5, 5 + l) and chunk == 1 and l2 == 6 and end == 'eof' and not isinstance(v, Exc):
                                # another connection afterwards
                                s2 = s.fork()
                                s2.facts = s2.facts.add('eq', X.length(c2, 4) - 2)
                                for s3, v3 in X.rounds(s2, (c2,), {None: (Lin(8), 1, 'stall')}, 2):
                                    two(X, R, s3, v3, {c: 6 + l, c2: 8}, {c: cut, c2: 8}, cl)
                            if cut in (5, 5 + l) and chunk == 1 and l2 == 6 and end == 'stall' and not isinstance(v, Exc) and not closed(s, c):
                                # the rest comes later
                                for s2, v2 in X.rounds(s, (c,), {None: (Lin(tot), chunk, 'stall')}, 4):
                                    judge(X, R, s2, v2, c, offs, tot, False, cl, what + ', then the rest')
    # two connections at once
    for cut in (6 + 6, 6 + 5):
        st, offs, tot = lengths(X, c, (6,))
        st.facts = st.facts.add('eq', X.length(c2, 4) - 2)
        for order in ((c, c2), (c2, c)):
            for s, v in X.rounds(st, order, {c: (Lin(cut), 1, 'stall'), None: (Lin(8), 1, 'stall')}, 2):
                two(X, R, s, v, {c: 12, c2: 8}, {c: cut, c2: 8}, cl)
    # a server with another time limit
    for t in (N(0), NONE, N(30)):
        try:
            Y = Tcp(I, rep, timeout_in_sec=t)
        except Missing:
            continue
        d = Y.clients[0]
        for cut in (4, 12):
            st, offs, tot = lengths(Y, d, (6,))
            for s, v in Y.rounds(st, (d,), {None: (Lin(cut), 1, 'stall')}, 2):
                judge(Y, R, s, v, d, [(o, m) for o, m in offs if o + m <= cut], tot, True, cl, 'a server with a time limit of %s' % ('None' if t == NONE else t.l))
                modes(Y, R, s, cl)
    # both have a request, one of which gets no answer
    st, offs, tot = lengths(X, c, (6,))
    st.facts = st.facts.add('eq', X.length(c2, 4) - 2)
    for order in ((c, c2), (c2, c)):
        for s, v in X.run(st, order, {c: (Lin(12), None, 'stall'), None: (Lin(8), None, 'stall')}, answers=('answer', 'empty', 'raise')):
            if not isinstance(v, Exc):
                nxt = tuple(x for x in (c, c2) if X.readable(s, x, {c: (Lin(12), None, 'stall'), None: (Lin(8), None, 'stall')}))
                for s2, v2 in (X.run(s, nxt, {c: (Lin(12), None, 'stall'), None: (Lin(8), None, 'stall')}) if nxt else [(s, v)]):
                    two(X, R, s2, v2, {c: 12, c2: 8}, {c: 12, c2: 8}, cl)
            else:
                two(X, R, s, v, {c: 12, c2: 8}, {c: 12, c2: 8}, cl)
    # a connection that is opened after another one was lost in the middle of a request
    for cut in (3, 6, 7, 11):
        for end in ('eof', 'stall'):
            if rep.findings:
                return
            st, offs, tot = lengths(X, c, (6,))
            for s, v in X.rounds(st, (c,), {c: (Lin(cut), None, end), None: (ZERO, None, 'stall')}, 3):
                if isinstance(v, Exc) or not closed(s, c):
                    continue
                old = list(X.clients)
                try:
                    s2 = X.connect(s)
                except Missing as e:
                    rep.und(R, str(e))
                    continue
                c3 = X.clients[-1]
                s2.facts = s2.facts.add('eq', X.length(c3, 4) - 2)
                for s3, v3 in X.rounds(s2, (c3,), {c3: (Lin(8), None, 'stall'), None: (ZERO, None, 'stall')}, 2):
                    two(X, R, s3, v3, {c: 12, c3: 8}, {c: cut, c3: 8}, cl)
                X.clients[:] = old
    # whatever length is announced
    general(X, R, c, cl)


def two(X, R, s, v, need_, have, cl):
    rep = X.rep
    if isinstance(v, Exc):
        must_not(rep, R, s, [], cl, last_loc(s), 'raises %s with two connections' % exc_name(X.I, s, v))
        return
    who = {}
    good = set()
    for e in handled(s, X.n):
        q = e.d['req']
        for x in need_:
            if q == Bs((('sl', 'in(%r)' % x, ZERO, Lin(need_[x])),)) and have[x] >= need_[x]:
                who[e.d['k']] = x
                if e.d['ans'] == 'answer':
                    good.add(e.d['k'])
                break
        else:
            must_not(rep, R, At(s, e.facts), [], cl, e.loc, 'with two connections: something is handled that is no request of one of them', [q])
            return
    for x in need_:
        k = [i for i in who if who[i] == x]
        if have[x] >= need_[x] and len(k) != 1:
            must_not(rep, R, s, [], cl, last_loc(s), 'with two connections: the request of one of them is handled %d times' % len(k))
            return
        w = Bs(tuple(('sl', 'answer%d' % i, ZERO, Lin(NANS)) for i in k if i in good))
        b = sent(s, X.n, x)
        if b is None:
            rep.und(R, '%s: what is sent is not tracked' % cl)
        elif b != w:
            must_not(rep, R, s, [], cl, last_loc(s), 'with two connections: answers are not sent on the connection the request came from')
        else:
            rep.ok(R)


def general(X, R, c, cl):
    """any announced length of at least 1"""
    rep, I = X.rep, X.I
    L = X.length(c, 4)
    base = 'in(%r)' % c
    st = X.st.fork()
    st.facts = st.facts.add('ge', L - 1)
    I.cfg = Config(ready=(c,), events=9, stubs=STUBS)
    outs = callm(I, st, X.srv, '_do_run')
    I.cfg = Config()
    for s, v in outs:
        rep.paths += 1
        for e in handled(s, X.n):
            at = At(s, e.facts)
            q = e.d['req']
            if q is None or vague(at):
                rep.und('any-length', vague(at) or 'request not tracked')
                continue
            must_equal(rep, 'any-length', at, q.length(), L + 6, cl, e.loc, 'the number of bytes handed to request handling is not 6 + the announced length')
            r = q.segs
            if not (len(r) == 1 and r[0][0] == 'sl' and r[0][1] == base and r[0][2] == ZERO):
                rep.und('any-length', 'bytes not in one piece')
            pos = s.getext(('pos', c))
            if pos is not None:
                must_equal(rep, 'any-length', at, pos.l, L + 6, cl, e.loc, 'reads bytes of the following request')


# ------------------------------------------------------------------ C25
def full(X, st, c, l=6):
    """the next request of connection c announces l bytes; link entry that gives it"""
    p = st.getext(('pos', c))
    p = p.l if p is not None else ZERO
    if not p.is_const:
        return None, None
    s = st.fork()
    f = s.facts.add('eq', X.length(c, p.c + 4) - l)
    if f is None:
        return None, None
    s.facts = f
    return s, (p + 6 + l, None, 'stall')


def survives(X, R, s, v, hurt, cl, what, depth=0):
    """after what happened the server goes on: it listens and serves the other connections"""
    rep, I = X.rep, X.I
    if endless(X, s, cl, what):
        return
    if isinstance(v, Exc):
        must_not(rep, R, s, [], cl, last_loc(s), '%s: ends the server with %s' % (what, exc_name(I, s, v)))
        return
    if closed(s, X.listener):
        must_not(rep, R, s, [], cl, last_loc(s), '%s: closes the listening socket' % what)
        return
    for c in X.clients:
        if c not in hurt and closed(s, c):
            must_not(rep, R, s, [], cl, last_loc(s), '%s: closes the connection of another client' % what)
            return
    n = s.ntrace
    for s2, v2 in X.run(s, (X.listener,), {None: (ZERO, 1, 'stall')}):
        if isinstance(v2, Exc):
            msg = '%s: the next pass ends the server with %s' % (what, exc_name(I, s2, v2))
            if [e for e in s2.events()[n:] if e.kind == 'badselect']:
                msg = '%s: a closed connection is still watched, which ends the server' % what
            must_not(rep, R, s2, [], cl, last_loc(s2), msg)
        elif not ios(s2, n, ('accept',), X.listener):
            must_not(rep, R, s2, [], cl, last_loc(s2), '%s: new connections are not accepted any more' % what)
        else:
            rep.ok(R)
    for c in X.clients:
        if c in hurt or (depth and c != X.clients[1]):
            continue
        s1, link = full(X, s, c)
        if s1 is None:
            rep.und(R, '%s: position of the stream not known' % cl)
            continue
        n, m = s1.ntrace, len(handled(s1))
        for s2, v2 in X.run(s1, (c,), {c: link, None: (ZERO, 1, 'stall')}):
            hs = handled(s2, n)
            if isinstance(v2, Exc):
                must_not(rep, R, s2, [], cl, last_loc(s2), '%s: the next request of another client ends the server with %s' % (what, exc_name(I, s2, v2)))
            elif len(hs) != 1:
                must_not(rep, R, s2, [], cl, last_loc(s2), '%s: requests of another client are not handled any more' % what)
            elif not ios(s2, n, SENDS, c):
                must_not(rep, R, s2, [], cl, last_loc(s2), '%s: another client gets no answer any more' % what)
            else:
                rep.ok(R)


IOF = ('io:accept', 'io:recv', 'io:peek', 'io:sendall', 'io:send', 'io:getpeername', 'io:getsockname', 'io:shutdown', 'io:read', 'io:write',
       'io:flush', 'io:in_waiting', 'io:reset_input_buffer', 'io:reset_output_buffer')
BAD = {'*': ('none', 'exc')}


def c25_tcp(I, rep):
    R = 'server-goes-on'
    try:
        X = Tcp(I, rep)
    except Missing as e:
        rep.und(R, str(e))
        return
    cl = 'TcpServer._do_run'
    c, c2 = X.clients
    crowd(I, rep, R, X, cl)
    # new connections
    for faults, hooks, what in ((('io:accept',), None, 'a failing accept'), ((), BAD, 'a failing hook on a new connection'),
                                (('io:accept',), BAD, 'a failing accept and hook')):
        for s, v in X.run(X.st, (X.listener,), {None: (ZERO, 1, 'stall')}, faults, hooks):
            survives(X, R, s, v, (), cl, what)
    # one client
    for l in (6, 2):
        st, _, tot = lengths(X, c, (l,))
        for cut in (0, 3, 6, 7, tot - 1, tot):
            for end in ('eof', 'stall'):
                what = 'a client %s after %d bytes' % ('closes' if end == 'eof' else 'is silent', cut)
                for ready in ((c,), (c, c2)):
                    s0, l2 = full(X, st, c2)
                    for s, v in X.run(s0, ready, {c: (Lin(cut), None, end), c2: l2}):
                        if len(ready) == 2 and not isinstance(v, Exc) and not endless(X, s, cl, what):
                            # the other client is served in this pass or in the next one
                            for s2, v2 in X.run(s, tuple(x for x in ready if not closed(s, x) and not ios(s, X.n, SENDS, x)), {c: (Lin(cut), None, end), c2: l2}):
                                if isinstance(v2, Exc):
                                    survives(X, R, s2, v2, (c,), cl, what)
                                elif not ios(s2, X.n, SENDS, c2):
                                    must_not(rep, R, s2, [], cl, last_loc(s2), '%s: the request of another client at the same time is not answered' % what)
                                else:
                                    survives(X, R, s2, v2, (c,), cl, what, 1)
                        else:
                            survives(X, R, s, v, (c,), cl, what)
        for ans, what in (('empty', 'a request without an answer'), ('raise', 'a request which cannot be handled'), ('answer', 'an answered request')):
            for faults, hooks, w2 in (((), None, ''), (IOF, None, ' and a failing socket'), ((), BAD, ' and failing hooks'), (('io:sendall', 'io:send'), BAD, ' that cannot be sent and failing hooks')):
                for s, v in X.run(st, (c,), {None: (Lin(tot), None, 'stall')}, faults, hooks, (ans,)):
                    survives(X, R, s, v, (c,), cl, what + w2)
    for s, v in X.run(X.st, (c,), {None: (ZERO, None, 'eof')}, IOF, BAD):
        survives(X, R, s, v, (c,), cl, 'a client closes and hooks fail')
    # the loop of the thread
    loop(I, rep, 'tcp')


def watched(X, s):
    """the sockets the server gives to select"""
    got = []

    def ready(I, st, items):
        got.append(list(items))
        return []
    X.run(s, ready, {None: (ZERO, None, 'stall')})
    return got


def crowd(I, rep, R, X, cl):
    """many connections: none of them is closed because of another one, and each of them is watched"""
    for s in X.dropped:
        must_not(rep, R, s, [], cl, last_loc(s), 'a new connection closes another one')
    Y = Tcp(I, rep)
    st = Y.st
    for k in range(110 if rep.tier == 'thorough' else 40):
        n = st.ntrace
        try:
            st = Y.connect(st)
        except Missing as e:
            for s in Y.dropped:
                must_not(rep, R, s, [], cl, last_loc(s), 'a new connection closes another one or itself when there are %d of them' % (k + 2))
            if not Y.dropped:
                must_not(rep, R, st, [], cl, last_loc(st), 'the connection after %d others is not accepted' % (k + 2))
            return
        if Y.dropped:
            s = Y.dropped[0]
            must_not(rep, R, s, [], cl, last_loc(s), 'a new connection closes another one when there are %d of them' % (k + 2))
            return
        st.trace, st.ntrace = None, 0
    # one pass in which several of them and a new one are ready
    link = {None: (Lin(8), None, 'stall')}
    for cs in (Y.clients[:1], Y.clients[:3], Y.clients[-2:]):
        s0 = st.fork()
        for c in cs:
            s0.facts = s0.facts.add('eq', Y.length(c, 4) - 2)
        for ready in ((Y.listener,) + tuple(cs), tuple(cs) + (Y.listener,)):
            for s, v in Y.run(s0, ready, link):
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], cl, last_loc(s), 'a pass with several ready connections ends the server with %s' % exc_name(I, s, v))
                    continue
                new = [e.d['ret'] for e in ios(s, 0, ('accept',))]
                lost = [c for c in Y.clients if closed(s, c)]
                w = watched(Y, s)
                if lost:
                    must_not(rep, R, s, [], cl, last_loc(s), 'a pass with several ready connections closes one of them')
                elif any(c not in q and not closed(s, c) for q in w for c in Y.clients + new + [Y.listener]):
                    must_not(rep, R, s, [], cl, last_loc(s), 'a connection is not watched after a pass with several ready connections')
                else:
                    rep.ok(R)


    # one of many goes, or fails
    for i in (0, len(Y.clients) // 2, len(Y.clients) - 1):
        c = Y.clients[i]
        s0 = st.fork()
        s0.facts = s0.facts.add('eq', Y.length(c, 4) - 2)
        for lk, faults, what in (((ZERO, None, 'eof'), (), 'closes'), ((Lin(3), None, 'eof'), (), 'closes within a request'), ((Lin(8), None, 'stall'), ('io:sendall', 'io:send'), 'cannot be answered'),
                                 ((ZERO, None, 'stall'), ('io:recv', 'io:peek'), 'cannot be read')):
            for s, v in Y.run(s0, (c,), {c: lk, None: (Lin(8), None, 'stall')}, faults):
                if endless(Y, s, cl, what, R):
                    continue
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], cl, last_loc(s), 'one of %d clients %s: ends the server with %s' % (len(Y.clients), what, exc_name(I, s, v)))
                    continue
                lost = [d for d in Y.clients + [Y.listener] if d != c and closed(s, d)]
                if lost:
                    must_not(rep, R, s, [], cl, last_loc(s), 'one of %d clients %s: closes %s' % (len(Y.clients), what, 'the listening socket' if Y.listener in lost else 'the connection of another one'))
                elif any(d not in q for q in watched(Y, s) for d in Y.clients + [Y.listener] if d != c):
                    must_not(rep, R, s, [], cl, last_loc(s), 'one of %d clients %s: another connection is not watched any more' % (len(Y.clients), what))
                else:
                    rep.ok(R)


class Rtu(object):
    MOD, CLS = 'modbus_tk.modbus_rtu', 'RtuServer'

    def __init__(self, I, rep, started, opened=FALSE):
        self.I, self.rep = I, rep
        I.cfg = Config()
        st, self.port = serial_port(I, I.new_state(), opened=opened)
        st, self.srv = only(call(I, st, need(I, self.MOD, self.CLS), [self.port], {}, mod=self.MOD), self.CLS)
        I.cfg = Config(events=9)
        if started:
            st, _ = only(callm(I, st, self.srv, 'start'), 'start')
        st, _ = only(callm(I, st, self.srv, '_do_init'), '_do_init')
        self.st, self.n = st, st.ntrace
        self.clients, self.listener = [], None

    run = Tcp.run

    def serves(self, R, s, v, cl, what, passes=2):
        rep, I = self.rep, self.I
        if endless(self, s, cl, what):
            return
        if isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), '%s: ends the server with %s' % (what, exc_name(I, s, v)))
            return
        p = s.getext(('pos', self.port))
        p = p.l if p is not None else ZERO
        cur = [(s, None)]
        n = s.ntrace
        for _ in range(passes):
            nxt = []
            for s1, _ in cur:
                if handled(s1, n):
                    nxt.append((s1, None))
                    continue
                for s2, v2 in self.run(s1, (), {None: (p + 8, None, 'eof')}):
                    if endless(self, s2, cl, what + ', then a request'):
                        continue
                    if isinstance(v2, Exc):
                        must_not(rep, R, s2, [], cl, last_loc(s2), '%s: the next request ends the server with %s' % (what, exc_name(I, s2, v2)))
                    else:
                        nxt.append((s2, None))
            cur = nxt
        for s2, _ in cur:
            hs = handled(s2, n)
            if len(hs) != 1:
                must_not(rep, R, s2, [], cl, last_loc(s2), '%s: the requests that follow are not handled any more' % what)
            elif hs[0].d['req'] is not None and hs[0].d['req'] != Bs((('sl', 'in(%r)' % self.port, p, Lin(8)),)):
                same_bytes(rep, R, At(s2, hs[0].facts), hs[0].d['req'], Bs((('sl', 'in(%r)' % self.port, p, Lin(8)),)), cl, hs[0].loc,
                           '%s: the following request is not handled as it was received' % what)
            else:
                rep.ok(R)


def c25_rtu(I, rep):
    R = 'server-goes-on'
    cl = 'RtuServer._do_run'
    for started in (True, False):
        try:
            X = Rtu(I, rep, started)
        except Missing as e:
            rep.und(R, str(e))
            continue
        for n in (0, 1, 8, 300):
            for ans in ('answer', 'empty', 'raise'):
                for faults, hooks, what in (((), None, ''), (IOF, None, ' and a failing port'), ((), BAD, ' and failing hooks'),
                                            (('io:read', 'io:open'), None, ' and a port that cannot be read nor reopened'),
                                            (('io:write',), BAD, ' and failing writes and hooks')):
                    if n in (0, 300) and ans != 'answer':
                        continue
                    w = '%d bytes%s%s' % (n, {'answer': '', 'empty': ' without an answer', 'raise': ' that cannot be handled'}[ans], what)
                    for s, v in X.run(X.st, (), {None: (Lin(n), None, 'eof')}, faults, hooks, (ans,)):
                        X.serves(R, s, v, cl, w)
    loop(I, rep, 'rtu')


# ------------------------------------------------------------------ the thread
def life(I, kind):
    I.cfg = Config()
    st = I.new_state()
    if kind == 'rtu':
        st, port = serial_port(I, st)
        st, srv = only(call(I, st, need(I, Rtu.MOD, Rtu.CLS), [port], {}, mod=Rtu.MOD), Rtu.CLS)
        return st, srv, port
    st, srv = make_server(I, st, Tcp.MOD, Tcp.CLS, 'tcp')
    return st, srv, None


def thread_of(s, n):
    """the thread object started since"""
    t = [e for e in s.events()[n:] if e.kind == 'thread' and e.d['op'] == 'start']
    return t[-1].d['obj'] if t else None


def target(I, s, t):
    o = s.get(t.oid)
    a = dict(o.attrs)
    f = a.get('$target')
    args = a.get('$args')
    if f is None:
        raise Missing('the target of the thread')
    q = []
    if args is not None:
        for s2, x in I.as_seq(s, args, top(I, Tcp.MOD), None):
            q = x.items() or []
    return f, q


def start(I, rep, st, srv):
    I.cfg = Config(events=9)
    n = st.ntrace
    out = []
    for s, v in callm(I, st.fork(), srv, 'start'):
        rep.paths += 1
        functions(rep, s)
        out.append((s, v, thread_of(s, n)))
    I.cfg = Config()
    return out


def run_thread(I, rep, s, t, k, **kw):
    """the thread runs; it is told to stop after k passes"""
    f, args = target(I, s, t)
    o = s.fork()
    # tests of the flag since the start count
    for key in [x for x in o.ext if isinstance(x, tuple) and x[0] == 'tests']:
        o.setext(key, N(0))
    I.cfg = Config(events=k, peel=700, **kw)
    outs = I.call(o, f, list(args), {}, top(I, Tcp.MOD), None)
    I.cfg = Config()
    for s2, v in outs:
        rep.paths += 1
        functions(rep, s2)
    return outs


def stub_run(what=('none',)):
    def f(I, st, args, kw, fr, node):
        outs = []
        for w in what:
            s = st.fork()
            I.emit(s, 'pass', fr, node)
            outs.append((s, NONE if w == 'none' else I.any_exc(s)))
        return outs
    return f


def method_qual(I, st, srv, name):
    o = st.get(srv.oid)
    a = I.class_attr(st, o.cls, name)
    if a is None or not isinstance(a[0], Fn):
        raise Missing(name)
    return a[0].qual


def loop(I, rep, kind):
    """the thread calls the pass as long as it is not told to stop"""
    R = 'server-goes-on'
    st, srv, port = life(I, kind)
    try:
        q = method_qual(I, st, srv, '_do_run')
        for s, v, t in start(I, rep, st, srv):
            cl = 'Server.start'
            if isinstance(v, Exc) or t is None:
                must_not(rep, R, s, [], cl, last_loc(s), 'start does not start a thread')
                continue
            for k in (0, 1, 2, 5):
                for s2, v2 in run_thread(I, rep, s, t, k, stubs={q: stub_run()}):
                    n = len([e for e in s2.events() if e.kind == 'pass'])
                    if endless_plain(rep, R, s2, 'Server._run_server'):
                        continue
                    if isinstance(v2, Exc):
                        must_not(rep, R, s2, [], 'Server._run_server', last_loc(s2), 'the thread fails with %s although nothing went wrong' % exc_name(I, s2, v2))
                    elif n < k or (k and n == 0):
                        must_not(rep, R, s2, [], 'Server._run_server', last_loc(s2), 'the server ends after %d passes although it was not stopped' % n)
                    elif n > k + 1:
                        must_not(rep, 'stops', s2, [], 'Server._run_server', last_loc(s2), 'the server does not stop when it is told to')
                    else:
                        rep.ok(R)
    except Missing as e:
        rep.und(R, str(e))


def endless_plain(rep, R, s, cl):
    if 'stuck' in s.flags:
        at = At(s, s.facts)
        at.flags = frozenset(x for x in at.flags if x != 'stuck')
        must_not(rep, R, at, [], cl, last_loc(s), 'loops for ever')
        return True
    return False


def c25(I, rep):
    c25_tcp(I, rep)
    c25_rtu(I, rep)


# ------------------------------------------------------------------ C26
def sockets(s):
    """sockets opened on a path, in order"""
    out = []
    for e in flat(s.events()):
        if e.kind == 'io' and e.d['op'] in ('socket', 'accept', 'create_connection') and isinstance(e.d['ret'], Ref) and e.d['ret'] not in out:
            out.append(e.d['ret'])
    return out


def everything(I, s, items):
    return list(items)


def released(I, rep, R, s, kind, port, cl, what):
    if vague(s):
        rep.und(R, '%s: %s' % (cl, vague(s)))
        return False
    if kind == 'tcp':
        l = [r for r in sockets(s) if not closed(s, r)]
        if l:
            acc = [e for e in flat(s.events()) if e.kind == 'io' and e.d['op'] == 'accept' and e.d['ret'] in l]
            must_not(rep, R, s, [], cl, last_loc(s), '%s: %s is not closed when the thread ends' % (what, 'a connection' if acc else 'the listening socket'))
            return False
    else:
        v = dict(s.get(port.oid).attrs).get('is_open')
        if v != FALSE:
            must_not(rep, R, s, [], cl, last_loc(s), '%s: the port is not closed when the thread ends' % what, [v])
            return False
    rep.ok(R)
    return True


def restart(I, rep, R, s, srv, kind, port, cl, what, old):
    q = method_qual(I, s, srv, '_do_run')
    for s2, v, t in start(I, rep, s, srv):
        if isinstance(v, Exc):
            must_not(rep, R, s2, [], cl, last_loc(s2), '%s: cannot be started again (%s)' % (what, exc_name(I, s2, v)))
            continue
        if t is None or t == old:
            must_not(rep, R, s2, [], cl, last_loc(s2), '%s: starting again starts no new thread' % what)
            continue
        n = s2.ntrace
        for s3, v3 in run_thread(I, rep, s2, t, 1, stubs={q: stub_run()}):
            ps = [i for i, e in enumerate(s3.events()) if i >= n and e.kind == 'pass']
            if not ps:
                must_not(rep, R, s3, [], cl, last_loc(s3), '%s: does not run when it is started again' % what)
                continue
            before = list(flat(s3.events()[n:ps[0]]))
            if kind == 'tcp':
                b = [e for e in before if e.kind == 'io' and e.d['op'] == 'listen']
                bad = [e for e in before if e.kind == 'io' and e.d['op'] == 'close' and b and e.d['recv'] == b[-1].d['recv']]
                new = b and any(e.kind == 'io' and e.d['op'] == 'socket' and e.d['ret'] == b[-1].d['recv'] for e in before)
                if not b or bad or not new:
                    must_not(rep, R, s3, [], cl, last_loc(s3), '%s: does not listen on a new socket when it is started again' % what)
                    continue
            else:
                o = [e for e in before if e.kind == 'io' and e.d['op'] in ('open', 'close')]
                if not o or o[-1].d['op'] != 'open':
                    must_not(rep, R, s3, [], cl, last_loc(s3), '%s: does not open the port when it is started again' % what)
                    continue
            rep.ok(R)
            released(I, rep, R, s3, kind, port, cl, what + ', started again and stopped')
        # and really serves
        for s3, v3 in run_thread(I, rep, s2, t, 1, ready=everything, link={None: (ZERO, 1, 'stall' if kind == 'tcp' else 'eof')}, stubs=STUBS):
            if [e for e in s3.events()[n:] if e.kind == 'badselect']:
                must_not(rep, R, s3, [], cl, last_loc(s3), '%s: still watches a closed socket when it is started again' % what)
            elif kind == 'tcp' and not ios(s3, n, ('accept',)):
                must_not(rep, R, s3, [], cl, last_loc(s3), '%s: accepts no connection when it is started again' % what)
            else:
                rep.ok(R)


def c26(I, rep):
    R = 'released'
    for kind in ('tcp', 'rtu'):
        try:
            st, srv, port = life(I, kind)
            q = method_qual(I, st, srv, '_do_run')
            cl = '%s thread' % (Tcp.CLS if kind == 'tcp' else Rtu.CLS)
            for s, v, t in start(I, rep, st, srv):
                if isinstance(v, Exc) or t is None:
                    must_not(rep, R, s, [], 'Server.start', last_loc(s), 'start does not start a thread')
                    continue
                ops = ('io:socket', 'io:bind', 'io:listen', 'io:setsockopt', 'io:open')
                runs = [((), BAD, {}, 0, 'stopped at once'), ((), None, {}, 3, 'stopped'),
                        (ops, None, {'stubs': {q: stub_run()}}, 1, 'starting failed'),
                        (ops, BAD, {'stubs': {q: stub_run()}}, 1, 'starting and a hook failed'),
                        ((), None, {'stubs': {q: stub_run(('none', 'exc'))}}, 2, 'running failed'),
                        ((), BAD, {'stubs': {q: stub_run(('exc',))}}, 2, 'running and a hook failed'),
                        (('io:select', 'io:accept', 'io:recv', 'io:peek', 'io:read', 'io:sendall'), None, {}, 3, 'input or output failed'),
                        ((), BAD, {}, 2, 'hooks failed')]
                if kind == 'tcp':
                    runs.append((('io:close', 'io:shutdown'), None, {}, 2, 'closing a connection failed'))
                for faults, hooks, extra, k, what in runs:
                    kw = dict(faults=faults, hooks=hooks or {}, ready=everything, link={None: (Lin(1), 1, 'stall')} if kind == 'tcp' else {None: (ZERO, 1, 'eof')})
                    if 'stubs' not in extra:
                        kw['stubs'] = STUBS
                    kw.update(extra)
                    for s2, v2 in run_thread(I, rep, s, t, k, **kw):
                        if endless_plain(rep, R, s2, cl):
                            continue
                        if released(I, rep, R, s2, kind, port, cl, what):
                            restart(I, rep, R, s2, srv, kind, port, cl, what, t)
                stopping(I, rep, s, srv, t, q, kind, port)
                if kind == 'rtu':
                    unblocks(I, rep, s, srv, port)
            # stop without a running thread
            I.cfg = Config(events=9, alive=False)
            for s, v in callm(I, st.fork(), srv, 'stop'):
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], 'Server.stop', last_loc(s), 'stop of a server that was not started raises %s' % exc_name(I, s, v))
                else:
                    restart(I, rep, R, s, srv, kind, port, 'Server.stop', 'stop without start', None)
            I.cfg = Config()
        except Missing as e:
            rep.und(R, str(e))


def stopping(I, rep, st, srv, t, q, kind, port):
    """stop of a running server"""
    R = 'stop-waits'
    cl = 'Server.stop'
    n = st.ntrace

    def ends(I2, s):
        """the thread runs to its end at this point"""
        cfg = I2.cfg
        outs = run_thread(I2, rep, s, t, 0, stubs={q: stub_run()})
        I2.cfg = cfg
        r = []
        for s2, v in outs:
            s2 = s2.fork()
            s2.emit(Ev('ended', {}, '', s2.facts, s2.locks, '', ()))
            r.append(s2)
        return r

    for point in (None, 'clear', 'alive'):
        I.cfg = Config(events=9, alive=True, switch={point: ends} if point else {})
        outs = callm(I, st.fork(), srv, 'stop')
        I.cfg = Config()
        for s, v in outs:
            rep.paths += 1
            functions(rep, s)
            evs = s.events()[n:]
            if isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'raises %s%s' % (exc_name(I, s, v), ' when the thread ends at the same time' if point else ''))
                continue
            joins = [i for i, e in enumerate(evs) if e.kind == 'thread' and e.d['op'] == 'join' and e.d['obj'] == t]
            timed = [i for i in joins if [a for a in evs[i].d.get('args', ()) if a != NONE]]
            if not joins or len(timed) == len(joins):
                must_not(rep, R, s, [], cl, last_loc(s), 'returns before the thread has ended')
                continue
            told = [i for i, e in enumerate(evs) if e.kind == 'event' and e.d['op'] == 'clear']
            if not told or told[0] > joins[0]:
                # another way of telling it
                ps = [len([e for e in s2.events()[s.ntrace:] if e.kind == 'pass']) for s2, v2 in run_thread(I, rep, s, t, 5, stubs={q: stub_run()})]
                if told or (ps and min(ps) > 1):
                    must_not(rep, R, s, [], cl, last_loc(s), 'waits for the thread before it is told to stop')
                    continue
            if point is None:
                for s2, v2 in run_thread(I, rep, s, t, 5, stubs={q: stub_run()}):
                    ps = [e for e in s2.events()[s.ntrace:] if e.kind == 'pass']
                    if len(ps) > 1:
                        must_not(rep, R, s2, [], cl, last_loc(s), 'the thread goes on running: it waits for ever')
                        break
                    released(I, rep, 'released', s2, kind, port, cl, 'stop')
                else:
                    rep.ok(R)
            else:
                released(I, rep, 'released', s, kind, port, cl, 'stop')
                rep.ok(R)


def waits(I, s, srv, port):
    """the server may wait without limit for a byte when it makes a pass in this state"""
    cfg = I.cfg
    I.cfg = Config(events=9, peel=4, stubs=STUBS, watch=('timeout',), link={None: (ZERO, None, 'eof')})
    o = s.fork()
    o.trace, o.ntrace = None, 0
    outs = callm(I, o, srv, '_do_run')
    I.cfg = cfg
    for s2, v in outs:
        cur = dict(s.get(port.oid).attrs).get('timeout')
        for e in flat(s2.events()):
            if e.kind == 'setattr' and e.d['obj'] == port and e.d['name'] == 'timeout':
                cur = e.d['value']
            elif e.kind in ('io', 'iofail') and e.d['op'] == 'read' and cur == NONE:
                return True
    return False


def unblocks(I, rep, st, srv, port):
    """stop wakes a server that waits for its first byte, and it does not wait again"""
    R = 'stop-wakes'
    cl = 'RtuServer.stop'

    def mark(kind):
        def f(I2, s):
            s = s.fork()
            w = waits(I2, s, srv, port)
            s.emit(Ev(kind, {'waits': w}, '', s.facts, s.locks, '', ()))
            return [s]
        return f
    I.cfg = Config(events=9)
    outs = callm(I, st.fork(), srv, '_do_init')
    I.cfg = Config()
    for s, v in outs:
        if isinstance(v, Exc):
            continue
        if not waits(I, s, srv, port):
            # never waits without limit
            rep.ok(R)
            continue
        n = s.ntrace
        I.cfg = Config(events=9, alive=True, switch={'join': mark('atjoin'), 'cancel_read': mark('atcancel')})
        outs2 = callm(I, s.fork(), srv, 'stop')
        I.cfg = Config()
        for s2, v2 in outs2:
            if isinstance(v2, Exc):
                continue
            evs = s2.events()[n:]
            joins = [i for i, e in enumerate(evs) if e.kind == 'atjoin']
            if not joins:
                continue
            woken = [i for i, e in enumerate(evs[:joins[0]]) if e.kind == 'atcancel' and not e.d['waits']
                     or e.kind == 'io' and e.d['op'] == 'close' and e.d['recv'] == port]
            early = [i for i, e in enumerate(evs[:joins[0]]) if e.kind == 'atcancel']
            if evs[joins[0]].d['waits']:
                must_not(rep, R, s2, [], cl, last_loc(s2), 'waits for a thread that may wait for a byte without limit')
            elif not woken:
                must_not(rep, R, s2, [], cl, last_loc(s2), 'wakes the thread before it is told not to wait again' if early else
                         'waits for a thread that waits for a byte, without waking it')
            else:
                rep.ok(R)
