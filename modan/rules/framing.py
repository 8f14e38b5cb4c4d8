"""C19, C20, C21, C22: what the transports put around a PDU and what they accept."""
from ..drive import *
from ..drive import SlaveEnv, pdu_fc, exc_name, exc_is, only, call, callm, need
from ..bytesops import bs_int, bs_byte, bs_region
from ..models import crc_atom
from ..lin import literal_not
from .base import *
from .bank import MB, stubs_for, hookexc, nothing, SILENT, SETITEM, earlier_requests, handled
from .locks import mutated, aged_counter, TCP

RTU = 'modbus_tk.modbus_rtu'
N16 = 65535


def anybytes(name):
    """any byte string"""
    n = sym('len(%s)' % name, 0, None, deps=frozenset([name]))
    return Bs((('sl', name, ZERO, n),)), n


def new_query(I, mod, cls, st=None):
    I.cfg = Config()
    st, q = only(call(I, st or I.new_state(), need(I, mod, cls), [], mod=mod), cls + '()')
    st.trace, st.ntrace = None, 0
    return st, q


def invalid_arg(I, s, v):
    return exc_is(I, s, v, need(I, 'modbus_tk.exceptions', 'InvalidArgumentError'))


def unit_refused(I, rep, R, s, v, u, name, loc):
    """an exception is InvalidArgumentError for a unit outside 0..255, and never hits a valid unit; True when v is an outcome to look at"""
    for side in ([('ge', -u - 1)], [('ge', u - 256)]):
        if isinstance(v, Exc) and invalid_arg(I, s, v):
            rep.ok(R)
            continue
        must_not(rep, R, s, side, name, loc, '%s for a unit id outside 0-255' % (
            'raises %s instead of InvalidArgumentError' % exc_name(I, s, v) if isinstance(v, Exc) else 'builds a request'))


# ------------------------------------------------------------------ C19
def tcp_frame(tid, proto, n, u, pdu):
    return Bs((('pk', 2, '>', tid), ('pk', 2, '>', proto), ('pk', 2, '>', n), ('pk', 1, '>', u)) + tuple(pdu.segs))


def aged_tid(I, st, q):
    """state in which the transaction id counter has any value"""
    base = I.new_state()
    cont, attr = set(), set()
    I.cfg = Config()
    for s, v in callm(I, st.fork(), q, 'build_request', [pdu_fc(3), N(1)]):
        c, a = mutated(I, s, base)
        cont |= c
        attr |= a
    return aged_counter(st, attr)


def c19(I, rep):
    R, RT = 'request-header', 'transaction-id'
    st, q = new_query(I, TCP, 'TcpQuery')
    pdu, n = anybytes('pdu')
    u = sym('unit')
    cl = 'TcpQuery.build_request'
    for aged in (False, True):
        s0 = aged_tid(I, st, q) if aged else st
        # a query that was already used for another request
        for again in (False, True):
            states = [(s0.fork(), None)]
            prev = None
            if again:
                I.cfg = Config()
                other, m = anybytes('pdu0')
                states = []
                for s, v in callm(I, s0.fork(), q, 'build_request', [other, N(sym('unit0', 0, 255))]):
                    if not isinstance(v, Exc):
                        states.append((s, I.as_bytes(s, v)))
            for s1, first in states:
                s1.trace, s1.ntrace = None, 0
                q2s = [q]
                I.cfg = Config()
                if again:
                    s1b, q2 = only(call(I, s1.fork(), need(I, TCP, 'TcpQuery'), [], mod=TCP), 'TcpQuery()')
                    runs = [(s1, q), (s1b, q2)]
                else:
                    runs = [(s1, q)]
                for s2, qq in runs:
                    I.cfg = Config()
                    for s, v in callm(I, s2.fork(), qq, 'build_request', [pdu, N(u)]):
                        rep.paths += 1
                        functions(rep, s)
                        loc = last_loc(s)
                        unit_refused(I, rep, R, s, v, u, cl, loc)
                        ok = [('ge', u), ('ge', Lin(255) - u), ('ge', Lin(N16 - 1) - n)]
                        if isinstance(v, Exc):
                            must_not(rep, R, s, ok, cl, loc, 'raises %s for a valid unit id and PDU' % exc_name(I, s, v))
                            continue
                        got = I.as_bytes(s, v)
                        f = s.facts.add_all(ok)
                        if f is None or not f.feasible():
                            continue
                        if got is None or anyimp(got):
                            rep.und(R, '%s: %s' % (cl, str(v)[:120]))
                            continue
                        if not f.entails_ge(got.length() - 7):
                            must_equal(rep, R, s, got.length(), n + 7, cl, loc, 'the request is not header and PDU', ok)
                            continue
                        tid = bs_int(got, ZERO, 2, False, '>', f)
                        if tid is None:
                            rep.und(R, '%s: transaction id not understood' % cl)
                            continue
                        same_bytes(rep, R, s, got, tcp_frame(tid, ZERO, n + 1, u, pdu), cl, loc,
                                   'the request is not transaction id, 0, length, unit id and PDU', ok)
                        if again and first is not None:
                            t0 = bs_int(first, ZERO, 2, False, '>', f)
                            if t0 is None:
                                rep.und(RT, '%s: first transaction id not understood' % cl)
                                continue
                            for lits, want in (([('ge', Lin(N16 - 1) - t0)], t0 + 1), ([('ge', t0 - N16)], ZERO)):
                                must_equal(rep, RT, s, tid, want, cl, loc, 'the transaction id is not the successor of the previous one', ok + lits)


# ------------------------------------------------------------------ C20
def c20(I, rep):
    R, R2 = 'response-match', 'request-length'
    st, q = new_query(I, TCP, 'TcpQuery')
    pdu, n = anybytes('pdu')
    u = sym('unit', 0, 255)
    cl = 'TcpQuery.parse_response'
    for again in (False, True, 'between'):
        s0 = aged_tid(I, st, q)
        if again is True:
            # the same query object, used for another exchange before
            s0 = exchanged(I, s0, q, 'master')
        I.cfg = Config()
        for s, v in callm(I, s0.fork(), q, 'build_request', [pdu, N(u)]):
            if isinstance(v, Exc):
                continue
            req = I.as_bytes(s, v)
            resp, m = anybytes('resp')
            if again == 'between':
                s = meanwhile(I, s, TCP, 'TcpQuery')
            I.cfg = Config()
            tid = bs_int(req, ZERO, 2, False, '>', s.facts) if req is not None else None
            s.trace, s.ntrace = None, 0
            for s2, v2 in callm(I, s.fork(), q, 'parse_response', [resp]):
                rep.paths += 1
                functions(rep, s2)
                loc = last_loc(s2)
                if tid is None:
                    rep.und(R, '%s: request not understood' % cl)
                    continue
                want = [('ge', m - 7)]
                checks = [('transaction id', ('eq', fld('resp', ZERO, 2, False, '>') - tid)), ('protocol id', ('eq', fld('resp', Lin(2), 2, False, '>'))),
                          ('length', ('eq', fld('resp', Lin(4), 2, False, '>') - m + 6)), ('unit id', ('eq', fld('resp', Lin(6), 1, False, '>') - u))]
                if isinstance(v2, Exc):
                    must_not(rep, R, s2, want + [c[1] for c in checks], cl, loc, 'refuses a matching response (%s)' % exc_name(I, s2, v2))
                    continue
                if must_be(rep, R, s2, want[0], cl, loc, 'accepts a response of less than 7 bytes') is False:
                    continue
                for what, lit in checks:
                    must_be(rep, R, s2, lit, cl, loc, 'accepts a response with another %s' % what, extra=want)
                same_bytes(rep, R, s2, I.as_bytes(s2, v2), Bs((('sl', 'resp', Lin(7), m - 7),)), cl, loc, 'does not return the PDU of the response', want)
    # server
    cl = 'TcpQuery.parse_request'
    st, q = new_query(I, TCP, 'TcpQuery')
    for again in (False, True):
        s0 = exchanged(I, st, q, 'server') if again else st
        req, m = anybytes('req')
        I.cfg = Config()
        for s, v in callm(I, s0.fork(), q, 'parse_request', [req]):
            rep.paths += 1
            functions(rep, s)
            parsed(I, rep, R2, s, v, cl, m, [('ge', m - 7), ('eq', fld('req', Lin(4), 2, False, '>') - m + 6)],
                   ['accepts a request of less than 7 bytes', 'accepts a request whose length field does not match its size'],
                   fld('req', Lin(6), 1, False, '>'), Bs((('sl', 'req', Lin(7), m - 7),)))


def meanwhile(I, st, mod, cls):
    """state after another query of the same class did whole exchanges of both roles"""
    I.cfg = Config()
    st, q = only(call(I, st.fork(), need(I, mod, cls), [], mod=mod), cls + '()')
    return exchanged(I, exchanged(I, st, q, 'master'), q, 'server')


def exchanged(I, st, q, role):
    """state after the query object was used for another request and response"""
    I.cfg = Config()
    pdu, n = anybytes('oldpdu')
    steps = {'server': (('parse_request', [anybytes('oldreq')[0]]), ('build_response', [pdu])),
             'master': (('build_request', [pdu, N(sym('oldunit', 0, 255))]), ('parse_response', [anybytes('oldresp')[0]]))}
    for m, args in steps[role]:
        outs = [(s, v) for s, v in callm(I, st.fork(), q, m, args) if not isinstance(v, Exc) and s.facts.feasible()]
        if outs:
            st = outs[0][0]
    st.trace, st.ntrace = None, 0
    return st


def parsed(I, rep, R, s, v, cl, m, conds, msgs, unit, pdu):
    """outcome of parse_request: (unit, pdu) exactly under the conditions"""
    loc = last_loc(s)
    if isinstance(v, Exc):
        must_not(rep, R, s, conds, cl, loc, 'refuses a well-formed request (%s)' % exc_name(I, s, v))
        return
    seen = []
    for lit, msg in zip(conds, msgs):
        if must_be(rep, R, s, lit, cl, loc, msg, extra=seen) is False:
            return
        seen = seen + [lit]
    q = v if isinstance(v, Sq) else None
    items = [x[1] for x in q.segs if x[0] == 'item'] if q is not None else []
    if len(items) != 2 or num(items[0]) is None:
        rep.und(R, '%s: result not understood: %s' % (cl, str(v)[:100]))
        return
    must_equal(rep, R, s, num(items[0]), unit, cl, loc, 'does not return the address of the request', seen)
    same_bytes(rep, R, s, I.as_bytes(s, items[1]), pdu, cl, loc, 'does not return the PDU of the request', seen)


# ------------------------------------------------------------------ C21
def crc_field(name, m):
    return fld(name, m - 2, 2, False, '>')


def crc_of(bs):
    return crc_atom(bs)


def rtu_frame(u, pdu):
    data = Bs((('pk', 1, '>', u),) + tuple(pdu.segs))
    return Bs(tuple(data.segs) + (('pk', 2, '>', crc_of(data)),))


def c21(I, rep):
    R = 'rtu-frame'
    st0, q = new_query(I, RTU, 'RtuQuery')
    pdu, n = anybytes('pdu')
    u = sym('unit')
    for again in (False, True, 'between'):
        st = exchanged(I, st0, q, 'master') if again is True else st0
        I.cfg = Config()
        cl = 'RtuQuery.build_request'
        for s, v in callm(I, st.fork(), q, 'build_request', [pdu, N(u)]):
            rep.paths += 1
            functions(rep, s)
            loc = last_loc(s)
            unit_refused(I, rep, R, s, v, u, cl, loc)
            ok = [('ge', u), ('ge', Lin(255) - u)]
            if isinstance(v, Exc):
                must_not(rep, R, s, ok, cl, loc, 'raises %s for a valid address' % exc_name(I, s, v))
                continue
            same_bytes(rep, R, s, I.as_bytes(s, v), rtu_frame(u, pdu), cl, loc, 'the request is not address, PDU and CRC', ok)
            s1 = s.fork()
            s1.facts = s1.facts.add_all(ok)
            if s1.facts is None:
                continue
            if again == 'between':
                s1 = meanwhile(I, s1, RTU, 'RtuQuery')
            s1.trace, s1.ntrace = None, 0
            resp, m = anybytes('resp')
            cl2 = 'RtuQuery.parse_response'
            I.cfg = Config()
            for s2, v2 in callm(I, s1, q, 'parse_response', [resp]):
                rep.paths += 1
                functions(rep, s2)
                loc2 = last_loc(s2)
                conds = [('ge', m - 3), ('eq', fld('resp', ZERO, 1, False, '>') - u),
                         ('eq', crc_field('resp', m) - crc_of(Bs((('sl', 'resp', ZERO, m - 2),))))]
                if isinstance(v2, Exc):
                    must_not(rep, R, s2, conds, cl2, loc2, 'refuses a matching response (%s)' % exc_name(I, s2, v2))
                    continue
                seen = []
                for lit, msg in zip(conds, ('accepts a frame of less than 3 bytes', 'accepts a response of another address',
                                            'accepts a response with a wrong CRC')):
                    if must_be(rep, R, s2, lit, cl2, loc2, msg, extra=seen) is False:
                        break
                    seen = seen + [lit]
                else:
                    same_bytes(rep, R, s2, I.as_bytes(s2, v2), Bs((('sl', 'resp', ONE, m - 3),)), cl2, loc2, 'does not return the PDU of the response', seen)
        cl = 'RtuQuery.parse_request'
        st = exchanged(I, st0, q, 'server') if again is True else st0
        req, m = anybytes('req')
        I.cfg = Config()
        for s, v in callm(I, st.fork(), q, 'parse_request', [req]):
            rep.paths += 1
            functions(rep, s)
            parsed(I, rep, R, s, v, cl, m, [('ge', m - 3), ('eq', crc_field('req', m) - crc_of(Bs((('sl', 'req', ZERO, m - 2),))))],
                   ['accepts a frame of less than 3 bytes', 'accepts a request with a wrong CRC'],
                   fld('req', ZERO, 1, False, '>'), Bs((('sl', 'req', ONE, m - 3),)))
            if isinstance(v, Exc):
                continue
            cl3 = 'RtuQuery.build_response'
            rp, k = anybytes('rpdu')
            if again == 'between':
                s = meanwhile(I, s, RTU, 'RtuQuery')
            s.trace, s.ntrace = None, 0
            I.cfg = Config()
            for s3, v3 in callm(I, s.fork(), q, 'build_response', [rp]):
                rep.paths += 1
                loc3 = last_loc(s3)
                if isinstance(v3, Exc):
                    must_not(rep, R, s3, [], cl3, loc3, 'raises %s' % exc_name(I, s3, v3))
                    continue
                same_bytes(rep, R, s3, I.as_bytes(s3, v3), rtu_frame(fld('req', ZERO, 1, False, '>'), rp), cl3, loc3,
                           'the response is not address of the request, PDU and CRC')
    crc_rule(I, rep)


def crc_rule(I, rep):
    """the CRC function itself: CRC-16/MODBUS, low byte first, on symbolic bytes"""
    R = 'crc'
    U = 'modbus_tk.utils'
    f = need(I, U, 'calculate_crc')
    raw = {U + '.calculate_crc': lambda *a: NotImplemented}
    for n in (0, 1, 2, 3, 5):
        for form in ('bytes', 'bytearray'):
            data = Bs((('sl', 'data', ZERO, Lin(n)),)) if n else Bs(())
            I.cfg = Config(stubs=raw, budget=20000)
            st = I.new_state()
            arg = data
            if form == 'bytearray':
                st, arg = only(call(I, st, Ext('builtins.bytearray'), [data]), 'bytearray')
            try:
                outs = call(I, st, f, [arg], mod=U)
            except Budget:
                rep.und(R, 'calculate_crc: analysis budget exceeded for %d bytes' % n)
                continue
            for s, v in outs:
                rep.paths += 1
                functions(rep, s)
                loc = last_loc(s, default=('modbus_tk/utils.py', 0, U + '.calculate_crc'))
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], 'calculate_crc', loc, 'raises %s for %d bytes' % (exc_name(I, s, v), n))
                    continue
                crc_value(rep, R, s, num(v), n, loc)

    # any length: one step per byte
    data, n = anybytes('data')
    I.cfg = Config(stubs=raw, budget=20000)
    for s, v in call(I, I.new_state(), f, [data], mod=U):
        rep.paths += 1
        if isinstance(v, Exc):
            must_not(rep, R, s, [], 'calculate_crc', last_loc(s), 'raises %s' % exc_name(I, s, v))
            continue
        crc_loop(rep, R, s, num(v), n)


def crc_loop(rep, R, s, L, n):
    loops = [e for e in s.events() if e.kind == 'loop']
    if L is None or len(loops) != 1 or loops[0].p != 1 or len(loops[0].body['conts']) != 1:
        rep.und(R, 'calculate_crc: loop over the bytes not recognised')
        return
    e = loops[0]
    kat, st = e.k, e.body['conts'][0][2]
    import random
    r = random.Random(7)
    pts = [(h, 0) for h in range(256)] + [(0, b) for b in range(256)] + [(1 << i, 0) for i in range(16)]
    pts += [(r.randrange(65536), r.randrange(256)) for _ in range(1500)]
    for oid, o in sorted(st.heap.items(), key=lambda x: str(x[0])):
        if o.kind != 'env':
            continue
        for name, val in sorted(o.vars.items()):
            x = num(val)
            if x is None:
                continue
            ats = []
            evalx.inner(x, ats, set(), ('h', 'hl', 'fld', 'sym', 'opq'))
            hs = [a for a in ats if a.op == 'h']
            fs = [a for a in ats if a.op == 'fld']
            if len(hs) != 1 or len(fs) != 1 or len(ats) != 2 or fs[0].args[1] != lin(kat) + e.base or fs[0].args[2] != 1 or fs[0].args[3]:
                continue
            # the result has to be made of this very state
            rs = []
            evalx.inner(L, rs, set(), ('h',))
            if not rs or any(a.args[0] != hs[0].args[0] for a in rs):
                continue
            for h, b in pts:
                asg = evalx.Asg(0)
                asg.vals[hs[0].id] = h
                asg.vals[fs[0].id] = b
                try:
                    got = asg.lin(x)
                except evalx.Stuck as ex:
                    rep.und(R, 'calculate_crc: step not understood: %s' % ex)
                    return
                if got != step16(h, b):
                    rep.und(R, 'calculate_crc: the step is not that of CRC-16/MODBUS in this form')
                    return
            rep.ok(R, len(pts))
            v0 = e.body.get('start', {}).get(hs[0].args[0])
            if isinstance(v0, V) and num(v0) is not None:
                must_equal(rep, R, s, num(v0), Lin(0xffff), 'calculate_crc', e.loc if e.loc[0] else ('modbus_tk/utils.py', 0, ''), 'the CRC does not start with 0xFFFF')
            else:
                rep.und(R, 'calculate_crc: start value of the loop not recognised')
            must_equal(rep, R, s, e.count, n, 'calculate_crc', e.loc if e.loc[0] else ('modbus_tk/utils.py', 0, ''), 'not every byte enters the CRC')
            return
    rep.und(R, 'calculate_crc: step of the loop not recognised')


def step16(crc, b):
    crc ^= b
    for _ in range(8):
        crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return crc


def crc16(bs):
    crc = 0xffff
    for b in bs:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return ((crc & 0xff) << 8) | (crc >> 8)


def crc_value(rep, R, s, L, n, loc):
    """the derived form of the result against the polynomial, on all values of each byte position"""
    if L is None or lin_imp(L) or vague(s):
        rep.und(R, 'calculate_crc: result not tracked for %d bytes: %s' % (n, str(L)[:120]))
        return
    if n == 0:
        if L.is_const:
            if L.c != crc16(b''):
                rep.bad(R, 'calculate_crc', loc, 'the CRC of no bytes is %#x instead of %#x' % (L.c, crc16(b'')))
            else:
                rep.ok(R)
        return
    import random
    r = random.Random(n)
    samples = [bytes([b] + [0] * (n - 1)) for b in range(256)]
    samples += [bytes([r.randrange(256) for _ in range(n)]) for _ in range(512 if n == 2 else 128)]
    for b in samples:
        asg = evalx.Asg(0)
        for i, x in enumerate(b):
            asg.bytes[('data', i)] = x
        try:
            if not all(asg.literal(l) for l in s.facts.log):
                continue
            got = asg.lin(L)
        except evalx.Stuck as e:
            rep.und(R, 'calculate_crc: form not understood: %s' % e)
            return
        if got != crc16(b):
            rep.bad(R, 'calculate_crc', loc, 'the CRC of %s is %#06x instead of %#06x (bytes in wire order)' % (b.hex(), got, crc16(b)))
            return
    rep.ok(R, len(samples))


# ------------------------------------------------------------------ C22
def c22(I, rep):
    R = 'answer-frame'
    # the query alone
    req, m = anybytes('req')
    rp, k = anybytes('rpdu')
    for kind, mod, cls, again in [(k_, m_, c_, a_) for k_, m_, c_ in (('tcp', TCP, 'TcpQuery'), ('rtu', RTU, 'RtuQuery'))
                                  for a_ in (False, True, 'between')]:
        cl = cls + '.build_response'
        st0, q = new_query(I, mod, cls)
        st = exchanged(I, st0, q, 'server') if again is True else st0
        I.cfg = Config()
        for s, v in callm(I, st.fork(), q, 'parse_request', [req]):
            if isinstance(v, Exc):
                continue
            if again == 'between':
                s = meanwhile(I, s, mod, cls)
            s.trace, s.ntrace = None, 0
            I.cfg = Config()
            for s3, v3 in callm(I, s.fork(), q, 'build_response', [rp]):
                rep.paths += 1
                functions(rep, s3)
                loc = last_loc(s3)
                ok = [('ge', Lin(N16 - 1) - k)]
                if isinstance(v3, Exc):
                    must_not(rep, R, s3, ok, cl, loc, 'raises %s' % exc_name(I, s3, v3))
                    continue
                same_bytes(rep, R, s3, I.as_bytes(s3, v3), answer(kind, rp, k), cl, loc, 'the answer is not a frame for the request', ok)
    # the dispatch with both transports: normal, exception and failure answers
    hooks = {'*': ('none', 'exc:ME', 'exc:EX'), SETITEM: ('none',)}
    for n in SILENT:
        hooks[n] = ('none',)
    for kind, mod, cls in (('tcp', TCP, 'TcpQuery'), ('rtu', RTU, 'RtuQuery')):
        E = SlaveEnv(I, True, True, names='HOLDING_REGISTERS', bank=True)
        st, q = new_query(I, mod, cls, E.st.fork())
        off = 7 if kind == 'tcp' else 1
        unit = fld('req', Lin(off - 1), 1, False, '>')
        for fc in (1, 3, 6, 'other', 'short'):
            s0 = st.fork()
            lits = [] if fc == 'short' else [('eq', unit - E.sid)]
            lits.append(('ge', m - off - 1) if fc != 'short' else ('ge', Lin(off + 2) - m))
            F = fld('req', Lin(off), 1, False, '>')
            if fc in (1, 3, 6):
                lits.append(('eq', F - fc))
            elif fc == 'other':
                lits += [('ne', F - x) for x in (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)]
            s0.facts = s0.facts.add_all(lits)
            I.cfg = Config(hooks=hooks, hookexc=hookexc)
            cl = 'Databank.handle_request with %s FC %s' % (cls, fc)
            try:
                outs = callm(I, s0, E.bank, 'handle_request', [q, req])
            except Budget:
                rep.und(R, cl + ': analysis budget exceeded')
                continue
            for s, v in outs:
                rep.paths += 1
                functions(rep, s)
                loc = last_loc(s)
                if isinstance(v, Exc):
                    continue            # C09
                bad = ill_formed(kind, m)
                if nothing(I, s, v):
                    rep.ok(R)
                    continue
                for b in bad:
                    must_not(rep, R, s, b, cl, loc, 'answers a request that is not a valid frame')
                got = I.as_bytes(s, v)
                if got is None or anyimp(got):
                    rep.und(R, '%s: answer not tracked: %s' % (cl, str(v)[:100]))
                    continue
                frame_of_request(rep, R, s, got, kind, cl, loc)
    # the second request of a server
    hk = dict((x, ('none',)) for x in SILENT)
    hk['*'] = ('none',)
    for kind, mod, cls in (('tcp', TCP, 'TcpServer'), ('rtu', RTU, 'RtuServer')):
        cl = '%s._handle, second request' % cls
        for st, srv, ids, slaves, old, rq, u, same in earlier_requests(I, kind, mod, cls, 1):
            try:
                outs = list(handled(I, st, srv, old, rq, hk))
            except Budget:
                rep.und(R, cl + ': analysis budget exceeded')
                continue
            for s, v in outs:
                rep.paths += 1
                functions(rep, s)
                if isinstance(v, Exc):
                    continue
                if nothing(I, s, v):
                    rep.ok(R)
                    continue
                got = I.as_bytes(s, v)
                if got is None or anyimp(got):
                    rep.und(R, '%s: answer not tracked: %s' % (cl, str(v)[:100]))
                    continue
                frame_of_request(rep, R, s, got, kind, cl, last_loc(s))


def ill_formed(kind, m):
    if kind == 'tcp':
        return [[('ge', Lin(6) - m)], [('ge', m - 7), ('ne', fld('req', Lin(4), 2, False, '>') - m + 6)]]
    return [[('ge', Lin(2) - m)], [('ge', m - 3), ('ne', crc_field('req', m) - crc_of(Bs((('sl', 'req', ZERO, m - 2),))))]]


def answer(kind, pdu, k):
    if kind == 'tcp':
        return tcp_frame(fld('req', ZERO, 2, False, '>'), fld('req', Lin(2), 2, False, '>'), k + 1, fld('req', Lin(6), 1, False, '>'), pdu)
    return rtu_frame(fld('req', ZERO, 1, False, '>'), pdu)


def frame_of_request(rep, R, s, got, kind, cl, loc):
    """got is a whole frame, whatever its PDU"""
    n = got.length()
    head, tail = (7, 0) if kind == 'tcp' else (1, 2)
    if must_be(rep, R, s, ('ge', n - head - tail - 1), cl, loc, 'the answer is no frame with a PDU') is not True:
        return
    f = s.facts
    pdu = bs_region(got, Lin(head), n - tail, f)
    if anyimp(pdu):
        rep.und(R, '%s: PDU of the answer not understood' % cl)
        return
    same_bytes(rep, R, s, got, answer(kind, pdu, n - head - tail), cl, loc, 'the answer is not a frame for the request')


def bs_part(got, head, tail, f):
    """got without its first and last bytes; None when it is not that long or not tracked"""
    n = got.length()
    if not f.entails_ge(n - head - tail):
        return None
    r = bs_region(got, Lin(head), n - tail, f)
    return None if anyimp(r) else r
