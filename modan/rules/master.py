"""C18, C24, C27, C28, C29, C30, C37 and the master side of C06."""
from ..drive import *
from ..drive import pdu_fc, const, exc_name, exc_is, only, call, callm, need, has_method
from ..bytesops import bs_int, bs_byte, bs_region, seq_elem
from ..lin import literal_not, mkbit, floordiv
from .base import *
from .bank import serial_port
from .framing import anybytes, tcp_frame, rtu_frame, TCP, RTU, N16, bs_part
from .locks import owners, linear, sections, Op

ROT = 'modbus_tk.modbus_rtu_over_tcp'
MASTERS = {'tcp': (TCP, 'TcpMaster', 'TcpQuery', TCP), 'rtu': (RTU, 'RtuMaster', 'RtuQuery', RTU), 'rot': (ROT, 'RtuOverTcpMaster', 'RtuQuery', RTU)}
SENDS = ('send', 'sendall', 'write', 'sendto')
READS = ('recv', 'read', 'recv_into')


def make_master(I, kind, **kw):
    mod, cls, _, _ = MASTERS[kind]
    I.cfg = Config()
    st = I.new_state()
    args = []
    if kind == 'rtu':
        st, port = serial_port(I, st)
        args = [port]
    st, m = only(call(I, st, need(I, mod, cls), args, kw, mod=mod), cls)
    st.trace, st.ntrace = None, 0
    return st, m


def bv():
    return mkatom('bv', (0,), 0)


def values(name, lo, hi):
    """a list of any number of integers"""
    k = lin(bv())
    return Sq((('rep', bv(), sym('nvalues', 0), (N(lin(mkatom('val', (name, k), lo, hi))),)),), 'list')


def val(name, j, lo, hi):
    return lin(mkatom('val', (name, j), lo, hi))


UNIT, ADDR, QTY, VALUE, NV = sym('unit'), sym('addr'), sym('qty'), sym('value'), sym('nvalues', 0)
AM, OM, WADDR, CODE, OBJ = sym('and_mask'), sym('or_mask'), sym('waddr'), sym('code'), sym('objid')
RLO, RHI = -40000, 70000


def rng(x, lo, hi):
    return [('ge', x - lo), ('ge', Lin(hi) - x)]


def u16(x):
    return ('pk', 2, '>', x)


def u8(x):
    return ('pk', 1, '>', Lin(x) if isinstance(x, int) else x)


class Spec(object):
    """arguments, conditions and PDU of one kind of call"""

    def __init__(self, label, fc, kw, fits, pdu, reads=False, addr=None, each=None, dom=()):
        self.dom = list(dom)        # domain of the arguments, assumed
        self.label, self.fc, self.kw, self.fits, self.pdu, self.reads = label, fc, kw, fits, pdu, reads
        self.addr = addr if addr is not None else N(ADDR)
        self.each = each            # condition on every value (j, value)

    def args(self, unit=None):
        return [N(UNIT if unit is None else unit), N(self.fc), self.addr]


def regs_spec(I):
    k = lin(bv())
    A, Q = rng(ADDR, 0, N16), rng(QTY, 0, N16)
    out = []
    for fc in (1, 2, 3, 4):
        out.append(Spec('FC%d' % fc, fc, {'quantity_of_x': N(QTY)}, A + Q, Bs((u8(fc), u16(ADDR), u16(QTY))), True))
    out.append(Spec('FC5 on', 5, {'output_value': N(VALUE)}, A, Bs((u8(5), u16(ADDR), ('lit', b'\xff\x00'))), dom=[('ne', VALUE)]))
    out.append(Spec('FC5 off', 5, {'output_value': N(0)}, A, Bs((u8(5), u16(ADDR), ('lit', b'\0\0')))))
    out.append(Spec('FC6', 6, {'output_value': N(VALUE)}, A + rng(VALUE, -32768, N16), Bs((u8(6), u16(ADDR), u16(VALUE)))))
    reg = ('rep', bv(), NV, (u16(val('reg', k, RLO, RHI)),))
    out.append(Spec('FC16', 16, {'output_value': values('reg', RLO, RHI)}, A + rng(NV, 0, 127), Bs((u8(16), u16(ADDR), u16(NV), u8(NV.scale(2)), reg)),
                    each=('reg', -32768, N16)))
    out.append(Spec('FC22', 22, {'and_mask': N(AM), 'or_mask': N(OM)}, A + rng(AM, 0, N16) + rng(OM, 0, N16),
                    Bs((u8(22), u16(ADDR), u16(AM), u16(OM)))))
    out.append(Spec('FC23', 23, {'quantity_of_x': N(QTY), 'output_value': values('reg', RLO, RHI), 'write_starting_address_fc23': N(WADDR)},
                    A + Q + rng(WADDR, 0, N16) + rng(NV, 0, 127),
                    Bs((u8(23), u16(ADDR), u16(QTY), u16(WADDR), u16(NV), u8(NV.scale(2)), reg)), True, each=('reg', -32768, N16)))
    out.append(Spec('FC7', 7, {}, [], Bs((u8(7),)), addr=N(0)))
    byte = ('rep', bv(), NV, (u8(val('byte', k, -10, 300)),))
    out.append(Spec('FC8', 8, {'output_value': values('byte', -10, 300)}, A, Bs((u8(8), u16(ADDR), byte)), each=('byte', 0, 255), dom=rng(NV, 0, 250)))
    out.append(Spec('FC43', 43, {'output_value': Tup(N(CODE), N(OBJ))}, rng(CODE, 0, 255) + rng(OBJ, 0, 255),
                    Bs((u8(43), u8(14), u8(CODE), u8(OBJ))), addr=N(0)))
    for n in (1, 2, 3):
        fs, rs, qs = [sym('file%d' % i) for i in range(n)], [sym('rec%d' % i) for i in range(n)], [sym('len%d' % i) for i in range(n)]
        segs, fits = [u8(20), u8(7 * n)], []
        for i in range(n):
            segs += [u8(6), u16(fs[i]), u16(rs[i]), u16(qs[i])]
            fits += rng(fs[i], 0, N16) + rng(rs[i], 0, N16) + rng(qs[i], 0, N16)
        out.append(Spec('FC20 with %d records' % n, 20, {'quantity_of_x': Tup(*[N(x) for x in qs]), 'number_file': Tup(*[N(x) for x in fs])},
                        fits, Bs(tuple(segs)), True, addr=Tup(*[N(x) for x in rs])))
    for cnt in (1, 2):
        xs = [sym('one%d' % i) for i in range(cnt)]
        fits = []
        for x in xs:
            fits += rng(x, -32768, N16)
        vals = Sq(tuple(('item', N(x)) for x in xs), 'list')
        data = tuple(u16(x) for x in xs)
        out.append(Spec('FC16 with %d values' % cnt, 16, {'output_value': vals}, A + fits, Bs((u8(16), u16(ADDR), u16(Lin(cnt)), u8(2 * cnt)) + data)))
        out.append(Spec('FC23 with %d values' % cnt, 23, {'quantity_of_x': N(QTY), 'output_value': vals, 'write_starting_address_fc23': N(WADDR)},
                        A + Q + rng(WADDR, 0, N16) + fits,
                        Bs((u8(23), u16(ADDR), u16(QTY), u16(WADDR), u16(Lin(cnt)), u8(2 * cnt)) + data), True))
        fits = []
        for x in xs:
            fits += rng(x, 0, 255)
        out.append(Spec('FC8 with %d values' % cnt, 8, {'output_value': vals}, A + fits, Bs((u8(8), u16(ADDR)) + tuple(u8(x) for x in xs))))
    raw, n = anybytes('rawpdu')
    out.append(Spec('RAW', 0, {'pdu': raw, 'data_format': K('>HH'), 'expected_length': N(8)}, [], raw, addr=N(0), dom=rng(n, 1, 253)))
    return out


# ------------------------------------------------------------------ C28
def sends(s):
    """(event, in a loop) of everything sent on a path"""
    out = []

    def walk(evs, inl):
        for e in evs:
            if e.kind == 'io' and e.d['op'] in SENDS:
                out.append((e, inl))
            elif e.kind == 'loop':
                for c in e.body['conts']:
                    walk(c[1], True)
    walk(s.events(), False)
    return out


def stop_parse(I, st, args, kw, fr, node):
    return [I.raise_(st, 'ValueError')]


def stop_recv(kind):
    """configuration in which a response is never accepted"""
    _, _, q, qm = MASTERS[kind]
    return {'%s.%s.parse_response' % (qm, q): stop_parse}


def execute(I, rep, rule, st, m, sp, kind, cfg, unit=None, extra=None):
    I.cfg = cfg
    kw = dict(sp.kw)
    kw.update(extra or {})
    try:
        outs = callm(I, st.fork(), m, 'execute', sp.args(unit), kw)
    except Budget:
        rep.und(rule, '%s: analysis budget exceeded' % sp.label)
        return []
    for s, v in outs:
        rep.paths += 1
        functions(rep, s)
    return outs


def deframe(kind, u, got, s):
    """PDU of what was sent, with the frame checked elsewhere"""
    if kind in ('rtu', 'rot'):
        return bs_part(got, 1, 2, s.facts)
    return bs_part(got, 7, 0, s.facts)


def c28(I, rep):
    for kind in ('rtu', 'tcp', 'rot'):
        pdus(I, rep, 'request-pdu', regs_spec(I), kind)
        coils(I, rep, 'request-pdu', kind)
        few_coils(I, rep, 'request-pdu', kind)
        formats(I, rep, 'request-pdu', kind)


def pdus(I, rep, R, specs, kind='rtu'):
    st, m = make_master(I, kind)
    for sp in specs:
        cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
        valid = rng(UNIT, 0, 255) + sp.dom
        for s, v in execute(I, rep, R, st, m, sp, kind, Config(deaf=True)):
            ws = sends(s)
            loc = last_loc(s)
            if not ws:
                # nothing sent: only for arguments that do not fit
                lits = valid + sp.fits
                if sp.each:
                    lits = lits + fitting(s, sp)
                must_not(rep, R, s, lits, cl, loc, 'sends nothing for valid arguments (%s)' % (
                    exc_name(I, s, v) if isinstance(v, Exc) else str(v)[:60]))
                continue
            e = ws[0][0]
            got = I.as_bytes(s, e.d['args'][0]) if e.d['args'] else None
            if got is None or anyimp(got):
                rep.und(R, '%s: request not tracked: %s' % (cl, str(e.d['args'])[:100]))
                continue
            # arguments that do not fit are not sent
            for lit in sp.fits:
                must_not(rep, R, s, valid + [literal_not(lit)], cl, e.loc, 'sends a request for an argument that does not fit its field')
            pdu = deframe(kind, UNIT, got, s)
            if pdu is None:
                rep.und(R, '%s: frame not understood' % cl)
                continue
            same_bytes(rep, R, s, pdu, sp.pdu, cl, e.loc, 'the request is not the one the specification defines', valid + sp.fits)


def fitting(s, sp):
    """every value mentioned in the facts of the path fits"""
    name, lo, hi = sp.each
    ats, seen, out = [], set(), []
    for l in s.facts.log:
        if l[0] in ('ge', 'eq', 'ne'):
            evalx.inner(l[1], ats, seen, ('val',))
    for a in ats:
        out += rng(lin(a), lo, hi)
    return out


def quotient(facts, n, r):
    """m with n = 8*m + r; the name the path already has for it when there is one"""
    cand, seen = [], set()
    for l in facts.log:
        if l[0] in ('ge', 'eq', 'ne'):
            for a in l[1].atoms() if hasattr(l[1], 'atoms') else [x for x, _ in l[1].t]:
                if a.op == 'k' and a.id not in seen:
                    seen.add(a.id)
                    cand.append(lin(a))
    M = lin(mkatom('k', ('m8',), 0))
    f = facts.add_literal(('eq', n - M.scale(8) - r))
    if f is not None:
        for c in cand:
            if f.entails_eq(c - M):
                return c
    return lin(mkatom('k', ('m8',), 0))


def b_forms(x):
    return [x, lin(mkatom('b', (('ge', x - 1),), 0, 1)), lin(mkatom('b', (('ne', x),), 0, 1))]


def coils(I, rep, R, kind='rtu'):
    """FC15: bit i of the data is coil i"""
    st, m = make_master(I, kind)
    sp = Spec('FC15', 15, {'output_value': values('coil', 0, N16)}, rng(ADDR, 0, N16) + rng(NV, 0, 2040), None)
    cl = '%s.execute FC15' % MASTERS[kind][1]
    valid = rng(UNIT, 0, 255) + sp.fits
    for s, v in execute(I, rep, R, st, m, sp, kind, Config(deaf=True)):
        ws = sends(s)
        loc = last_loc(s)
        if not ws:
            must_not(rep, R, s, valid, cl, loc, 'sends nothing for valid arguments (%s)' % (exc_name(I, s, v) if isinstance(v, Exc) else str(v)[:60]))
            continue
        e = ws[0][0]
        got = I.as_bytes(s, e.d['args'][0]) if e.d['args'] else None
        pdu = deframe(kind, UNIT, got, s) if got is not None and not anyimp(got) else None
        for lit in sp.fits:
            must_not(rep, R, s, rng(UNIT, 0, 255) + [literal_not(lit)], cl, e.loc, 'sends a request for an address or a number of coils that does not fit its field')
        if pdu is None:
            rep.und(R, '%s: request not tracked' % cl)
            continue
        for r in range(8):
            M = quotient(s.facts, NV, r)
            f0 = s.facts.add_all(valid + [('eq', NV - M.scale(8) - r)])
            if f0 is None or not f0.feasible():
                continue
            nb = M + (1 if r else 0)
            lits = valid + [('eq', NV - M.scale(8) - r)]
            head = Bs((u8(15), u16(ADDR), u16(NV), u8(nb)))
            if must_equal(rep, R, s, pdu.length(), nb + 6, cl, e.loc, 'the request has a wrong number of data bytes', lits) is not True:
                continue
            for off, w in ((0, 1), (1, 2), (3, 2), (5, 1)):
                a, b = bs_int(pdu, Lin(off), w, False, '>', f0), bs_int(head, Lin(off), w, False, '>', f0)
                if a is None:
                    rep.und(R, '%s: field at %d not understood' % (cl, off))
                    continue
                must_equal(rep, R, s, a, b, cl, e.loc, 'the request is not the one the specification defines (byte %d)' % off, lits)
            j = lin(mkatom('bv', ('byte',), 0))
            for pos, cnt, ll in ((j, 8, [('ge', M - j - 1)]), (M, r, [])):
                if not cnt:
                    continue
                h = f0.add_all(ll)
                if h is None or not h.feasible():
                    continue
                x = bs_byte(pdu, pos + 6, h)
                if x is None:
                    rep.und(R, '%s: data byte not understood' % cl)
                    continue
                want = None
                for form in range(3):
                    w = ZERO
                    for b in range(cnt):
                        w = w + b_forms(val('coil', pos.scale(8) + b, 0, N16))[form].scale(1 << b)
                    if want is None:
                        want = w
                    if h.equal(x, w):
                        want = w
                        break
                must_equal(rep, R, s, x, want, cl, e.loc, 'a coil is not at its bit of the request', lits + ll)


def few_coils(I, rep, R, kind):
    """FC15 with lists of a given length: every bit of every byte"""
    st, m = make_master(I, kind)
    for n in (1, 8, 9, 17):
        xs = [sym('coil%d' % i, 0, N16) for i in range(n)]
        sp = Spec('FC15 with %d coils' % n, 15, {'output_value': Sq(tuple(('item', N(x)) for x in xs), 'list')}, rng(ADDR, 0, N16), None)
        cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
        valid = rng(UNIT, 0, 255) + sp.fits
        for s, v in execute(I, rep, R, st, m, sp, kind, Config(deaf=True, join=True)):
            ws = sends(s)
            if not ws:
                must_not(rep, R, s, valid, cl, last_loc(s), 'sends nothing for valid arguments (%s)' % (
                    exc_name(I, s, v) if isinstance(v, Exc) else str(v)[:60]))
                continue
            e = ws[0][0]
            got = I.as_bytes(s, e.d['args'][0]) if e.d['args'] else None
            pdu = deframe(kind, UNIT, got, s) if got is not None and not anyimp(got) else None
            if pdu is None:
                rep.und(R, '%s: request not tracked' % cl)
                continue
            nb = (n + 7) // 8
            if must_equal(rep, R, s, pdu.length(), Lin(nb + 6), cl, e.loc, 'the request has a wrong number of data bytes', valid) is not True:
                continue
            f = s.facts.add_all(valid)
            if f is None:
                continue
            for i in range(nb):
                x = bs_byte(pdu, Lin(i + 6), f)
                if x is None:
                    rep.und(R, '%s: data byte not understood' % cl)
                    continue
                want = ZERO
                for j in range(8 * i, min(n, 8 * i + 8)):
                    want = want + lin(mkatom('b', (('ge', xs[j] - 1),), 0, 1)).scale(1 << (j - 8 * i))
                must_equal(rep, R, s, x, want, cl, e.loc, 'a coil is not at its bit of the request', valid)


FORMATS = (('>i', 1, 2), ('>HH', 2, 2), ('>hH', 2, 2), ('>f', 1, 2), ('>fI', 2, 4), ('>q', 1, 4))


def formats(I, rep, R, kind='rtu'):
    """FC16 with a format: quantity and byte count are those of the packed data"""
    st, m = make_master(I, kind)
    for fmt, items, regs in FORMATS:
        vals = Tup(*[T('value%d' % i, (), 'float') if fmt[1 + i] == 'f' else N(sym('v%d' % i, 0, 30000)) for i in range(items)])
        sp = Spec('FC16 with format %s' % fmt, 16, {'output_value': vals, 'data_format': K(fmt)}, rng(ADDR, 0, N16), None)
        cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
        valid = rng(UNIT, 0, 255) + sp.fits
        for s, v in execute(I, rep, R, st, m, sp, kind, Config(deaf=True)):
            ws = sends(s)
            if not ws:
                if not any(isinstance(x, T) for x in [y[1] for y in vals.segs]):
                    must_not(rep, R, s, valid, cl, last_loc(s), 'sends nothing for valid arguments (%s)' % (
                        exc_name(I, s, v) if isinstance(v, Exc) else str(v)[:60]))
                continue
            e = ws[0][0]
            got = I.as_bytes(s, e.d['args'][0])
            if got is None:
                rep.und(R, '%s: request not tracked' % cl)
                continue
            pdu = deframe(kind, UNIT, got, s)
            if pdu is None:
                rep.und(R, '%s: frame not understood' % cl)
                continue
            must_equal(rep, R, s, pdu.length(), Lin(6 + 2 * regs), cl, e.loc, 'the request has a wrong number of data bytes', valid)
            f = s.facts.add_all(valid)
            if f is None or not f.feasible():
                continue
            for off, w, want in ((0, 1, Lin(16)), (1, 2, ADDR), (3, 2, Lin(regs)), (5, 1, Lin(2 * regs))):
                a = bs_int(pdu, Lin(off), w, False, '>', f)
                if a is None:
                    rep.und(R, '%s: field at %d not understood' % (cl, off))
                    continue
                must_equal(rep, R, s, a, want, cl, e.loc, 'the request is not the one the specification defines (byte %d)' % off, valid)
            p = 6
            for i, c in enumerate(fmt[1:]):
                w = {'i': 4, 'I': 4, 'h': 2, 'H': 2, 'f': 4, 'q': 8}[c]
                if c in 'ihHI':
                    a = bs_int(pdu, Lin(p), w, False, '>', f)
                    if a is not None:
                        must_equal(rep, R, s, a, sym('v%d' % i, 0, 30000), cl, e.loc, 'a value is not packed at its place', valid)
                p += w


# ------------------------------------------------------------------ C30
SUPPORTED = ('RAW', 'READ_COILS', 'READ_DISCRETE_INPUTS', 'READ_HOLDING_REGISTERS', 'READ_INPUT_REGISTERS', 'WRITE_SINGLE_COIL',
             'WRITE_SINGLE_REGISTER', 'READ_EXCEPTION_STATUS', 'DIAGNOSTIC', 'WRITE_MULTIPLE_COILS', 'WRITE_MULTIPLE_REGISTERS',
             'READ_FILE_RECORD', 'MASK_WRITE_REGISTER', 'READ_WRITE_MULTIPLE_REGISTERS', 'DEVICE_INFO')


def refused(I, rep, R, kind, outs, lits, cls, cl, what):
    """on every path with lits: nothing is sent and the error is cls"""
    for s, v in outs:
        ws = sends(s)
        if ws:
            must_not(rep, R, s, lits, cl, ws[0][0].loc, 'sends a request for %s' % what)
            continue
        if isinstance(v, Exc) and exc_is(I, s, v, cls):
            rep.ok(R)
            continue
        must_not(rep, R, s, lits, cl, last_loc(s), '%s for %s' % ('raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns', what))


def c30(I, rep):
    R = 'refused-call'
    X = 'modbus_tk.exceptions'
    arg, req, fn = [need(I, X, x) for x in ('InvalidArgumentError', 'ModbusInvalidRequestError', 'ModbusFunctionNotSupportedError')]
    codes = [const(I, x) for x in SUPPORTED]
    specs = regs_spec(I)
    U = rng(UNIT, 0, 255)
    for kind in ('rtu', 'tcp', 'rot'):
        st, m = make_master(I, kind)
        name = MASTERS[kind][1]
        cfg = Config(deaf=True)
        for sp in specs:
            outs = execute(I, rep, R, st, m, sp, kind, cfg)
            cl = '%s.execute %s' % (name, sp.label)
            fit = sp.dom + sp.fits
            for side in ([('ge', -UNIT - 1)], [('ge', UNIT - 256)]):
                ff = []
                for s, v in outs:
                    refused(I, rep, R, kind, [(s, v)], fit + side + (fitting(s, sp) if sp.each else []), arg, cl, 'a unit id outside 0-255')
        # unsupported function codes
        FC = sym('function_code')
        lits = U + rng(ADDR, 0, N16) + rng(QTY, 0, N16) + [('ne', FC - c) for c in codes]
        for kw in ({'quantity_of_x': N(QTY)}, {'output_value': values('reg', RLO, RHI)}, {},
                   {'pdu': anybytes('rawpdu')[0], 'data_format': K('>HH'), 'expected_length': N(8)}):
            sp = Spec('unsupported', FC, kw, [], None)
            refused(I, rep, R, kind, execute(I, rep, R, st, m, sp, kind, cfg), lits, fn, '%s.execute' % name, 'an unsupported function code')
        for code in (NONE, K('3')):
            for kw in ({'quantity_of_x': N(QTY)}, {'pdu': anybytes('rawpdu')[0], 'data_format': K('>HH'), 'expected_length': N(8)}):
                I.cfg = Config(deaf=True)
                outs = callm(I, st.fork(), m, 'execute', [N(UNIT), code, N(ADDR)], dict(kw))
                refused(I, rep, R, kind, outs, U + rng(ADDR, 0, N16) + rng(QTY, 0, N16), fn, '%s.execute' % name, 'a function code that is no number')
        # an empty request
        for side in ([('ge', -UNIT - 1)], [('ge', UNIT - 256)]):
            I.cfg = Config(deaf=True)
            outs = callm(I, st.fork(), m, 'execute', [N(UNIT), N(0), N(0)], {'pdu': K(b''), 'data_format': K('>HH'), 'expected_length': N(8)})
            refused(I, rep, R, kind, outs, side, arg, '%s.execute RAW' % name, 'a unit id outside 0-255')
        # masks
        for kw, ls, what in (({}, [], 'missing masks'), ({'and_mask': N(AM)}, rng(AM, 0, N16), 'a missing or_mask'),
                             ({'or_mask': N(OM)}, rng(OM, 0, N16), 'a missing and_mask'),
                             ({'and_mask': N(AM), 'or_mask': N(OM)}, rng(OM, 0, N16) + [('ge', -AM - 1)], 'a negative and_mask'),
                             ({'and_mask': N(AM), 'or_mask': N(OM)}, rng(AM, 0, N16) + [('ge', -OM - 1)], 'a negative or_mask')):
            sp = Spec('FC22', 22, kw, [], None)
            refused(I, rep, R, kind, execute(I, rep, R, st, m, sp, kind, cfg), U + rng(ADDR, 0, N16) + ls, req, '%s.execute FC22' % name, what)
        # file records
        a, b, c = N(sym('f0', 0, N16)), N(sym('r0', 0, N16)), N(sym('q0', 0, 100))
        one, two, none = (lambda x: Tup(x)), (lambda x: Tup(x, x)), Tup()
        lst = lambda x: Sq((('item', x),), 'list')
        for fl, ad, qt, what in ((None, one(b), one(c), 'no number_file'), (none, none, none, 'empty file-record arguments'),
                                 (two(a), one(b), one(c), 'file-record arguments of different lengths'),
                                 (one(a), two(b), one(c), 'file-record arguments of different lengths'),
                                 (one(a), one(b), two(c), 'file-record arguments of different lengths'),
                                 (none, one(b), one(c), 'file-record arguments of different lengths'),
                                 (lst(a), one(b), one(c), 'number_file that is no tuple'), (one(a), lst(b), one(c), 'starting_address that is no tuple'),
                                 (one(a), one(b), lst(c), 'quantity_of_x that is no tuple'), (one(a), b, one(c), 'starting_address that is no tuple'),
                                 (one(a), one(b), c, 'quantity_of_x that is no tuple'), (a, one(b), one(c), 'number_file that is no tuple')):
            kw = {'quantity_of_x': qt}
            if fl is not None:
                kw['number_file'] = fl
            sp = Spec('FC20', 20, kw, [], None, addr=ad)
            refused(I, rep, R, kind, execute(I, rep, R, st, m, sp, kind, cfg), U, req, '%s.execute FC20' % name, what)


# ------------------------------------------------------------------ C29
RP = 'rpdu'
RLEN = sym('len(rpdu)', 2, None, deps=frozenset([RP]))


def rfield(off, w, signed=False, endian='>', facts=None):
    return bs_int(RPDU, Lin(off) if isinstance(off, int) else off, w, signed, endian, facts or Facts())


RPDU = Bs((('sl', RP, ZERO, RLEN),))


def answered(I, kind, resp=None):
    """stubs: the slave answers every request with the PDU rpdu in a correct frame"""
    I.cfg = Config()
    st, m = make_master(I, kind)
    mod, cls, q, qm = MASTERS[kind]
    body = resp if resp is not None else RPDU

    def recv(I, st, args, kw, fr, node):
        if kw:
            return NotImplemented
        s = st.fork()
        if len(args) > 1:
            s.setext(('expected',), args[1])
        reqs = [e for e, _ in sends(s)]
        req = I.as_bytes(s, reqs[-1].d['args'][0]) if reqs and reqs[-1].d['args'] else None
        if req is None or anyimp(req):
            return NotImplemented
        if kind == 'tcp':
            tid = bs_int(req, ZERO, 2, False, '>', s.facts)
            unit = bs_int(req, Lin(6), 1, False, '>', s.facts)
            if tid is None or unit is None:
                return NotImplemented
            return [(s, tcp_frame(tid, ZERO, body.length() + 1, unit, body))]
        unit = bs_int(req, ZERO, 1, False, '>', s.facts)
        if unit is None:
            return NotImplemented
        return [(s, rtu_frame(unit, body))]
    c = I.class_of(st, m)
    f = I.class_attr(st, c, '_recv')
    if f is None or not isinstance(f[0], Fn):
        raise Missing('%s._recv' % cls)
    return st, m, {f[0].qual: recv}


def results(I, s, v):
    """a result as Sq of values"""
    if isinstance(v, Sq):
        return v
    if isinstance(v, Ref) and s.get(v.oid).kind == 'list':
        return Sq(s.get(v.oid).segs)
    return None


class Want(object):
    """what a response must give: lits under which the response is valid, number of items, item(j, facts) -> Lin"""

    def __init__(self, valid, n, item, L):
        self.valid, self.n, self.item, self.L = valid, n, item, L


def wants():
    W = {}
    word = lambda base: (lambda j, f: rfield(j.scale(2) + base, 2, facts=f))
    regs = Want([('eq', rfield(1, 1) - RLEN + 2), ('eq', RLEN - 2 - QTY.scale(2))], QTY, word(2), QTY.scale(2) + 2)
    for l in ('FC3', 'FC4', 'FC23', 'FC23 with 1 values', 'FC23 with 2 values'):
        W[l] = regs
    two = Want([('eq', RLEN - 5)], Lin(2), word(1), Lin(5))
    for l in ('FC5 on', 'FC5 off', 'FC6', 'FC15', 'FC16', 'FC16 with 1 values', 'FC16 with 2 values', 'RAW'):
        W[l] = two
    W['FC22'] = Want([('eq', RLEN - 7)], Lin(3), word(1), Lin(7))
    W['FC7'] = Want([('eq', RLEN - 2)], ONE, lambda j, f: rfield(j + 1, 1, facts=f), Lin(2))
    for l, n in (('FC8', NV), ('FC8 with 1 values', ONE), ('FC8 with 2 values', Lin(2))):
        W[l] = Want([('eq', RLEN - 3 - n)], n + 1, lambda j, f: rfield(1, 2, facts=f) if f.entails_eq(j) else rfield(j + 2, 1, facts=f), n + 3)
    W['FC43'] = Want([], RLEN - 1, lambda j, f: rfield(j + 1, 1, facts=f), None)
    return W


def c29(I, rep):
    R, RE, RL = 'response-data', 'error-response', 'expected-length'
    ME = need(I, 'modbus_tk.exceptions', 'ModbusError')
    MIR = need(I, 'modbus_tk.exceptions', 'ModbusInvalidResponseError')
    specs = regs_spec(I)
    W = wants()
    for kind in ('tcp', 'rtu', 'rot'):
        file_records(I, rep, kind, ME, MIR)
        custom(I, rep, kind)
        st, m, stubs = answered(I, kind)
        for sp in specs:
            if sp.fc == 20:
                continue
            cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
            valid = rng(UNIT, 0, 255) + sp.dom + sp.fits + ([('ge', Lin(252) - RLEN)] if kind == 'tcp' else [])
            w = W.get(sp.label)
            for s, v in execute(I, rep, R, st, m, sp, kind, Config(stubs=stubs)):
                if not sends(s):
                    continue
                error_response(I, rep, RE, s, v, cl, valid, ME)
                if sp.reads:
                    byte_count(I, rep, R, s, v, cl, valid, MIR)
                if sp.label in ('FC1', 'FC2'):
                    ok = valid + [('ge', QTY - 1), ('ge', Lin(127) - rfield(0, 1))]
                    good = ok + [('eq', rfield(1, 1) - RLEN + 2), ('ge', (RLEN - 2).scale(8) - QTY), ('ge', QTY + 7 - (RLEN - 2).scale(8))]
                    if isinstance(v, Exc):
                        must_not(rep, R, s, good, cl, last_loc(s), 'raises %s for a valid response' % exc_name(I, s, v))
                        continue
                    coil_items(I, rep, R, s, v, cl, good)
                    for side in ([('ge', QTY - (RLEN - 2).scale(8) - 1)], [('ge', (RLEN - 2).scale(8) - QTY - 8)]):
                        must_not(rep, R, s, ok + side, cl, last_loc(s), 'accepts a response of a wrong length')
                    e = s.getext(('expected',))
                    n = num(e) if e is not None else None
                    if n is not None:
                        must_equal(rep, RL, s, n, RLEN + 3, cl, last_loc(s), 'the expected length is not the one of the default format', good)
                    continue
                if w is None:
                    continue
                good = valid + w.valid + [('ge', Lin(127) - rfield(0, 1))]
                if isinstance(v, Exc):
                    must_not(rep, R, s, good + (fitting(s, sp) if sp.each else []), cl, last_loc(s),
                             'raises %s for a valid response' % exc_name(I, s, v))
                    continue
                items(I, rep, R, s, v, cl, valid + w.valid, w)
                if w.L is not None:
                    # any other length must not be taken for this response
                    must_be(rep, R, s, ('eq', RLEN - w.L), cl, last_loc(s), 'accepts a response of a wrong length', extra=valid)
                    e = s.getext(('expected',))
                    n = num(e) if e is not None else None
                    if n is not None and sp.label != 'RAW':
                        must_equal(rep, RL, s, n, RLEN + 3, cl, last_loc(s), 'the expected length is not the one of the default format', valid)


def coil_items(I, rep, R, s, v, cl, lits):
    """item i of the result is bit i % 8 of data byte i // 8"""
    q = results(I, s, v)
    if q is None or anyimp(q):
        rep.und(R, '%s: result not tracked: %s' % (cl, str(v)[:120]))
        return
    f = s.facts.add_all(lits)
    if f is None or not f.feasible():
        return
    if must_equal(rep, R, s, q.length(), QTY, cl, last_loc(s), 'a wrong number of items is returned', lits) is not True:
        return
    for r in range(8):
        M = quotient(f, QTY, r)
        ll = lits + [('eq', QTY - M.scale(8) - r)]
        g = s.facts.add_all(ll)
        if g is None or not g.feasible():
            continue
        j = lin(mkatom('bv', ('byte',), 0))
        for b in range(8):
            for pos, more in ((j, [('ge', M - j - 1)]), (M, [])):
                if pos is M and b >= r:
                    continue
                h = g.add_all(more)
                if h is None or not h.feasible():
                    continue
                x = seq_elem(q, pos.scale(8) + b, h)
                n = num(x) if x is not None else None
                if n is None:
                    rep.und(R, '%s: item not understood: %s' % (cl, str(x)[:100]))
                    continue
                F = rfield(pos + 2, 1, facts=h)
                must_equal(rep, R, s, n, floordiv(F, 128) if b == 7 else mkbit(F, Lin(b)), cl, last_loc(s), 'an item is not its bit of the response', ll + more)


def error_response(I, rep, R, s, v, cl, valid, ME):
    lits = valid + [('ge', rfield(0, 1) - 128)]
    if isinstance(v, Exc) and exc_is(I, s, v, ME):
        must_not(rep, R, s, valid + [('ge', Lin(127) - rfield(0, 1))], cl, last_loc(s), 'raises ModbusError for a response without error')
        codes = []
        for s2, c in callm_attr(I, s, v.v, 'get_exception_code'):
            n = num(c) if not isinstance(c, Exc) else None
            if n is None:
                rep.und(R, '%s: exception code not understood' % cl)
                continue
            must_equal(rep, R, s2, n, rfield(1, 1), cl, last_loc(s), 'the error has not the code of the response', lits)
        return
    must_not(rep, R, s, lits, cl, last_loc(s), '%s for an error response' % ('raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns data'))


def callm_attr(I, s, o, name):
    if not has_method(I, s, o, name):
        return []
    c, I.cfg = I.cfg, Config()
    try:
        return callm(I, s.fork(), o, name)
    finally:
        I.cfg = c


def byte_count(I, rep, R, s, v, cl, valid, MIR):
    low = [('ge', Lin(127) - rfield(0, 1))]
    d = rfield(1, 1) - RLEN + 2
    if isinstance(v, Exc) and exc_is(I, s, v, MIR):
        rep.ok(R)
        return
    for side in ([('ge', d - 1)], [('ge', -d - 1)]):
        must_not(rep, R, s, valid + low + side, cl, last_loc(s), '%s for a read response with a wrong byte count' % (
            'raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns data'))


def items(I, rep, R, s, v, cl, lits, w):
    f = s.facts.add_all(lits)
    if f is None or not f.feasible():
        return
    q = results(I, s, v)
    if q is None or anyimp(q):
        rep.und(R, '%s: result not tracked: %s' % (cl, str(v)[:120]))
        return
    if must_equal(rep, R, s, q.length(), w.n, cl, last_loc(s), 'a wrong number of items is returned', lits) is not True:
        return
    js = [Lin(i) for i in range(w.n.c)] if w.n.is_const else [ZERO, lin(mkatom('bv', ('item',), 0))]
    for j in js:
        ll = lits + ([] if j.is_const and w.n.is_const else [('ge', w.n - j - 1)] + ([('ge', j - 1)] if not j.is_const else []))
        h = s.facts.add_all(ll)
        if h is None or not h.feasible():
            continue
        x = seq_elem(q, j, h)
        n = num(x) if x is not None else None
        want = w.item(j, h)
        if n is None or want is None:
            rep.und(R, '%s: item %s not understood: %s' % (cl, j, str(x)[:100]))
            continue
        must_equal(rep, R, s, n, want, cl, last_loc(s), 'an item is not the value of the response', ll)


def file_records(I, rep, kind, ME, MIR):
    """function 20 with given record lengths: the groups of words of the response"""
    R = 'response-data'
    for qs in ((1,), (2,), (3, 1), (2, 0, 4)):
        n = len(qs)
        data = [Bs((('sl', 'data%d' % i, ZERO, Lin(2 * q)),)) if q else Bs() for i, q in enumerate(qs)]
        total = sum(2 + 2 * q for q in qs)
        bc, code, exc = sym('byte_count', 0, 255), sym('resp_code', 128, 255), sym('resp_exc', 0, 255)
        body = []
        for i, q in enumerate(qs):
            body += [('lit', bytes([2 * q + 1, 6]))] + ([('sl', 'data%d' % i, ZERO, Lin(2 * q))] if q else [])
        good = Bs(tuple([('lit', bytes([20, total]))] + body))
        wrong = Bs(tuple([u8(20), u8(bc)] + body))
        error = Bs((u8(code), u8(exc)))
        sp = Spec('FC20 with %d records' % n, 20, {'quantity_of_x': Tup(*[N(x) for x in qs]), 'number_file': Tup(*[N(sym('file%d' % i)) for i in range(n)])},
                  [], None, True, addr=Tup(*[N(sym('rec%d' % i)) for i in range(n)]))
        valid = rng(UNIT, 0, 255)
        for i in range(n):
            valid += rng(sym('file%d' % i), 0, N16) + rng(sym('rec%d' % i), 0, N16)
        cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
        cases = [('good', good, None), ('wrong', wrong, None), ('error', error, None)]
        for k in range(n if n < 3 else 0):
            # one record announces another length
            for sub in sorted(set((1, 2 * qs[k] - 1, 2 * qs[k] + 3, 255))):
                alter = [('lit', bytes([20, total]))]
                for i, q in enumerate(qs):
                    alter += [('lit', bytes([sub if i == k else 2 * q + 1, 6]))] + ([('sl', 'data%d' % i, ZERO, Lin(2 * q))] if q else [])
                cases.append(('record', Bs(tuple(alter)), sub))
        for which, resp, rec in cases:
            st, m, stubs = answered(I, kind, resp)
            for s, v in execute(I, rep, R, st, m, sp, kind, Config(stubs=stubs)):
                if not sends(s):
                    continue
                loc = last_loc(s)
                if which == 'error':
                    if not (isinstance(v, Exc) and exc_is(I, s, v, ME)):
                        must_not(rep, R, s, valid, cl, loc, '%s for an error response' % ('raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns data'))
                    continue
                if which == 'record':
                    if not (isinstance(v, Exc) and exc_is(I, s, v, MIR)):
                        must_not(rep, R, s, valid, cl, loc, '%s for a response one of whose records announces the length %d' % (
                            'raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns data', rec))
                    continue
                if which == 'wrong':
                    if not (isinstance(v, Exc) and exc_is(I, s, v, MIR)):
                        for side in ([('ge', bc - total - 1)], [('ge', Lin(total - 1) - bc)]):
                            must_not(rep, R, s, valid + side, cl, loc, '%s for a read response with a wrong byte count' % (
                                'raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns data'))
                    continue
                if isinstance(v, Exc):
                    must_not(rep, R, s, valid, cl, loc, 'raises %s for a valid response' % exc_name(I, s, v))
                    continue
                e = s.getext(('expected',))
                x = num(e) if e is not None else None
                if x is not None:
                    must_equal(rep, 'expected-length', s, x, Lin(total + 5), cl, loc, 'the expected length is not the one of the default format', valid)
                f = s.facts.add_all(valid)
                if f is None or not f.feasible():
                    continue
                q = results(I, s, v)
                if q is None or anyimp(q) or not all(g[0] == 'item' for g in q.segs):
                    rep.und(R, '%s: result not tracked: %s' % (cl, str(v)[:120]))
                    continue
                if must_equal(rep, R, s, Lin(len(q.segs)), Lin(n), cl, loc, 'a wrong number of records is returned', valid) is not True:
                    continue
                for i, g in enumerate(q.segs):
                    r = results(I, s, g[1])
                    if r is None:
                        rep.und(R, '%s: record not tracked: %s' % (cl, str(g[1])[:120]))
                        continue
                    if must_equal(rep, R, s, r.length(), Lin(qs[i]), cl, loc, 'a wrong number of values is returned in a record', valid) is not True:
                        continue
                    for j in range(qs[i]):
                        y = seq_elem(r, Lin(j), f)
                        y = num(y) if y is not None else None
                        w = bs_int(data[i], Lin(2 * j), 2, False, '>', f)
                        if y is None or w is None:
                            rep.und(R, '%s: value of a record not understood' % cl)
                            continue
                        must_equal(rep, R, s, y, w, cl, loc, 'a value of a record is not the one of the response', valid)


def custom(I, rep, kind):
    """the caller's format, and raw data"""
    R = 'response-format'
    st, m, stubs = answered(I, kind)
    base = rng(UNIT, 0, 255) + rng(ADDR, 0, N16) + rng(QTY, 0, N16) + ([('ge', Lin(252) - RLEN)] if kind == 'tcp' else [])
    ok = [('ge', Lin(127) - rfield(0, 1))]
    bcok = [('eq', rfield(1, 1) - RLEN + 2)]
    W = {'i': (4, True), 'I': (4, False), 'h': (2, True), 'H': (2, False), 'f': (4, None), 'q': (8, True), 'B': (1, False), 'b': (1, True)}
    one = Sq((('item', N(sym('one0'))),), 'list')
    out1 = rng(sym('one0'), -32768, N16)
    calls = [('FC3', 3, {'quantity_of_x': N(QTY)}, [], 2), ('FC4', 4, {'quantity_of_x': N(QTY)}, [], 2),
             ('FC23', 23, {'quantity_of_x': N(QTY), 'output_value': one, 'write_starting_address_fc23': N(WADDR)}, rng(WADDR, 0, N16) + out1, 2),
             ('FC6', 6, {'output_value': N(VALUE)}, rng(VALUE, 0, N16), 1), ('FC5', 5, {'output_value': N(VALUE)}, [], 1),
             ('FC22', 22, {'and_mask': N(AM), 'or_mask': N(OM)}, rng(AM, 0, N16) + rng(OM, 0, N16), 1),
             ('RAW', 0, {'pdu': K(b'\x11\x22')}, [], 1)]
    for label, fc, kw, fits, start in calls:
        for fmt in ('>i', '>hH', '>Hh', '>q', '<H', '>f', '>bB'):
            size = sum(W[c][0] for c in fmt[1:])
            sp = Spec('%s with format %s' % (label, fmt), fc, dict(kw, data_format=K(fmt)), [], None, addr=N(ADDR if fc else 0))
            cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
            valid = base + fits
            for s, v in execute(I, rep, R, st, m, sp, kind, Config(stubs=stubs)):
                if not sends(s):
                    continue
                loc = last_loc(s)
                good = valid + ok + (bcok if start == 2 else []) + [('eq', RLEN - start - size)]
                if isinstance(v, Exc):
                    must_not(rep, R, s, good, cl, loc, 'raises %s for a valid response' % exc_name(I, s, v))
                    continue
                f = s.facts.add_all(good)
                must_be(rep, R, s, ('eq', RLEN - start - size), cl, loc, 'accepts a response of a wrong length', extra=valid)
                if f is None or not f.feasible():
                    continue
                q = results(I, s, v)
                if q is None or anyimp(q):
                    rep.und(R, '%s: result not tracked: %s' % (cl, str(v)[:120]))
                    continue
                if must_equal(rep, R, s, q.length(), Lin(len(fmt) - 1), cl, loc, 'a wrong number of items is returned', good) is not True:
                    continue
                p = start
                for i, c in enumerate(fmt[1:]):
                    w, signed = W[c]
                    if signed is not None:
                        x = seq_elem(q, Lin(i), f)
                        x = num(x) if x is not None else None
                        want = rfield(p, w, signed, fmt[0], f)
                        if x is None or want is None:
                            rep.und(R, '%s: item not understood' % cl)
                        else:
                            must_equal(rep, R, s, x, want, cl, loc, 'an item is not decoded with the format of the caller', good)
                    p += w
        # raw
        sp = Spec('%s raw' % label, fc, dict(kw, returns_raw=K(True)), [], None, addr=N(ADDR if fc else 0))
        cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
        for s, v in execute(I, rep, R, st, m, sp, kind, Config(stubs=stubs)):
            if not sends(s):
                continue
            good = base + fits + ok + (bcok if start == 2 else [])
            if isinstance(v, Exc):
                must_not(rep, R, s, good, cl, last_loc(s), 'raises %s for a valid response' % exc_name(I, s, v))
                continue
            same_bytes(rep, R, s, I.as_bytes(s, v), Bs((('sl', RP, Lin(start), RLEN - start),)), cl, last_loc(s), 'the raw data is not the data of the response', good)


# ------------------------------------------------------------------ C18
def probe(name):
    """a stub that notes a call and lets it happen"""
    def f(I, st, args, kw, fr, node):
        st.emit(Ev('probe', {'name': name, 'args': tuple(args)}, (fr.file, getattr(node, 'lineno', 0), fr.qual), st.facts, st.locks, fr.qual))
        return NotImplemented
    return f


def link(e):
    return e.kind == 'io' and e.d['op'] in SENDS + READS


def attempts(s):
    n = []

    def walk(evs, mult):
        for e in evs:
            if e.kind in ('io', 'iofail') and e.d['op'] in SENDS:
                n.extend([e] * mult)
            elif e.kind == 'loop':
                for c in e.body['conts']:
                    walk(c[1], 2)
    walk(s.events(), 1)
    return n


def transactions(kind):
    out = [('FC3', [N(UNIT), N(3), N(ADDR)], {'quantity_of_x': N(QTY)}), ('FC6', [N(UNIT), N(6), N(ADDR)], {'output_value': N(VALUE)}),
           ('FC22', [N(UNIT), N(22), N(ADDR)], {'and_mask': N(AM), 'or_mask': N(OM)}),
           ('RAW', [N(UNIT), N(0), N(0)], {'pdu': K(b'\x11'), 'data_format': K('>H'), 'expected_length': N(8)}),
           ('FC7', [N(UNIT), N(7), N(0)], {})]
    names = ('slave', 'function_code', 'starting_address', 'quantity_of_x', 'output_value', 'data_format', 'expected_length')
    for label, args, kw in list(out):
        # all arguments by name, and with those that are given their default
        full = dict(zip(names, args), **kw)
        out.append((label + ' by name', [], full))
        if label != 'RAW':
            out.append((label + ' by name, more', [], dict({'quantity_of_x': N(0), 'output_value': N(0), 'data_format': K(''), 'expected_length': N(-1)}, **full)))
    out.append(('FC3 raw', [N(UNIT), N(3), N(ADDR)], {'quantity_of_x': N(QTY), 'returns_raw': TRUE}))
    out.append(('FC3 with a format', [N(UNIT), N(3), N(ADDR)], {'quantity_of_x': N(2), 'data_format': K('>i')}))
    out.append(('FC16 raw', [N(UNIT), N(16), N(ADDR)], {'output_value': Tup(N(VALUE)), 'returns_raw': TRUE}))
    out.append(('FC3 by position', [N(UNIT), N(3), N(ADDR), N(QTY), N(0), K(''), N(-1)], {}))
    return out


def c18(I, rep):
    R, RO, RQ = 'transaction-section', 'one-request', 'response-check'
    for kind in ('tcp', 'rtu', 'rot'):
        mod, cls, q, qm = MASTERS[kind]
        st, m = make_master(I, kind)
        probes = {}
        for b in ('build_request', 'parse_response'):
            c = need(I, qm, q)
            f = I.class_attr(st, c, b)
            if f is not None and isinstance(f[0], Fn):
                probes[f[0].qual] = probe(b)
        ops = []
        for label, args, kw in transactions(kind):
            for faults in ((), ('io',)):
                I.cfg = Config(stubs=probes, faults=faults, peel=3)
                try:
                    outs = callm(I, st.fork(), m, 'execute', args, kw)
                except Budget:
                    rep.und(R, '%s.execute %s: analysis budget exceeded' % (cls, label))
                    continue
                name = '%s.execute' % cls
                ops.append(Op(name, outs))
                for s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    one_request(I, rep, RO, RQ, s, v, name, st)
        sections(rep, R, ops, st, set(), set(), 'the link', access=link)


def one_request(I, rep, RO, RQ, s, v, name, base):
    at = attempts(s)
    if len(at) > 1:
        must_not(rep, RO, s, [], name, at[1].loc, 'sends more than one request in one call')
    else:
        rep.ok(RO)
    if isinstance(v, Exc):
        return
    if not at:
        must_not(rep, RO, s, [], name, last_loc(s), 'returns without having sent a request')
        return
    evs = s.events()
    send = [i for i, e in enumerate(evs) if e.kind == 'io' and e.d['op'] in SENDS]
    built = [e for e in evs if e.kind == 'probe' and e.d['name'] == 'build_request']
    parsed = [(i, e) for i, e in enumerate(evs) if e.kind == 'probe' and e.d['name'] == 'parse_response']
    if not parsed or not built or not send:
        rep.und(RQ, '%s: building or checking of the query not recognised' % name)
        return
    q = built[-1].d['args'][0]
    i, p = parsed[-1]
    if p.d['args'][0] != q:
        must_not(rep, RQ, s, [], name, p.loc, 'checks the response against another query than the one that was sent')
        return
    if isinstance(q, Ref) and base.has(q.oid):
        must_not(rep, RQ, s, [], name, p.loc, 'uses a query that other calls share')
        return
    reads = [k for k, e in enumerate(evs) if e.kind == 'io' and e.d['op'] in READS or e.kind == 'loop' and any(link(x) for c in e.body['conts'] for x in flat(c[1]))]
    late = [k for k in reads if send[0] < k < i]
    if not late:
        must_not(rep, RQ, s, [], name, p.loc, 'does not read the response after the request has been sent')
        return
    # what is checked was read after the request was sent
    got = I.as_bytes(s, p.d['args'][1]) if len(p.d['args']) > 1 else None
    starts = [num(x) for x in ()]
    if got is not None and got.segs and got.segs[0][0] == 'sl':
        first = None
        for k in late:
            e = evs[k]
            if e.kind == 'io':
                r = I.as_bytes(s, e.d['ret']) if e.d.get('ret') is not None else None
                if r is not None and r.segs and r.segs[0][0] == 'sl':
                    first = r.segs[0]
                    break
        if first is not None and first[1] == got.segs[0][1]:
            must_be(rep, RQ, s, ('ge', got.segs[0][2] - first[2]), name, p.loc, 'takes bytes that were received before the request was sent for the response')
            return
    rep.ok(RQ)


# ------------------------------------------------------------------ C24
def reads_of(s):
    """[(event, offset, requested)] of the reads of a path that got something, loops included"""
    out = []
    for e in flat(s.events()):
        if e.kind == 'io' and e.d['op'] in READS and e.d['args']:
            n = num(e.d['args'][0])
            r = e.d.get('ret')
            if isinstance(r, Bs) and n is not None and len(r.segs) == 1 and r.segs[0][0] == 'sl':
                out.append((e, r.segs[0], n))
    return out


class At(object):
    """a partition with the facts at one event"""

    def __init__(self, s, facts):
        self.flags, self.facts = frozenset(x for x in s.flags if x != 'peeled'), facts


def c24(I, rep):
    R, RT = 'receive-length', 'receive-ends'
    EXP = sym('expected')
    for kind in ('tcp', 'rtu', 'rot'):
        mod, cls, q, qm = MASTERS[kind]
        st, m = make_master(I, kind)
        I.cfg = Config()
        st, _ = only(callm(I, st, m, 'open'), 'open')
        c = I.class_of(st, m)
        if not has_method(I, st, m, '_recv'):
            raise Missing('%s._recv' % cls)
        name = '%s._recv' % cls
        variants = [('', st)]
        if kind == 'rtu':
            s1, _ = only(callm(I, st.fork(), m, 'set_timeout', [N(sym('limit', 1, 100))]), 'set_timeout')
            variants = [('', s1)]
        for _, s0 in variants:
            if kind != 'tcp':
                s0 = s0.assume(('ge', EXP - 1)).fork()
            if kind == 'rot':
                s0 = s0.assume(('ge', Lin(255) - EXP)).fork()
            s0.trace, s0.ntrace = None, 0
            for peel in (3, 0):
                I.cfg = Config(peel=peel)
                try:
                    outs = callm(I, s0.fork(), m, '_recv', [N(EXP)])
                except Budget:
                    rep.und(R, '%s: analysis budget exceeded' % name)
                    continue
                for s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    receive(I, rep, R, s, v, kind, name, EXP, peel)
        s0 = st
        if kind == 'rtu':
            s0, _ = only(callm(I, st.fork(), m, 'set_timeout', [N(Lin(1))]), 'set_timeout')
        s0 = s0.fork()
        s0.trace, s0.ntrace = None, 0
        streams(I, rep, R, kind, s0, m, name)
        # the receive ends
        for sw in ((False, True) if kind == 'rtu' else (False,)):
            s0 = st
            if kind == 'rtu':
                s0, _ = only(callm(I, st.fork(), m, 'set_timeout', [N(sym('limit', 1, 100))] + ([TRUE] if sw else [])), 'set_timeout')
                s0.trace, s0.ntrace = None, 0
            I.cfg = Config(faults=('io',))
            try:
                outs = callm(I, s0.fork(), m, '_recv', [N(EXP)])
            except Budget:
                rep.und(RT, '%s: analysis budget exceeded' % name)
                continue
            for s, v in outs:
                endless(rep, RT, s, name)
            # closed or silent after the first bytes
            for given, mute in [(n, None) for n in (0, 1, 3, 6, 7, 8)] + [(n, x) for n in (0, 1, 5, 6, 8) for x in ('TimeoutError', 'ConnectionResetError') if kind != 'rtu']:
                I.cfg = Config(silent=given, peel=given + 4, mute=mute)
                try:
                    outs = callm(I, s0.fork(), m, '_recv', [N(EXP)])
                except Budget:
                    rep.und(RT, '%s: analysis budget exceeded' % name)
                    continue
                for s, v in outs:
                    if 'stuck' not in s.flags:
                        rep.ok(RT)
                        continue
                    s.flags = frozenset(x for x in s.flags if x not in ('stuck', 'peeled'))
                    must_not(rep, RT, s, [], name, last_read(s) or last_loc(s), 'never ends when the link is %s after %d bytes' % ('reset' if mute == 'ConnectionResetError' else 'silent' if mute else 'closed or silent', given))


class Stream(object):
    """a link that gives a response, and more bytes after it, in parts of at most `part` bytes"""

    def __init__(self, head, total, more, part):
        self.head, self.total, self.more, self.part = head, total, more, part

    def peer(self, I, st, o, name, args, kw, fr, node):
        if name in ('recv', 'read', 'recv_into', 'readinto') and len(args) == 1 and not kw:
            n = I.intlin(args[0])
            if name in ('recv_into', 'readinto') or n is None:
                return None
            if not n.is_const:
                i = st.facts.interval(n, 1 << 17)
                if i[0] is None or i[0] != i[1]:
                    return None
                n = Lin(i[0])
            s = st.fork()
            v = s.getext(('taken', o))
            p = v.l.c if v is not None else 0
            k = max(min(n.c, self.part, self.total + self.more - p), 0)
            if not k and name == 'recv':
                return [I.raise_(s, 'TimeoutError')]
            segs, q, e = [], p, p + k
            if q < min(e, len(self.head)):
                segs.append(('lit', self.head[q:min(e, len(self.head))]))
                q = min(e, len(self.head))
            if q < e:
                segs.append(('sl', 'stream', Lin(q), Lin(e - q)))
            b = Bs(tuple(segs))
            s.setext(('taken', o), N(Lin(p + k)))
            I.emit(s, 'took', fr, node, upto=p + k, asked=n.c)
            I.emit(s, 'io', fr, node, op=name, recv=o, args=(N(n),), ret=b)
            return [(s, b)]
        return None


def streams(I, rep, R, kind, st, m, name):
    """responses of known length, in parts, with other bytes behind them"""
    sizes = (2, 3, 5, 9, 250, 254, 300) if kind == 'tcp' else (4, 5, 8, 9, 25, 254, 255)
    for size in sizes:
        total = 6 + size if kind == 'tcp' else size
        for part in (1, 2, 3, 5, 1 << 17):
            for more in (0, 1, 30, 3000):
                if part < 3 and (size > 250 or more > 1):
                    continue
                head = b'\x00\x01\x00\x00' + bytes(bytearray([size >> 8, size & 255])) if kind == 'tcp' else b''
                sc = Stream(head, total, more, part)
                I.cfg = Config(peer=sc.peer, peel=700)
                try:
                    outs = callm(I, st.fork(), m, '_recv', [N(Lin(total if kind != 'tcp' else -1))])
                except Budget:
                    rep.und(R, '%s: analysis budget exceeded' % name)
                    continue
                what = 'a response of %d bytes%s, at most %d at a time' % (total, ' followed by %d others' % more if more else '', min(part, total))
                for s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    over = [e for e in flat(s.events()) if e.kind == 'took' and e.d['upto'] > total]
                    if over:
                        must_not(rep, R, At(s, over[0].facts), [], name, over[0].loc, 'takes bytes behind the response off the link: %s' % what)
                        continue
                    if isinstance(v, Exc):
                        must_not(rep, R, s, [], name, last_loc(s), 'fails with %s: %s' % (exc_name(I, s, v), what))
                        continue
                    got = I.as_bytes(s, I.snap(s, v))
                    if got is None or anyimp(got):
                        rep.und(R, '%s: result not tracked: %s' % (name, what))
                        continue
                    want = Bs(((('lit', head),) if head else ()) + (('sl', 'stream', Lin(len(head)), Lin(total - len(head))),))
                    same_bytes(rep, R, s, got, want, name, last_loc(s), 'does not return the whole response: %s' % what, [])


def last_read(s):
    l = None
    for e in s.events():
        if e.kind == 'io' and e.d['op'] in READS:
            l = e.loc
    return l


def receive(I, rep, R, s, v, kind, name, EXP, peel):
    ok = [] if kind == 'tcp' else [('ge', EXP - 1)] + ([('ge', Lin(255) - EXP)] if kind == 'rot' else [])
    base = None
    for e, g, n in reads_of(s):
        base = g[1]
        at = At(s, e.facts)
        p = g[2]
        if kind == 'tcp':
            L = fld(base, Lin(4), 2, False, '>')
            must_not(rep, R, at, ok + [('ge', Lin(5) - p), ('ge', p + n - 7)], name, e.loc, 'reads beyond the header before the length is known')
            must_not(rep, R, at, ok + [('ge', p - 6), ('ge', p + n - L - 7)], name, e.loc, 'reads beyond the end of the response')
        else:
            must_not(rep, R, at, ok + [('ge', p + n - EXP - 1)], name, e.loc, 'asks for more than what is missing of the response')
    if isinstance(v, Exc) or base is None:
        return
    pos = ZERO
    for k, x in s.ext.items():
        if k[0] == 'pos' and 'in(%r)' % (k[1],) == base:
            pos = x.l
    got = I.as_bytes(s, v)
    if got is None or anyimp(got):
        rep.und(R, '%s: result not tracked: %s' % (name, str(v)[:100]))
        return
    same_bytes(rep, R, s, got, Bs((('sl', base, ZERO, pos),)), name, last_loc(s), 'does not return what was received', ok)
    # complete unless the link gave nothing
    empty = False
    for e in s.events():
        if e.kind == 'io' and e.d['op'] in READS:
            r = e.d.get('ret')
            empty = not isinstance(r, Bs) or not s.facts.entails_ge(r.length() - 1)
    if empty or 'peeled' in s.flags:
        return
    want = fld(base, Lin(4), 2, False, '>') + 6 if kind == 'tcp' else EXP
    must_equal(rep, R, s, pos, want, name, last_loc(s), 'stops receiving before the response is complete', ok)


def endless(rep, R, s, name):
    """no loop can go on for ever when the link gives nothing more"""
    def walk(evs):
        for e in evs:
            if e.kind != 'loop':
                continue
            for lits, cevs, cs in e.body['conts']:
                walk(cevs)
                if e.d.get('n') is not None:
                    continue
                rd = [x for x in cevs if x.kind in ('io', 'iofail') and x.d['op'] in READS]
                ats = set()
                for l in lits:
                    if l[0] in ('ge', 'eq', 'ne'):
                        for a in l[1].free_atoms():
                            ats.add(a)
                counted = e.d['k'].id in ats
                for x in rd:
                    if x.kind == 'iofail':
                        if not counted and not vague(cs):
                            rep.bad(R, name, x.loc, 'goes on for ever when reading fails')
                        continue
                    r = x.d.get('ret')
                    if isinstance(r, Bs) and cs.facts.entails_ge(r.length() - 1):
                        rep.ok(R)
                        continue
                    n = r.length() if isinstance(r, Bs) else None
                    f = cs.facts.add('eq', n) if n is not None else None
                    if f is None or not f.feasible():
                        rep.ok(R)
                    elif not counted and not vague(cs) and all(y.kind != 'io' or y is x for y in rd):
                        rep.bad(R, name, x.loc, 'goes on for ever when the link is closed or silent')
                    else:
                        rep.und(R, '%s: a loop that goes on after an empty read was not decided' % name)
    walk(s.events())


# ------------------------------------------------------------------ C06, master side
def c06_master(I, rep):
    """coils and registers in the requests and responses of a master"""
    R = 'master-coding'
    specs = [sp for sp in regs_spec(I) if sp.label in ('FC1', 'FC2', 'FC3', 'FC4', 'FC5 on', 'FC5 off', 'FC6', 'FC16', 'FC16 with 2 values', 'FC23 with 2 values')]
    for kind in ('rtu', 'tcp'):
        pdus(I, rep, R, [sp for sp in specs if not sp.reads], kind)
        coils(I, rep, R, kind)
        few_coils(I, rep, R, kind)
        st, m, stubs = answered(I, kind)
        W = wants()
        for sp in specs:
            if not sp.reads:
                continue
            cl = '%s.execute %s' % (MASTERS[kind][1], sp.label)
            valid = rng(UNIT, 0, 255) + sp.fits + ([('ge', Lin(252) - RLEN)] if kind == 'tcp' else [])
            for s, v in execute(I, rep, R, st, m, sp, kind, Config(stubs=stubs)):
                if not sends(s) or isinstance(v, Exc):
                    continue
                if sp.fc in (1, 2):
                    coil_items(I, rep, R, s, v, cl, valid + [('ge', QTY - 1), ('eq', rfield(1, 1) - RLEN + 2)])
                else:
                    w = W[sp.label]
                    items(I, rep, R, s, v, cl, valid + w.valid, w)
