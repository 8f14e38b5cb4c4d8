"""C09, C10, C14: request dispatch of the databank and the slave registry."""
from ..drive import *
from ..drive import SlaveEnv, pdu_fc, const, exc_name, exc_is, only, call, callm, need
from ..bytesops import bs_int, bs_byte
from ..lin import bor, literal_not
from ..models import crc_atom
from ..values import substx
from .base import *
from .slave import MAPPED, Out, PLEN

MB = 'modbus_tk.modbus'
QPARSE, QBUILD = MB + '.Query.parse_request', MB + '.Query.build_response'
SILENT = ('modbus.Databank.on_error', 'modbus.Slave.on_exception', 'modbus.Server.on_exception',
          'modbus.Slave.on_handle_broadcast', 'modbus.Server.before_handle_request', 'modbus.Server.after_handle_request')


SETITEM = 'modbus.ModbusBlock.setitem'


def exc_of(I, st, cls, *args):
    """(state, Exc) of a new exception of a package class or builtin"""
    if cls.startswith('B:'):
        return I.raise_(st, cls[2:])
    mod = 'modbus_tk.exceptions'
    s, v = only(call(I, st, need(I, mod, cls), list(args)), cls)
    return s, Exc(v)


HOOKCODE = sym('hookcode', 1, 255)


def hookexc(I, st, name, tag):
    if tag == 'ME':
        return exc_of(I, st, 'ModbusError', N(HOOKCODE))
    if tag == 'MIR':
        return exc_of(I, st, 'ModbusInvalidRequestError', K('no'))
    if tag in ('MissingKeyError', 'InvalidArgumentError', 'DuplicatedKeyError'):
        return exc_of(I, st, tag, K('no'))
    if tag.startswith('B:'):
        return exc_of(I, st, tag)
    return exc_of(I, st, 'B:ValueError')


def query(I, st):
    I.cfg = Config()
    return only(call(I, st.fork(), need(I, MB, 'Query'), []), 'Query()')


def stubs_for(sid, pdu):
    def parse(I, st, args, kw, fr, node):
        return [(st, Tup(sid, pdu))]

    def build(I, st, args, kw, fr, node):
        return [(st, T('framed', (args[-1] if args else NONE,)))]
    return {QPARSE: parse, QBUILD: build}


def framed(v):
    return v.args[0] if isinstance(v, T) and v.op == 'framed' else None


def nothing(I, s, v):
    if isinstance(v, K) and v.v in (None, '', False):
        return True
    b = I.as_bytes(s, v)
    return b is not None and b.length() == ZERO


def caught(s):
    """last caught exception of the path, or None"""
    r = None
    for e in s.events():
        if e.kind == 'caught':
            r = e
    return r


def code_of(I, s, exc):
    """code of a caught ModbusError; None when it is none; '?' when not constant"""
    if exc_is(I, s, exc, need(I, 'modbus_tk.exceptions', 'ModbusError')):
        cfg, I.cfg = I.cfg, Config()
        try:
            outs = callm(I, s.fork(), exc, 'get_exception_code')
        finally:
            I.cfg = cfg
        if len(outs) == 1 and num(outs[0][1]) is not None:
            return num(outs[0][1])
        return '?'
    return None


# ------------------------------------------------------------------ C09
def c09(I, rep):
    R = 'answer'
    # hooks of the request, then those of the cells
    entry = {'*': ('none', 'exc:ME', 'exc:EX', 'ret'), SETITEM: ('none',)}
    cells = {'*': ('none',), SETITEM: ('exc:ME', 'exc:EX')}
    for n in SILENT:
        entry[n] = ('none',)
    # any kind of failure is answered alike, also those the library itself uses for other purposes
    kinds = {'*': ('none',) + tuple('exc:' + x for x in (
        'MissingKeyError', 'InvalidArgumentError', 'DuplicatedKeyError'))}
    for n in list(SILENT) + [SETITEM]:
        kinds[n] = ('none',)
    cells2 = {'*': ('none',), SETITEM: ('exc:MissingKeyError', 'exc:DuplicatedKeyError')}
    for unsigned, hooks in ((True, entry), (False, entry), (True, cells), (True, cells2), (True, kinds)):
        E = SlaveEnv(I, unsigned, False, bank=True)
        for fc in MAPPED + ('other', 'empty') if hooks not in (cells, cells2) else (5, 6, 15, 16, 22, 23):
            if fc == 'empty':
                PDU, label = Bs(()), 'empty PDU'
            elif fc == 'other':
                PDU, label = Bs((('sl', 'pdu', ZERO, PLEN),)), 'FC other'
            else:
                PDU, label = pdu_fc(fc), 'FC%d' % fc
            st, q = query(I, E.st)
            if fc == 'other':
                for m in MAPPED:
                    st.facts = st.facts.add('ne', fld('pdu', ZERO, 1, False, '>') - m)
            I.cfg = Config(stubs=stubs_for(N(E.sid), PDU), hooks=hooks, hookexc=hookexc)
            try:
                outs = callm(I, st, E.bank, 'handle_request', [q, T('request', (), 'bytes')])
            except Budget:
                rep.und(R, '%s: analysis budget exceeded' % label)
                continue
            for s, v in outs:
                rep.paths += 1
                functions(rep, s)
                one09(I, rep, R, E, fc, label, s, v)


def one09(I, rep, R, E, fc, label, s, v):
    loc = last_loc(s)
    hk = [e for e in s.events() if e.kind == 'hook' and e.d['out'] != 'none']
    what = ''
    if hk:
        what = ' when hook %s %s' % (hk[-1].d['name'], 'returns a value' if hk[-1].d['out'] == 'ret' else 'raises')
    if isinstance(v, Exc):
        must_not(rep, R, s, [], label, loc, 'handling a request raises %s towards the transport%s' % (exc_name(I, s, v), what))
        return
    if nothing(I, s, v):
        must_not(rep, R, s, [], label, loc, 'a request gets no answer%s' % what)
        return
    f = framed(v)
    if f is None:
        if any(e.d['out'] == 'ret' for e in hk):
            return
        must_not(rep, R, s, [], label, loc, 'the answer %s is not framed by the transport%s' % (str(v)[:80], what), vals=[v])
        return
    if framed(f) is not None:
        must_not(rep, R, s, [], label, loc, 'the answer is framed twice')
        return
    if any(e.d['out'] == 'ret' for e in hk):
        rep.ok(R)
        return
    b = I.as_bytes(s, f)
    if b is None:
        must_not(rep, R, s, [], label, loc, 'the answer %s is not a byte string' % str(f)[:80], vals=[f])
        return
    n = b.length()
    must_be(rep, R, s, ('ge', n - 1), label, loc, 'the answer is an empty frame', vals=[f])
    first = bs_byte(b, ZERO, s.facts) if s.facts.entails_ge(n - 1) else None
    if first is None:
        rep.und(R, '%s: first byte of the answer unknown' % label)
        return
    if fc == 'empty':
        must_be(rep, R, s, ('eq', n - 2), label, loc, 'the answer to an empty request is not an exception response')
        if s.facts.entails_eq(n - 2):
            must_be(rep, R, s, ('eq', bs_byte(b, ONE, s.facts) - 4), label, loc, 'an empty request is not answered with SLAVE DEVICE FAILURE')
        return
    FC = Lin(fc) if fc != 'other' else fld('pdu', ZERO, 1, False, '>')
    exc = bor(FC, Lin(0x80))
    normal = s.facts.equal(first, FC) and not (fc == 'other')
    if normal:
        if any(e.d['out'].startswith('exc') for e in hk):
            must_not(rep, R, s, [], label, loc, 'a request is answered normally%s' % what)
        else:
            rep.ok(R)
        return
    if must_equal(rep, R, s, first, exc, label, loc, 'the answer%s does not start with the function code or the function code '
                                                     'with the high bit set' % what) is not True:
        return
    if must_be(rep, R, s, ('eq', n - 2), label, loc, 'the exception response%s is not two bytes long' % what) is not True:
        return
    code = bs_byte(b, ONE, s.facts)
    ex = [e for e in hk if e.d['out'].startswith('exc')]
    if ex:
        if ex[-1].d['out'] == 'exc:ME':
            must_equal(rep, R, s, code, HOOKCODE, label, loc, 'the code is not the one raised%s' % what)
        else:
            must_equal(rep, R, s, code, Lin(4), label, loc, 'the code is not SLAVE DEVICE FAILURE%s' % what)
        return
    if fc == 'other':
        must_equal(rep, R, s, code, Lin(1), label, loc, 'a function without handler is not answered with ILLEGAL FUNCTION')
        return
    must_be(rep, R, s, ('ne', code - 1), label, last_loc(s, kinds=('raise',), default=loc),
            'a function that has a handler is answered with ILLEGAL FUNCTION')
    c = caught(s)
    if c is None:
        rep.ok(R)
        return
    x = c.d['exc']
    k = code_of(I, s, x)
    name = exc_name(I, s, x)
    if k == '?' or name == '?' or name.startswith('$'):
        rep.und(R, '%s: exception %s not followed' % (label, name))
    elif k is not None:
        must_equal(rep, R, s, code, k, label, c.loc, 'the code differs from the one that was raised (%s)' % k)
    elif name in ('error', 'struct.error'):
        # too few bytes: either a wrong value or a failure
        must_not(rep, R, s, [('ne', code - 4), ('ne', code - 3)], label, c.loc, 'a failure to unpack the request is answered with a wrong code')
    else:
        must_equal(rep, R, s, code, Lin(4), label, c.loc, 'an unexpected %s is not answered with SLAVE DEVICE FAILURE' % name)


# ------------------------------------------------------------------ C10
HR = 'modbus.Slave.handle_request'


def registry(I, n, missing=None):
    """state with a databank that holds n slaves of different ids"""
    I.cfg = Config()
    st = I.new_state()
    args = [] if missing is None else [K(missing)]
    st, bank = only(call(I, st, need(I, MB, 'Databank'), args), 'Databank()')
    ids, slaves = [], []
    for i in range(n):
        d = sym('id%d' % i, 1, 255)
        for o in ids:
            st.facts = st.facts.add('ne', d - o)
        ok = [(s, v) for s, v in callm(I, st, bank, 'add_slave', [N(d)]) if not isinstance(v, Exc)]
        if len(ok) != 1 or not isinstance(ok[0][1], Ref):
            raise Missing('Databank.add_slave')
        st, sl = ok[0]
        ids.append(d)
        slaves.append(sl)
    st.trace, st.ntrace = None, 0
    return st, bank, ids, slaves


def fired(s):
    """slaves whose handle_request hook point was reached, in order, with the PDU given"""
    out = []
    for e in flat(s.events()):
        if e.kind == 'hook' and e.d['name'] == HR:
            a = e.d['args']
            it = [x[1] for x in a.segs if x[0] == 'item'] if isinstance(a, Sq) else []
            out.append((it[0] if it else None, it[1] if len(it) > 1 else None, e))
    return out


def dispatch(I, rep, R, n, missing, unit, ulits, pdu, hooks, check):
    st, bank, ids, slaves = registry(I, n, missing)
    st, q = query(I, st)
    for l in ulits(ids):
        f = st.facts.add_literal(l)
        st.facts = f
    hk = dict((x, ('none',)) for x in SILENT)
    hk['*'] = ('none',)
    hk[HR] = hooks
    I.cfg = Config(stubs=stubs_for(N(unit(ids)), pdu), hooks=hk, hookexc=hookexc)
    outs = callm(I, st, bank, 'handle_request', [q, T('request', (), 'bytes')])
    for s, v in outs:
        rep.paths += 1
        functions(rep, s)
        check(s, v, slaves)


def c10(I, rep):
    R = 'dispatch'
    modes = ('none', 'exc:ME', 'exc:EX', 'ret')
    pdu = pdu_fc(6)
    seen = [0]

    for missing in (None, True, False):
        # a registered id
        def known(s, v, slaves):
            fs = fired(s)
            seen[0] += len(fs)
            loc = fs[0][2].loc if fs else last_loc(s)
            for x, p, e in fs:
                if x is not None and x != slaves[1]:
                    must_not(rep, R, s, [], 'Databank.handle_request', e.loc,
                             'a request to one slave id is handed to another slave')
                if p is not None and p != pdu:
                    must_not(rep, R, s, [], 'Databank.handle_request', e.loc,
                             'the slave does not get the PDU of the request', vals=[p])
            if len([1 for x, p, e in fs if x == slaves[1]]) > 1:
                must_not(rep, R, s, [], 'Databank.handle_request', loc, 'a request is executed twice')
            elif not fs:
                must_not(rep, R, s, [], 'Databank.handle_request', loc, 'a request to a registered slave id is not executed')
            else:
                rep.ok(R)
        dispatch(I, rep, R, 3, missing, lambda ids: ids[1], lambda ids: [], pdu, modes, known)

        # an unknown id
        u = sym('unit', 1, 255)
        for n in (0, 1, 2):
            def unknown(s, v, slaves):
                for x, p, e in fired(s):
                    must_not(rep, R, s, [], 'Databank.handle_request', e.loc, 'a request to an unknown slave id is executed by another slave')
                if isinstance(v, Exc):
                    must_not(rep, R, s, [], 'Databank.handle_request', last_loc(s),
                             'a request to an unknown slave id raises %s (error_on_missing_slave=%s)' % (exc_name(I, s, v), missing))
                elif not nothing(I, s, v):
                    must_not(rep, R, s, [], 'Databank.handle_request', last_loc(s),
                             'a request to an unknown slave id is answered (error_on_missing_slave=%s)' % missing, vals=[v])
                else:
                    rep.ok(R)
            dispatch(I, rep, R, n, missing, lambda ids: u, lambda ids: [('ne', u - d) for d in ids], pdu, ('none', 'ret'), unknown)

        # broadcast
        for n in (0, 1, 3):
            for fc in (6, 1):
                p2 = pdu_fc(fc)

                def all_(s, v, slaves):
                    fs = fired(s)
                    seen[0] += len(fs)
                    hit = [x for x, p, e in fs]
                    if isinstance(v, Exc):
                        must_not(rep, R, s, [], 'Databank.handle_request', last_loc(s), 'a broadcast raises %s' % exc_name(I, s, v))
                    elif not nothing(I, s, v):
                        must_not(rep, R, s, [], 'Databank.handle_request', last_loc(s), 'a broadcast is answered', vals=[v])
                    if None in hit:
                        rep.und(R, 'broadcast: arguments of the hook not followed')
                        return
                    for x in slaves:
                        c = hit.count(x)
                        bad = [e.d['out'] for y, p, e in fs if e.d['out'] != 'none']
                        if c == 0:
                            why = ' after one of them %s' % {'ret': 'was handled by a hook'}.get(bad[-1], 'failed') if bad else ''
                            must_not(rep, R, s, [], 'Databank.handle_request', last_loc(s), 'a broadcast does not reach every slave%s' % why)
                        elif c > 1:
                            must_not(rep, R, s, [], 'Databank.handle_request', last_loc(s), 'a broadcast is executed twice by a slave')
                        else:
                            rep.ok(R)
                    for x, p, e in fs:
                        if p is not None and p != p2:
                            must_not(rep, R, s, [], 'Databank.handle_request', e.loc, 'the slaves do not get the PDU of the broadcast', vals=[p])
                dispatch(I, rep, R, n, missing, lambda ids: ZERO, lambda ids: [], p2, modes, all_)
    if not seen[0]:
        rep.und(R, 'the hook point of slaves was not reached')
    repeated(I, rep)
    broadcast_effects(I, rep)


def earlier_requests(I, kind, mod, cls, n=2):
    """a server that handled one request before: (state, server, ids, slaves, request, size, same) per kind of earlier request"""
    off = 7 if kind == 'tcp' else 1
    for same in (True, False):
        for first in ('known', 'unknown'):
            if same and first == 'unknown':
                continue
            st, bank, ids, slaves = registry(I, n)
            st, srv = make_server(I, st, mod, cls, kind, databank=bank)
            req = Bs((('sl', 'req', ZERO, Lin(off + 5 + (2 if kind == 'rtu' else 0))),))
            old = req if same else Bs((('sl', 'old', ZERO, req.length()),))
            for name in ('req',) if same else ('req', 'old'):
                m = req.length()
                lits = [('eq', fld(name, Lin(off), 1, False, '>') - 6)]
                if kind == 'tcp':
                    lits += [('eq', fld(name, Lin(4), 2, False, '>') - m + 6)]
                else:
                    lits += [('eq', fld(name, m - 2, 2, False, '>') - crc_atom(Bs((('sl', name, ZERO, m - 2),))))]
                st.facts = st.facts.add_all(lits)
            u = fld('old', Lin(off - 1), 1, False, '>')
            if not same:
                st.facts = st.facts.add_all([('eq', u - ids[0])] if first == 'known' else [('ne', u - d) for d in ids])
            yield st, srv, ids, slaves, old, req, fld('req', Lin(off - 1), 1, False, '>'), same


def handled(I, st, srv, old, req, hk):
    """outcomes of the second of two requests of a server, with the events of that one only"""
    I.cfg = Config(hooks=hk, hookexc=hookexc)
    for s, v in callm(I, st.fork(), srv, '_handle', [old]):
        if isinstance(v, Exc):
            continue
        s.trace, s.ntrace = None, 0
        for s2, v2 in callm(I, s.fork(), srv, '_handle', [req]):
            if s2.facts.feasible():
                yield s2, v2


def repeated(I, rep):
    """a request that follows another one, also when it is the same once more, is dispatched like the first"""
    R = 'second-request'
    hk = dict((x, ('none',)) for x in SILENT)
    hk['*'] = ('none',)
    for kind, mod, cls in (('tcp', 'modbus_tk.modbus_tcp', 'TcpServer'), ('rtu', 'modbus_tk.modbus_rtu', 'RtuServer')):
        for unit in ('known', 'all', 'unknown'):
            for st, srv, ids, slaves, old, req, u, same in earlier_requests(I, kind, mod, cls):
                lits = {'known': [('eq', u - ids[0])], 'all': [('eq', u)], 'unknown': [('ge', u - 1)] + [('ne', u - d) for d in ids]}[unit]
                st = st.fork()
                st.facts = st.facts.add_all(lits)
                if st.facts is None or not st.facts.feasible():
                    continue
                W = '%s._handle' % cls
                what = 'a request that is repeated' if same else 'a request that follows another one'
                try:
                    outs = list(handled(I, st, srv, old, req, hk))
                except Budget:
                    rep.und(R, W + ': analysis budget exceeded')
                    continue
                for s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    fs = [x for x, p, e in fired(s)]
                    want = {'known': slaves[:1], 'all': slaves, 'unknown': []}[unit]
                    if isinstance(v, Exc):
                        must_not(rep, R, s, [], W, last_loc(s), '%s raises %s' % (what, exc_name(I, s, v)))
                    elif None in fs:
                        rep.und(R, W + ': arguments of the hook not followed')
                    elif sorted(map(str, fs)) != sorted(map(str, want)):
                        must_not(rep, R, s, [], W, last_loc(s), '%s to %s is executed by %s' % (
                            what, {'known': 'a registered id', 'all': 'all slaves', 'unknown': 'an unknown id'}[unit],
                            'no slave' if not fs else '%d slave(s), not the one addressed just once' % len(fs)))
                    elif unit != 'known' and not nothing(I, s, v):
                        must_not(rep, R, s, [], W, last_loc(s), '%s to %s is answered' % (what, unit), vals=[v])
                    elif unit == 'known' and nothing(I, s, v):
                        must_not(rep, R, s, [], W, last_loc(s), '%s gets no answer' % what)
                    else:
                        rep.ok(R)


def signature(I, s):
    """what a path of request handling did: writes, last exception"""
    c = caught(s)
    x = ''
    if c is not None:
        k = code_of(I, s, c.d['exc'])
        x = '%s %s' % (exc_name(I, s, c.d['exc']), k if k is not None else '')
    wr = any(e.kind == 'wr' for e in flat(s.events()))
    return wr, x


READS = ('modbus.Slave.handle_read_coils_request', 'modbus.Slave.handle_read_discrete_inputs_request',
         'modbus.Slave.handle_read_holding_registers_request', 'modbus.Slave.handle_read_input_registers_request',
         'modbus.Slave.on_handle_broadcast')


def broadcast_effects(I, rep):
    """a real slave: reads are not executed for a broadcast, writes are executed as for one slave"""
    R = 'broadcast-effect'
    E = SlaveEnv(I, True, False, bank=True)
    for fc in (1, 2, 3, 4, 5, 6, 15, 16):
        res = {}
        for unit in ('own', 'all'):
            st, q = query(I, E.st)
            PDU = pdu_fc(fc)
            I.cfg = Config(stubs=stubs_for(N(E.sid) if unit == 'own' else N(0), PDU))
            try:
                res[unit] = callm(I, st, E.bank, 'handle_request', [q, T('request', (), 'bytes')])
            except Budget:
                rep.und(R, 'FC%d: analysis budget exceeded' % fc)
                res = None
                break
        if res is None:
            continue
        sig = set(signature(I, s) for s, v in res['own'])
        for s, v in res['all']:
            rep.paths += 1
            functions(rep, s)
            if fc in (1, 2, 3, 4):
                hs = [e for e in flat(s.events()) if e.kind == 'hook' and e.d['name'] in READS]
                if hs:
                    must_not(rep, R, s, [], 'FC%d' % fc, hs[0].loc, 'a function that only reads is executed for a broadcast')
                else:
                    rep.ok(R)
                continue
            if isinstance(v, Exc):
                must_not(rep, R, s, [], 'FC%d' % fc, last_loc(s), 'a broadcast raises %s' % exc_name(I, s, v))
            g = signature(I, s)
            if not g[0] and g not in sig:
                must_not(rep, R, s, [], 'FC%d' % fc, last_loc(s),
                         'a broadcast that writes is not executed (%s) where the same request to one slave would be' % (g[1] or 'no reason'))
            else:
                rep.ok(R)


# ------------------------------------------------------------------ C14
def c14(I, rep):
    registry_rules(I, rep)
    servers(I, rep)


def has(I, st, bank, d):
    """partitions of a lookup: list of (state, slave or None)"""
    I.cfg = Config()
    miss = need(I, 'modbus_tk.exceptions', 'MissingKeyError')
    out = []
    for s, v in callm(I, st.fork(), bank, 'get_slave', [d]):
        if isinstance(v, Exc):
            out.append((s, None if exc_is(I, s, v, miss) else v))
        else:
            out.append((s, v))
    return out


def same_registry(I, rep, R, s, bank, ids, slaves, where, msg, gone=(), skip=()):
    """the ids are still registered with their slaves, and ids in gone are not"""
    for i, d in enumerate(ids):
        if i in skip:
            continue
        for s2, v in has(I, s, bank, N(d)):
            want = None if i in gone else slaves[i]
            if v != want:
                must_not(rep, R, s2, [], where, last_loc(s), '%s: looking up a registered id finds %s' % (
                    msg, 'nothing' if v is None else exc_name(I, s2, v) if isinstance(v, Exc) else 'another slave'),
                    vals=[v] if isinstance(v, T) else [])
            else:
                rep.ok(R)


def registry_rules(I, rep):
    for n in (3, 0, 1):
        registry_of(I, rep, n)


def registry_of(I, rep, n):
    R = 'registry'
    MK = need(I, 'modbus_tk.exceptions', 'MissingKeyError')
    st, bank, ids, slaves = registry(I, n)
    d = sym('new_id')
    # add
    I.cfg = Config()
    for s, v in callm(I, st.fork(), bank, 'add_slave', [N(d)]):
        rep.paths += 1
        functions(rep, s)
        W = 'Databank.add_slave'
        if isinstance(v, Exc):
            must_not(rep, R, s, [('ge', d - 1), ('ge', Lin(255) - d)] + [('ne', d - x) for x in ids], W, last_loc(s),
                     'a free id from 1 to 255 is refused with %s' % exc_name(I, s, v))
            same_registry(I, rep, R, s, bank, ids, slaves, W, 'after a refused addition')
            for s2, w in has(I, s, bank, N(d)):
                if w is not None and not (isinstance(w, Ref) and w in slaves):
                    must_not(rep, R, s2, [], W, last_loc(s), 'a refused addition registers a slave')
        else:
            for lits, m in [([('ge', -d)], 'zero or a negative id'), ([('ge', d - 256)], 'an id above 255')] + \
                    [([('eq', d - x)], 'an id that is in use') for x in ids]:
                must_not(rep, R, s, lits, W, last_loc(s), '%s is accepted' % m)
            for s2, w in has(I, s, bank, N(d)):
                if w != v:
                    must_not(rep, R, s2, [], W, last_loc(s), 'the slave that was added is not found under its id')
                else:
                    rep.ok(R)
            same_registry(I, rep, R, s, bank, ids, slaves, W, 'after an addition')
            c = I.class_of(s, v) if isinstance(v, Ref) else None
            if c is None or c != need(I, MB, 'Slave'):
                must_not(rep, R, s, [], W, last_loc(s), 'add_slave does not return the new slave', vals=[v])
    # get of any id
    for s, v in callm(I, st.fork(), bank, 'get_slave', [N(d)]):
        rep.paths += 1
        functions(rep, s)
        W = 'Databank.get_slave'
        if isinstance(v, Exc):
            if not exc_is(I, s, v, MK):
                must_not(rep, R, s, [], W, last_loc(s), 'looking up an id raises %s' % exc_name(I, s, v))
            for x in ids:
                must_not(rep, R, s, [('eq', d - x)], W, last_loc(s), 'a registered id is not found')
        else:
            if isinstance(v, Ref) and v in slaves:
                must_be(rep, R, s, ('eq', d - ids[slaves.index(v)]), W, last_loc(s), 'looking up an id gives the slave of another id')
            else:
                must_not(rep, R, s, [], W, last_loc(s), 'looking up an id gives no registered slave', vals=[v])
    # remove of any id
    for s, v in callm(I, st.fork(), bank, 'remove_slave', [N(d)]):
        rep.paths += 1
        functions(rep, s)
        W = 'Databank.remove_slave'
        if isinstance(v, Exc):
            if not exc_is(I, s, v, MK):
                must_not(rep, R, s, [], W, last_loc(s), 'removing an id raises %s' % exc_name(I, s, v))
            for x in ids:
                must_not(rep, R, s, [('eq', d - x)], W, last_loc(s), 'a registered id cannot be removed')
            same_registry(I, rep, R, s, bank, ids, slaves, W, 'after a refused removal')
        else:
            must_not(rep, R, s, [('ne', d - x) for x in ids], W, last_loc(s), 'removing an unknown id succeeds')
            for i, x in enumerate(ids):
                s2 = s.assume(('eq', d - x))
                if s2 is not None and s2.facts.feasible():
                    same_registry(I, rep, R, s2, bank, ids, slaves, W, 'after a removal', gone=(i,))
                    for s3, w in callm(I, s2.fork(), bank, 'add_slave', [N(x)]):
                        if isinstance(w, Exc):
                            must_not(rep, R, s3, [], W, last_loc(s3), 'an id cannot be used again after its removal')
                        else:
                            rep.ok(R)
    for s, v in callm(I, st.fork(), bank, 'remove_all_slaves'):
        rep.paths += 1
        functions(rep, s)
        W = 'Databank.remove_all_slaves'
        if isinstance(v, Exc):
            must_not(rep, R, s, [], W, last_loc(s), 'removing all slaves raises %s' % exc_name(I, s, v))
            continue
        same_registry(I, rep, R, s, bank, ids, slaves, W, 'after removing all slaves', gone=range(n))


SERVERS = [('modbus_tk.modbus_tcp', 'TcpServer', 'tcp'), ('modbus_tk.modbus_rtu', 'RtuServer', 'rtu'), (MB, 'Server', '')]


def make_server(I, st, mod, name, kind, **kw):
    args = []
    if kind == 'rtu':
        st, port = serial_port(I, st)
        args = [port]
    return only(call(I, st, need(I, mod, name), args, kw, mod=mod), name)


def serial_port(I, st, label='port', opened=FALSE, baud=9600):
    """an object that behaves like serial.Serial"""
    st = st.fork()
    r = st.new(ExtO('serial', {'is_open': opened, 'baudrate': N(baud),
                               'name': T('portname', (), 'str'), 'port': T('portname', (), 'str')}, ()), label)
    return st, r


def servers(I, rep):
    """servers pass on to the one databank"""
    R = 'server-databank'
    for mod, name, kind in SERVERS + [('modbus_tk.simulator', 'CompositeServer', 'comp')]:
        if I.glob(mod, name) is None:
            rep.und(R, '%s not found' % name)
            continue
        for given in ('none', 'empty', 'filled'):
            st, bank, ids, slaves = registry(I, 1 if given == 'filled' else 0)
            other = slaves[0] if slaves else None
            I.cfg = Config()
            kw = {} if given == 'none' else {'databank': bank}
            try:
                if kind == 'comp':
                    st, srv, subs = composite(I, st, kw)
                else:
                    st, srv = make_server(I, st, mod, name, kind, **kw)
                    subs = [srv]
            except Missing as e:
                rep.und(R, '%s: %s' % (name, e))
                continue
            allsrv = [srv] + [x for x in subs if x != srv]
            for x in allsrv:
                for s, db in callm(I, st.fork(), x, 'get_db'):
                    rep.paths += 1
                    functions(rep, s)
                    W = '%s.get_db' % exc_name(I, s, x)
                    if isinstance(db, Exc):
                        must_not(rep, R, s, [], W, last_loc(s), 'get_db raises')
                        continue
                    if given != 'none' and db != bank:
                        must_not(rep, R, s, [], W, last_loc(s), 'the server does not work on the %s databank it was given' % given,
                                 vals=[db])
                    else:
                        rep.ok(R)
            # one registry for all of them
            d = sym('free_id', 1, 255)
            s0 = st.fork()
            for x in ids:
                s0.facts = s0.facts.add('ne', d - x)
            for x in allsrv:
                for s, sl in callm(I, s0.fork(), x, 'add_slave', [N(d)]):
                    W = '%s.add_slave' % exc_name(I, s, x)
                    functions(rep, s)
                    rep.paths += 1
                    if isinstance(sl, Exc):
                        must_not(rep, R, s, [], W, last_loc(s), 'adding a slave raises %s' % exc_name(I, s, sl))
                        continue
                    for y in allsrv:
                        for s2, w in callm(I, s.fork(), y, 'get_slave', [N(d)]):
                            if w != sl:
                                must_not(rep, R, s2, [], '%s.get_slave' % exc_name(I, s, y), last_loc(s2),
                                         'a slave added through %s is not found through %s' % (exc_name(I, s, x), exc_name(I, s, y)))
                            else:
                                rep.ok(R)
                        for s2, w in callm(I, s.fork(), y, 'remove_slave', [N(d)]):
                            W2 = '%s.remove_slave' % exc_name(I, s, y)
                            if isinstance(w, Exc):
                                must_not(rep, R, s2, [], W2, last_loc(s2), 'removing a registered slave raises %s' % exc_name(I, s2, w))
                                continue
                            for s3, w3 in callm(I, s2.fork(), x, 'get_slave', [N(d)]):
                                if not isinstance(w3, Exc):
                                    must_not(rep, R, s3, [], W2, last_loc(s3), 'a removed slave is still found')
                                else:
                                    rep.ok(R)
                            if other is not None:
                                for s3, w3 in callm(I, s2.fork(), x, 'get_slave', [N(ids[0])]):
                                    if w3 != other:
                                        must_not(rep, R, s3, [], W2, last_loc(s3), 'removing one slave removes another one too')
                                    else:
                                        rep.ok(R)
                        for s2, w in callm(I, s.fork(), y, 'remove_all_slaves'):
                            W2 = '%s.remove_all_slaves' % exc_name(I, s, y)
                            if isinstance(w, Exc):
                                must_not(rep, R, s2, [], W2, last_loc(s2), 'removing all slaves raises %s' % exc_name(I, s2, w))
                                continue
                            for s3, w3 in callm(I, s2.fork(), x, 'get_slave', [N(d)]):
                                if not isinstance(w3, Exc):
                                    must_not(rep, R, s3, [], W2, last_loc(s3), 'a slave is still found after removing all')
                                else:
                                    rep.ok(R)


def composite(I, st, kw):
    """a composite server over a TCP and an RTU server"""
    st, port = serial_port(I, st)
    cls = [need(I, 'modbus_tk.modbus_tcp', 'TcpServer'), need(I, 'modbus_tk.modbus_rtu', 'RtuServer')]
    args = [Tup(Tup(), Tup(port))]
    mod = 'modbus_tk.simulator'
    outs = call(I, st, need(I, mod, 'CompositeServer'), [mkseq(cls, 'list'), mkseq([Tup(), Tup(port)], 'list')], kw, mod=mod)
    st, srv = only(outs, 'CompositeServer()')
    o = st.get(srv.oid)
    subs = []
    for k in sorted(o.attrs):
        v = o.attrs[k]
        if isinstance(v, Ref) and st.get(v.oid).kind == 'list':
            for seg in st.get(v.oid).segs:
                if seg[0] == 'item' and isinstance(seg[1], Ref) and st.get(seg[1].oid).kind == 'inst':
                    subs.append(seg[1])
    return st, srv, subs
