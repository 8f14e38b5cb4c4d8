"""C37: time-outs of the RTU master and server."""
from ..drive import *
from ..drive import only, call, callm, need, has_method, exc_name
from ..state import ExtO
from .base import *
from .bank import serial_port
from .framing import RTU
from .master import At

BAUD = sym('baud', 1)
BAUDS = (1, 50, 300, 1200, 9600, 14400, 19199, 19200, 19201, 20000, 21999, 22000, 22001, 28800, 38400, 57600, 115200, 921600)
CHAR, FRAME, GIVEN, LIMIT = [T(x, (), 'float') for x in ('interchar', 'interframe', 'given_t0', 'new_timeout')]
# positive values of the real parameters
VALUES = [{'interchar': c, 'interframe': f, 'given_t0': g, 'new_timeout': l, 'port_timeout': 33.0}
          for c, f, g, l in ((1.5, 3.5, 0.25, 2.0), (0.75, 20.0, 0.003, 0.02), (1.0, 1.0, 1.0, 1.0), (3.25, 0.5, 7.0, 60.0), (11.0, 2.75, 0.0001, 5.5))]
for _i, _v in enumerate(VALUES):
    _v.update(other_baud=(300, 115200)[_i % 2], other_timeout=(9.75, 0.01)[_i % 2])
BAUD2, LIMIT2 = sym('other_baud', 1), T('other_timeout', (), 'float')
OPS = {'opAdd': lambda x, y: x + y, 'opSub': lambda x, y: x - y, 'opMult': lambda x, y: x * y, 'opDiv': lambda x, y: x / y,
       'opPow': lambda x, y: x ** y, 'opFloorDiv': lambda x, y: x // y, 'opMod': lambda x, y: x % y,
       'max': max, 'min': min}


class Open(Exception):
    pass


def value(v, asg):
    """the number a value stands for under an assignment"""
    if isinstance(v, N):
        r = v.l.c
        for a, c in v.l.t:
            r += c * atom(a, asg)
        return r
    if isinstance(v, K) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
        return v.v
    if isinstance(v, T) and (not v.imp or v.op in OPS):
        if not v.args and v.op in asg:
            return asg[v.op]
        if v.op in OPS and len(v.args) >= 2:
            try:
                xs = [value(x, asg) for x in v.args]
                return OPS[v.op](*xs)
            except (ZeroDivisionError, TypeError, OverflowError):
                raise Open('arithmetic')
        if v.op in ('float', 'fcall', 'opFloat') and len(v.args) == 1:
            return float(value(v.args[0], asg))
    raise Open(str(v)[:100])


def atom(a, asg):
    if a.op == 'sym' and a.args and a.args[0] in asg:
        return asg[a.args[0]]
    if a.op == 'tv':
        return value(a.args[0], asg)
    if a.op == 'b':
        return 1 if holds(a.args[0], asg) else 0
    if a.op == 'bmul':
        return lv(a.args[0], asg) * lv(a.args[1], asg)
    if a.op == 'mul':
        return lv(a.args[0], asg) * lv(a.args[1], asg)
    raise Open(str(a)[:100])


def lv(x, asg):
    return value(N(x), asg) if isinstance(x, Lin) else value(x, asg)


def holds(l, asg):
    if l[0] == 'ge':
        return lv(l[1], asg) >= 0
    if l[0] == 'eq':
        return lv(l[1], asg) == 0
    if l[0] == 'ne':
        return lv(l[1], asg) != 0
    if l[0] == 'bool':
        t, want = l[1], l[2]
        if t[0] == 'lt':
            return (value(t[1], asg) < value(t[2], asg)) == want
        if t[0] in ('truth', 'bool', 'true') and len(t) == 2:
            return (value(t[1], asg) != 0) == want
        if t[0] == 'isnone':
            value(t[1], asg)
            return not want
        if t[0] == 'eq':
            return (value(t[1], asg) == value(t[2], asg)) == want
    raise Open(str(l)[:100])


def close(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-12)


def samples(s, bauds=BAUDS):
    """assignments of a path"""
    for b in bauds:
        for v in VALUES:
            asg = dict(v)
            asg['baud'] = b
            if all(holds(l, asg) for l in s.facts.log):
                yield asg


def chartime(b):
    return 11.0 / b if b <= 19200 else 0.0005


def is_value(rep, R, s, got, want, cl, loc, what):
    """got is want(assignment) on every sample of the path"""
    why = vague(s)
    if why:
        rep.und(R, '%s: %s' % (cl, why))
        return
    try:
        for asg in samples(s):
            if got is None:
                rep.bad(R, cl, loc, 'does not set %s' % what)
                return
            w = want(asg)
            if isinstance(got, K) and got.v is None:
                rep.bad(R, cl, loc, 'sets %s to None' % what, 'expected %g' % w)
                return
            x = value(got, asg)
            if not close(x, w):
                rep.bad(R, cl, loc, 'sets %s to a wrong value' % what, 'at %d baud: %.9g, expected %.9g' % (asg['baud'], x, w))
                return
            rep.ok(R)
    except Open as e:
        rep.und(R, '%s: %s not understood (%s)' % (cl, what, e))


def attr(s, ref, name):
    return s.get(ref.oid).attrs.get(name)


def set_at(s, ref, name):
    l = None
    for e in s.events():
        if e.kind == 'setattr' and e.d['obj'] == ref and e.d['name'] == name:
            l = e.loc
    return l or last_loc(s)


def another(I, st, cls):
    """states after another object of the class was made for another port, and its time-out set"""
    cfg, I.cfg = I.cfg, Config()
    port, outs = make(I, cls, {}, st=st, baud=BAUD2, label='port2')
    res = [s2 for s, v in outs if not isinstance(v, Exc) for s2, w in callm(I, s, v, 'set_timeout', [LIMIT2]) if not isinstance(w, Exc)]
    I.cfg = cfg
    for s in res:
        s.trace, s.ntrace = None, 0
    return res


def make(I, cls, kw, opened=FALSE, st=None, baud=BAUD, label='port'):
    I.cfg = Config()
    st = st or I.new_state()
    st, port = serial_port(I, st, label=label, opened=opened)
    o = st.get(port.oid)
    at = dict(o.attrs)
    at['baudrate'] = N(baud)
    at['timeout'] = T('port_timeout', (), 'float')
    st.put(port.oid, o.set(attrs=at))
    return port, call(I, st, need(I, RTU, cls), [port], kw, mod=RTU)


def c37(I, rep):
    R, RS, RB = 'serial-timeouts', 'set-timeout', 'blocking-read'
    # the character time
    f = I.glob('modbus_tk.utils', 'calculate_rtu_inter_char')
    if f is None:
        raise Missing('calculate_rtu_inter_char')
    for s, v in call(I, I.new_state(), f, [N(BAUD)], {}, mod='modbus_tk.utils'):
        rep.paths += 1
        functions(rep, s)
        if isinstance(v, Exc):
            must_not(rep, R, s, [], 'calculate_rtu_inter_char', last_loc(s), 'raises %s' % exc_name(I, s, v))
            continue
        is_value(rep, R, s, v, lambda a: chartime(a['baud']), 'calculate_rtu_inter_char', last_loc(s), 'the character time')
    for s, v in call(I, I.new_state(), f, [N(BAUD2)], {}, mod='modbus_tk.utils'):
        for s, v in call(I, s, f, [N(BAUD)], {}, mod='modbus_tk.utils'):
            rep.paths += 1
            if not isinstance(v, Exc):
                is_value(rep, R, s, v, lambda a: chartime(a['baud']), 'calculate_rtu_inter_char', last_loc(s), 'the character time, after that of another speed,')
    for cls in ('RtuMaster', 'RtuServer'):
        variants = [({}, 1.5, 3.5, False), ({'interchar_multiplier': CHAR, 'interframe_multiplier': FRAME}, 'interchar', 'interframe', False),
                    ({'interchar_multiplier': CHAR}, 'interchar', 3.5, False), ({'interframe_multiplier': FRAME}, 1.5, 'interframe', False)]
        if cls == 'RtuMaster':
            variants += [({'t0': GIVEN}, 1.5, 3.5, True),
                         ({'interchar_multiplier': CHAR, 'interframe_multiplier': FRAME, 't0': GIVEN}, 'interchar', 'interframe', True)]
        for kw, mc, mf, given in variants:
            for opened, rival in ((FALSE, None), (TRUE, None), (FALSE, 'before'), (FALSE, 'after')):
                if rival == 'before':
                    made = [make(I, cls, kw, opened, st=s) for s in another(I, I.new_state(), cls)]
                else:
                    made = [make(I, cls, kw, opened)]
                outs = [(port, s, v) for port, res in made for s, v in res]
                if rival == 'after':
                    outs = [(port, s2, v) for port, s, v in outs if not isinstance(v, Exc) for s2 in another(I, s, cls)]
                for port, s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    if isinstance(v, Exc):
                        must_not(rep, R, s, [], cls, last_loc(s), 'construction raises %s' % exc_name(I, s, v))
                        continue
                    t = (lambda a: a['given_t0']) if given else (lambda a: chartime(a['baud']))
                    m = lambda x, a: a[x] if isinstance(x, str) else x
                    is_value(rep, R, s, attr(s, port, 'inter_byte_timeout'), lambda a: m(mc, a) * t(a), cls,
                             set_at(s, port, 'inter_byte_timeout'), 'the inter-byte time-out of the port')
                    is_value(rep, R, s, attr(s, port, 'timeout'), lambda a: m(mf, a) * t(a), cls, set_at(s, port, 'timeout'), 'the read time-out of the port')
                    for s2, w in callm(I, s.fork(), v, 'get_timeout'):
                        is_value(rep, R, s2, w, lambda a: m(mf, a) * t(a), cls, last_loc(s2), 'its own time-out')
        # set_timeout
        port, outs = make(I, cls, {})
        for s, v in outs:
            if isinstance(v, Exc):
                continue
            for flow in ([], ['open', 'close'], ['_do_init', '_do_exit'], ['other']):
                cur = [s.fork()]
                for op in flow:
                    if op == 'other':
                        continue
                    if not has_method(I, s, v, op):
                        cur = []
                        break
                    cur = [x for c in cur for x, r in callm(I, c, v, op) if not isinstance(r, Exc)]
                for c in cur:
                    for s2, w in callm(I, c.fork(), v, 'set_timeout', [LIMIT]):
                        rep.paths += 1
                        functions(rep, s2)
                        cl = '%s.set_timeout' % cls
                        if isinstance(w, Exc):
                            must_not(rep, RS, s2, [], cl, last_loc(s2), 'raises %s' % exc_name(I, s2, w))
                            continue
                        is_value(rep, RS, s2, attr(s2, port, 'timeout'), lambda a: a['new_timeout'], cl, set_at(s2, port, 'timeout'), 'the time-out of the port')
                        s2s = another(I, s2.fork(), cls) if 'other' in flow else [s2.fork()]
                        for s3, x in [o for y in s2s for o in callm(I, y, v, 'get_timeout')]:
                            is_value(rep, RS, s3, x, lambda a: a['new_timeout'], cl, last_loc(s3), 'the stored time-out')
    # a server that has waited for the first byte uses its time-out for the rest
    port, outs = make(I, 'RtuServer', {})
    for s, v in outs:
        if isinstance(v, Exc):
            continue
        for s2, w in callm(I, s.fork(), v, 'set_timeout', [LIMIT]):
            if isinstance(w, Exc):
                continue
            for s3, _ in [o for y in [s2.fork()] + another(I, s2.fork(), 'RtuServer') for o in callm(I, y, v, 'start')]:
                s3 = s3.fork()
                s3.trace, s3.ntrace = None, 0
                I.cfg = Config(faults=('io:read',), peel=2, stubs=no_handling(I, s3, v), watch=('timeout',))
                for s4, r in callm(I, s3, v, '_do_run'):
                    rep.paths += 1
                    functions(rep, s4)
                    cl = 'RtuServer._do_run'
                    reads(rep, RB, s4, port, cl)
                    if isinstance(r, Exc):
                        continue
                    got = attr(s4, port, 'timeout')
                    if got == LIMIT:
                        rep.ok(RB)
                    else:
                        must_not(rep, RB, At(s4, s4.facts), [], cl, set_at(s4, port, 'timeout'),
                                 'leaves the port with another time-out than the one that was set', [got])
                I.cfg = Config()


def no_handling(I, st, srv):
    c = I.class_of(st, srv)
    out = {}
    f = I.class_attr(st, c, '_handle')
    if f is not None and isinstance(f[0], Fn):
        out[f[0].qual] = lambda I, st, args, kw, fr, node: [(st, Bs((('sl', 'answer', ZERO, sym('nanswer', 0)),)))]
    return out


def reads(rep, R, s, port, cl):
    """only the first read of a request may wait for ever"""
    cur, n = 'start', 0
    for e in flat(s.events()):
        if e.kind == 'setattr' and e.d['obj'] == port and e.d['name'] == 'timeout':
            cur = e.d['value']
        elif e.kind in ('io', 'iofail') and e.d['op'] == 'read':
            n += 1
            if n > 1 and isinstance(cur, K) and cur.v is None:
                if e.kind == 'io':
                    must_not(rep, R, At(s, e.facts), [], cl, e.loc, 'waits for ever for the rest of a request')
                return
            rep.ok(R)
