"""C33, C34, C35, C36: the simulator and its RPC client, the drop-in client, worker threads."""
from ..drive import *
from ..drive import only, call, callm, need, has_method, exc_name, top
from ..bytesops import bs_region
from .base import *
from .master import At

SIM, RPC = 'modbus_tk.simulator', 'modbus_tk.simulator_rpc_client'
# what the simulator acts on: (qualified name, its parameters)
API = {
    'add_slave': ('modbus_tk.modbus.Databank.add_slave', ('slave_id', 'unsigned', 'memory')),
    'get_slave': ('modbus_tk.modbus.Databank.get_slave', ('slave_id',)),
    'remove_slave': ('modbus_tk.modbus.Databank.remove_slave', ('slave_id',)),
    'remove_all_slaves': ('modbus_tk.modbus.Databank.remove_all_slaves', ()),
    'add_block': ('modbus_tk.modbus.Slave.add_block', ('block_name', 'block_type', 'starting_address', 'size')),
    'remove_block': ('modbus_tk.modbus.Slave.remove_block', ('block_name',)),
    'remove_all_blocks': ('modbus_tk.modbus.Slave.remove_all_blocks', ()),
    'set_values': ('modbus_tk.modbus.Slave.set_values', ('block_name', 'address', 'values')),
    'get_values': ('modbus_tk.modbus.Slave.get_values', ('block_name', 'address', 'size')),
    'install_hook': ('modbus_tk.hooks.install_hook', ('name', 'fct')),
    'uninstall_hook': ('modbus_tk.hooks.uninstall_hook', ('name', 'fct')),
    'set_verbose': ('modbus_tk.modbus.Server.set_verbose', ('verbose',)),
}
EFFECTS = [n for n in API if n not in ('get_slave', 'get_values')]
MYHOOK = T('myhook', (), 'obj')


class Sim(object):
    """a simulator with one slave, its operations replaced by recorders"""

    def __init__(self, I, rep):
        self.I, self.rep = I, rep
        I.cfg = Config(events=9)
        st = I.new_state()
        comp, tcp = need(I, SIM, 'CompositeServer'), need(I, 'modbus_tk.modbus_tcp', 'TcpServer')
        st, self.server = only(call(I, st, comp, [mkseq([tcp], 'list'), mkseq([mkseq([])], 'list')], mod=SIM), 'CompositeServer')
        st, self.sim = only(call(I, st, need(I, SIM, 'Simulator'), [self.server], mod=SIM), 'Simulator')
        if not isinstance(self.sim, Ref):
            raise Missing('Simulator()')
        st, _ = only(callm(I, st, self.sim, 'declare_hook', [K('myhook'), MYHOOK]), 'declare_hook')
        st, self.slave = only(call(I, st, need(I, 'modbus_tk.modbus', 'Slave'), [N(5)]), 'Slave')
        self.inq, self.outq = need(I, SIM, 'INPUT_QUEUE'), need(I, SIM, 'OUTPUT_QUEUE')
        st.setext(('simnode',), TRUE)
        self.st = st
        self.fails = {}

    def stubs(self):
        out = {}
        for n, (q, ps) in API.items():
            out[q] = self.stub(n, ps)
        return out

    def stub(self, name, ps):
        def f(I, st, args, kw, fr, node):
            st = st.fork()
            args, recv = list(args), None
            if not name.endswith('_hook'):
                recv, args = args[0], args[1:]
            vals = []
            for i, p in enumerate(ps):
                v = args[i] if i < len(args) else kw.get(p, NONE if (name, p) == ('uninstall_hook', 'fct') else None)
                if isinstance(v, Ref) and st.get(v.oid).kind == 'list':
                    v = Sq(st.get(v.oid).segs, 'list')
                vals.append(v)
            how = self.fails.get(name)
            if any(v is None for v in vals[:{'add_slave': 1, 'uninstall_hook': 1}.get(name, len(ps))]) or len(args) > len(ps) or set(kw) - set(ps):
                return [I.raise_(st, 'TypeError')]
            I.emit(st, 'api', fr, node, name=name, args=tuple(vals), failed=bool(how), on=recv)
            if how:
                return [(st, I.any_exc(st)) if how == 'any' else I.raise_(st, how)]
            if name in ('add_slave', 'get_slave'):
                return [(st, self.slave)]
            if name == 'get_values':
                n = num(vals[2])
                k = n.c if n is not None and n.is_const else 2
                return [(st, mkseq([N(sym('cell%d' % i, -32768, 65535)) for i in range(k)]))]
            return [(st, NONE)]
        return f

    def config(self, **kw):
        self.I.cfg = Config(stubs=self.stubs(), events=9, unroll=12, peel=700, **kw)

    def commands(self, st, lines):
        """the command loop on these lines; [(state, result, lines left)]: KeyboardInterrupt stands for waiting for more"""
        def empty(I2, s, ref, timed):
            s = s.fork()
            return [I2.raise_(s, 'queue.Empty' if timed else 'KeyboardInterrupt')]
        st = st.fork()
        st.setext(('fifo', self.inq), mkseq(list(lines)))
        self.config(queues=empty)
        outs = callm(self.I, st, self.sim, '_handle')
        self.I.cfg = Config()
        res = []
        for s, v in outs:
            self.rep.paths += 1
            functions(self.rep, s)
            left = s.getext(('fifo', self.inq))
            res.append((s, v, left.items() if left is not None else []))
        return res


def puts(s, n, q):
    return [e for e in flat(s.events()[n:]) if e.kind == 'put' and e.d['obj'] == q]


def apis(s, n, names=EFFECTS):
    return [e for e in flat(s.events()[n:]) if e.kind == 'api' and e.d['name'] in names]


def text_starts(v, p):
    """does the text v start with p: True, False or None"""
    if isinstance(v, K) and isinstance(v.v, str):
        return v.v.startswith(p)
    if isinstance(v, St):
        h = v.parts[0]
        if isinstance(h, str):
            if h.startswith(p):
                return True
            if not p.startswith(h):
                return False
    return None


COMMANDS = [
    ('add_slave', [N(sym('slave_id', 0, 255))]), ('has_slave', [N(sym('slave_id', 0, 255))]),
    ('remove_slave', [N(sym('slave_id', 0, 255))]), ('remove_all_slaves', []),
    ('add_block', [N(sym('slave_id', 0, 255)), K('blk'), N(sym('blocktype', 1, 4)), N(sym('blockaddr', 0, 65535)), N(sym('blocklen', 1, 65535))]),
    ('remove_block', [N(sym('slave_id', 0, 255)), K('blk')]), ('remove_all_blocks', [N(sym('slave_id', 0, 255))]),
    ('set_values', [N(sym('slave_id', 0, 255)), K('blk'), N(sym('blockaddr', 0, 65535)), N(sym('val0', -32768, 65535)), N(sym('val1', -32768, 65535))]),
    ('get_values', [N(sym('slave_id', 0, 255)), K('blk'), N(sym('blockaddr', 0, 65535)), N(3)]),
    ('install_hook', [K('modbus.Server.before_handle_request'), K('myhook')]),
    ('uninstall_hook', [K('modbus.Server.before_handle_request'), K('myhook')]),
    ('uninstall_hook', [K('modbus.Server.before_handle_request')]),
    ('set_verbose', [N(sym('verbosity', 0, 1))]),
]
MANDATORY = {'uninstall_hook': 1}
# the operation a command stands for
OPER = {'has_slave': None}


def line(cmd, args, end=''):
    parts = [cmd]
    for a in args:
        parts.append(' ')
        parts.extend([('f', 's', a)] if isinstance(a, N) else [a.v])
    return mkstr(parts + [end])


# ------------------------------------------------------------------ C33
def c33(I, rep):
    R = 'one-answer'
    X = Sim(I, rep)
    n = X.st.ntrace
    cl = 'Simulator._handle'

    def run(text, what, kind, cmd='', st=None):
        """kind: 'done', 'error', 'any' or 'unknown'"""
        probe = K('nosuchcommand')
        for s, v, left in X.commands(st if st is not None else X.st, [text, probe]):
            ps = puts(s, n, X.outq)
            if isinstance(v, Exc) and exc_name(I, s, v) != 'KeyboardInterrupt':
                must_not(rep, R, s, [], cl, last_loc(s), '%s: ends the command loop with %s' % (what, exc_name(I, s, v)))
                continue
            if kind == 'any' and isinstance(text, T) and not isinstance(v, Exc) and len(ps) == 1:
                # it may be quit
                rep.ok(R)
                continue
            if not isinstance(v, Exc) or left:
                must_not(rep, R, s, [], cl, last_loc(s), '%s: ends the command loop' % what)
                continue
            if len(ps) != 2:
                must_not(rep, R, s, [], cl, ps[-1].loc if ps else last_loc(s), '%s: gives %d answers' % (what, len(ps) - 1))
                continue
            a = ps[0].d['value']
            if not is_str(a) and not isinstance(a, T):
                must_not(rep, R, s, [], cl, ps[0].loc, '%s: the answer is no text' % what, [a])
                continue
            if kind == 'done' or kind == 'error':
                w, o = ('%s done: ' % cmd, '%s error: ' % cmd)[::1 if kind == 'done' else -1]
                g = text_starts(a, w)
                if g is None:
                    rep.und(R, '%s: answer not tracked' % what)
                elif g:
                    rep.ok(R)
                else:
                    must_not(rep, R, s, [], cl, ps[0].loc, '%s: is answered with %s' % (what, a), [a] if isinstance(a, T) else [])
            elif kind == 'unknown':
                if 'error' in repr(a):
                    rep.ok(R)
                elif text_starts(a, 'error') is False:
                    must_not(rep, R, s, [], cl, ps[0].loc, '%s: is answered with %s' % (what, a))
            else:
                rep.ok(R)

    X.fails = {}
    for cmd, args in COMMANDS:
        for end in ('', '\n', '\r\n'):
            run(line(cmd, args, end), '%s with %d arguments' % (cmd, len(args)), 'done', cmd)
        m = MANDATORY.get(cmd, len(args))
        if cmd == 'set_values':
            m = 3
        for k in range(m):
            run(line(cmd, args[:k]), '%s with %d of its arguments' % (cmd, k), 'error', cmd)
        for k, a in enumerate(args):
            if isinstance(a, N):
                run(line(cmd, args[:k] + [K('x')] + args[k + 1:]), '%s with a malformed number' % cmd, 'error', cmd)
        op = OPER.get(cmd, cmd)
        for how in ('any', 'ValueError', 'KeyError'):
            if op is None:
                continue
            if op == 'uninstall_hook' and how != 'ValueError':
                # a function that is not installed is not an error
                X.fails = {op: how}
                run(line(cmd, args), '%s that fails' % cmd, 'any', cmd)
            else:
                X.fails = {op: how}
                run(line(cmd, args), '%s that fails' % cmd, 'error', cmd)
            if op in ('add_block', 'remove_block', 'remove_all_blocks', 'set_values', 'get_values'):
                X.fails = {'get_slave': how}
                run(line(cmd, args), '%s on a slave that does not exist' % cmd, 'error', cmd)
        X.fails = {}
    for t in ('', '\n', ' ', '\r\n', 'nosuch', 'nosuch 1 2\n', ' add_slave 1', 'ADD_SLAVE 1', 'do_add_slave', '\t'):
        run(K(t), 'the line %r' % t, 'unknown')
    run(T('anyline', (), 'str'), 'any line that is no command', 'any')
    # commands of the application
    F = T('mycommand', (), 'obj')
    for r in (NONE, K('text'), N(sym('number')), mkseq([N(1), N(2)]), mkseq([]), FALSE, 'raise', 'any'):
        st, _ = only(callm(I, X.st.fork(), X.sim, 'add_command', [K('mine'), F]), 'add_command')

        def ufn(I2, s, f, a, kw, fr, node):
            s = s.fork()
            if r == 'raise':
                return [I2.raise_(s, 'KeyError')]
            if r == 'any':
                return [(s, I2.any_exc(s))]
            return [(s, r)]
        old = X.config

        def config(**kw):
            old(ufn=ufn, **kw)
        X.config = config
        run(K('mine 1 2'), 'an added command', 'error' if isinstance(r, str) else 'done', 'mine', st)
        X.config = old
    # quit
    for t in ('quit', 'quit\n', 'quit\r\n'):
        nxt = line('add_slave', [N(7)])
        for s, v, left in X.commands(X.st, [K(t), nxt]):
            ps = puts(s, n, X.outq)
            if isinstance(v, Exc):
                if exc_name(I, s, v) == 'KeyboardInterrupt' or not left:
                    must_not(rep, R, s, [], cl, last_loc(s), 'quit does not end the command loop')
                else:
                    must_not(rep, R, s, [], cl, last_loc(s), 'quit ends the command loop with %s' % exc_name(I, s, v))
            elif len(ps) != 1 or len(left) != 1:
                must_not(rep, R, s, [], cl, ps[-1].loc if ps else last_loc(s), 'quit gives %d answers and takes %d more commands' % (len(ps), 1 - len(left)))
            else:
                rep.ok(R)
    # a history: every command after every other one still works
    for s, v, left in X.commands(X.st, [line(c, a) for c, a in COMMANDS] + [K('x'), line('set_values', [K('x')])] + [line(c, a) for c, a in COMMANDS]):
        ps = puts(s, n, X.outq)
        if len(ps) != 2 * len(COMMANDS) + 2 or not isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), 'a sequence of commands is not answered one by one')
        else:
            rep.ok(R)


# ------------------------------------------------------------------ C34
class Line(object):
    """the connection of the client, with the simulator at its other end"""

    def __init__(self, X, mode):
        self.X, self.mode = X, mode
        self.srv_end = None

    def peer(self, I, s, o, name, args, kw, fr, node):
        if name == 'connect':
            I.emit(s, 'connected', fr, node, addr=args[0] if args else kw.get('address'))
            for key in [k for k in s.ext if isinstance(k, tuple) and k[0] in ('srvend', 'sentby', 'srvread', 'served', 'delivered', 'looped')]:
                s.ext.pop(key)
            if node is not None:
                return [(s, NONE)]
            return None
        if name == 'connect_ex':
            return None
        end = s.getext(('srvend',))
        if name in ('send', 'sendall'):
            s = s.fork()
            b = I.as_bytes(s, args[0]) if args else None
            if args and b is None and is_str(args[0]):
                return [I.raise_(s, 'TypeError')]
            key = ('sentby', 'server' if o == end else 'client')
            q = s.getext(key)
            s.setext(key, mkseq((q.items() if q is not None else []) + [b if b is not None else NONE]))
            I.emit(s, 'io', fr, node, op=name, recv=o, args=(b,) if b is not None else (), ret=NONE)
            return [(s, N(b.length()) if b is not None and name == 'send' else NONE)]
        if name == 'recv':
            n = num(args[0]) if args else None
            if n is None or not n.is_const or n.c < 256:
                return [(s, unk('recv'))]
            return self.server_recv(I, s) if o == end else self.client_recv(I, s, fr, node)
        return None

    def joined(self, s, who):
        q = s.getext(('sentby', who))
        segs = ()
        for b in q.items() if q is not None else []:
            if not isinstance(b, Bs):
                return None
            segs += tuple(b.segs)
        return Bs(segs)

    def server_recv(self, I, s):
        s = s.fork()
        if s.getext(('srvread',)) is not None:
            return [(s, Bs())]
        s.setext(('srvread',), TRUE)
        b = self.joined(s, 'client')
        return [(s, b if b is not None else unk('recv'))]

    def client_recv(self, I, s, fr, node):
        outs = []
        if s.getext(('served',)) is None:
            s = s.fork()
            s.setext(('served',), TRUE)
            if self.mode == 'dead':
                cur = [s]
            else:
                cls = need(I, SIM, 'RpcHandler')
                end = s.new(ExtO('socket.socket', {}, ()), 'srvsock')
                s.setext(('srvend',), end)
                h = s.new(InstO(cls, {'request': end, 'client_address': T('client_address', (), None), 'server': T('rpcserver', (), 'obj')}, False), 'handler')
                cur = []
                for s2, v in callm(I, s, h, 'handle'):
                    if isinstance(v, Exc):
                        I.emit(s2, 'handlerfail', fr, node, exc=exc_name(I, s2, v))
                    cur.append(s2)
        else:
            cur = [s]
        for s in cur:
            s = s.fork()
            b = self.joined(s, 'server')
            if b is None:
                outs.append((s, unk('recv')))
                continue
            k = s.getext(('delivered',))
            k = k.l.c if k is not None else 0
            parts = self.split(b)
            s.setext(('delivered',), N(k + 1))
            outs.append((s, parts[k] if k < len(parts) else Bs()))
        return outs

    def split(self, b):
        if not b.segs:
            return []
        if self.mode == 'whole':
            return [b]
        segs = list(b.segs)
        if self.mode == 'bytes':
            out = []
            for g in segs:
                if g[0] == 'lit':
                    out.extend(Bs((('lit', g[1][i:i + 1]),)) for i in range(len(g[1])))
                else:
                    out.append(Bs((g,)))
            return out
        if self.mode == 'head':
            g = segs[0]
            if g[0] == 'lit' and len(g[1]) > 4:
                return [Bs((('lit', g[1][:4]),)), Bs((('lit', g[1][4:]),) + tuple(segs[1:]))]
            return [b]
        g = segs[-1]
        if g[0] == 'lit' and len(g[1]) > 1:
            return [Bs(tuple(segs[:-1]) + (('lit', g[1][:-1]),)), Bs((('lit', g[1][-1:]),))]
        return [b]

    def empty(self, I, s, ref, timed):
        s = s.fork()
        X = self.X
        if ref == X.inq:
            # the command loop waits for more
            return [I.raise_(s, 'KeyboardInterrupt')]
        if s.getext(('looped',)) is not None or self.mode == 'late':
            return [I.raise_(s, 'queue.Empty' if timed else 'KeyboardInterrupt')]
        s.setext(('looped',), TRUE)
        outs = []
        for s2, v in callm(I, s, X.sim, '_handle'):
            q = s2.getext(('fifo', ref))
            q = q.items() if q is not None else []
            if isinstance(v, Exc) and exc_name(I, s2, v) != 'KeyboardInterrupt':
                outs.append(I.raise_(s2, 'queue.Empty'))
            elif not q:
                outs.append(I.raise_(s2, 'queue.Empty'))
            else:
                s2 = s2.fork()
                s2.setext(('fifo', ref), mkseq(q[1:]))
                outs.append((s2, q[0]))
        return outs


def cells_text(k):
    parts = []
    for i in range(k):
        if i:
            parts.append(' ')
        parts.append(('f', 's', N(sym('cell%d' % i, -32768, 65535))))
    return mkstr(parts)


def c34(I, rep):
    X = Sim(I, rep)
    sid, typ, addr, size = (N(sym(*a)) for a in (('slave_id', 0, 255), ('blocktype', 1, 4), ('blockaddr', 0, 65535), ('blocklen', 1, 65535)))
    blk, hk = K('Blk;1,2:3=x'), K('modbus.Server.before_handle_request')
    vals = [N(sym('val%d' % i, -32768, 65535)) for i in range(3)]
    SPEC = [
        # method, arguments, slave looked up, operation, result
        ('add_slave', [sid], None, ('add_slave', (sid,)), mkstr((('f', 'd', sid),))),
        ('remove_slave', [sid], None, ('remove_slave', (sid,)), None),
        ('remove_all_slaves', [], None, ('remove_all_slaves', ()), None),
        ('has_slave', [sid], sid, None, TRUE),
        ('add_block', [sid, blk, typ, addr, size], sid, ('add_block', (blk, typ, addr, size)), blk),
        ('remove_block', [sid, blk], sid, ('remove_block', (blk,)), None),
        ('remove_all_blocks', [sid], sid, ('remove_all_blocks', ()), None),
        ('install_hook', [hk, K('myhook')], None, ('install_hook', (hk, MYHOOK)), None),
        ('uninstall_hook', [hk, K('myhook')], None, ('uninstall_hook', (hk, MYHOOK)), None),
        ('uninstall_hook', [hk], None, ('uninstall_hook', (hk, NONE)), None),
    ]
    for k in range(4):
        SPEC.append(('set_values', [sid, blk, addr, mkseq(vals[:k], 'list')], sid, ('set_values', (blk, addr, mkseq(vals[:k], 'list'))), cells_text(k) if k else None))
        if k:
            SPEC.append(('set_values', [sid, blk, addr, mkseq(vals[:k])], sid, ('set_values', (blk, addr, mkseq(vals[:k], 'list'))), cells_text(k)))
            SPEC.append(('get_values', [sid, blk, addr, N(k)], sid, ('get_values', (blk, addr, N(k))),
                         mkseq([N(sym('cell%d' % i, -32768, 65535)) for i in range(k)])))
    count = N(sym('count', 2, 65535))
    SPEC.append(('get_values', [sid, blk, addr, count], sid, ('get_values', (blk, addr, count)), None))
    I.cfg = Config()
    st, client = only(call(I, X.st.fork(), need(I, RPC, 'SimulatorRpcClient'), [], mod=RPC), 'SimulatorRpcClient')
    first = X.slave
    st, second = only(callm_slave(I, st), 'Slave')
    listener(I, rep, X, st, client)
    for meth, args, slave, op, res in SPEC:
        for mode in ('whole', 'head', 'tail', 'bytes'):
            X.fails = {}
            one(I, rep, X, st, client, meth, args, slave, op, res, mode)
        # once more, when the slave was replaced in between
        X.fails = {}
        X.config(queues=Line(X, 'whole').empty, peer=Line(X, 'whole').peer)
        outs = callm(I, st.fork(), client, meth, args)
        I.cfg = Config()
        X.slave = second
        for s, v in outs:
            if not isinstance(v, Exc):
                one(I, rep, X, s, client, meth, args, slave, op, res, 'whole')
        X.slave = first
        op_name = op[0] if op else None
        for how in ('any', 'ValueError') if meth != 'uninstall_hook' else ('ValueError',):
            for f in ([op_name] if op_name else []) + (['get_slave'] if slave is not None else []):
                X.fails = {f: how}
                one(I, rep, X, st, client, meth, args, slave, op, FALSE if meth == 'has_slave' else 'fail', 'whole')
        X.fails = {}
        if op is not None or slave is not None:
            one(I, rep, X, st, client, meth, args, None, None, 'fail', 'dead')
            one(I, rep, X, st, client, meth, args, None, None, 'fail', 'late')
    X.fails = {}


def callm_slave(I, st):
    return call(I, st.fork(), need(I, 'modbus_tk.modbus', 'Slave'), [N(5)])


def listener(I, rep, X, st, client):
    """the client connects to the port the simulator listens on, which is served by the RPC handler"""
    R, cl = 'address', 'RpcInterface'
    objs = [v for h in (st.base, st.heap) for o in h.values() if o.kind == 'inst' for v in dict(o.attrs).values()
            if isinstance(v, T) and v.op.startswith('ext:socketserver.') and len(v.args) > 1]
    if not objs:
        rep.und(R, 'no RPC server found')
        return
    addr = objs[-1].args[0] if objs[-1].args else None
    handler = objs[-1].args[1] if len(objs[-1].args) > 1 else None
    if handler != need(I, SIM, 'RpcHandler'):
        rep.und(R, 'the RPC server has another handler')
    L = Line(X, 'whole')
    n = st.ntrace
    X.config(queues=L.empty, peer=L.peer)
    outs = callm(I, st.fork(), client, 'remove_all_slaves', [])
    I.cfg = Config()
    for s, v in outs:
        cs = [e for e in flat(s.events()[n:]) if e.kind == 'connected']
        a = [x.items() if isinstance(x, Sq) else None for x in [addr] + [e.d['addr'] for e in cs]]
        if len(a) < 2 or None in a or any(len(x) != 2 for x in a):
            rep.und(R, 'addresses not tracked')
            continue
        for x in a[1:]:
            same(rep, R, s, x[1], a[0][1], cl, cs[0].loc, 'the client connects to another port than the one the simulator listens on')


def one(I, rep, X, st, client, meth, args, slave, op, res, mode):
    RC, RR = 'command', 'answer'
    L = Line(X, mode)
    n = st.ntrace
    X.config(queues=L.empty, peer=L.peer)
    outs = callm(I, st.fork(), client, meth, args)
    I.cfg = Config()
    cl = 'SimulatorRpcClient.%s' % meth
    what = '%s/%d' % (meth, len(args))
    for s, v in outs:
        rep.paths += 1
        functions(rep, s)
        if mode in ('dead', 'late'):
            if isinstance(v, Exc):
                rep.ok(RR)
            else:
                must_not(rep, RR, s, [], cl, last_loc(s), '%s: returns although there is no answer' % what, [v])
            continue
        ops = apis(s, n, EFFECTS if meth != 'get_values' else EFFECTS + ['get_values'])
        gets = apis(s, n, ['get_slave'])
        failed = [e for e in flat(s.events()[n:]) if e.kind == 'api' and e.d['failed']]
        hf = [e for e in flat(s.events()[n:]) if e.kind == 'handlerfail']
        if hf:
            must_not(rep, RR, At(s, hf[0].facts), [], 'RpcHandler.handle', hf[0].loc, '%s: the answer is not sent back (%s)' % (what, hf[0].d['exc']))
            continue
        want = [] if op is None or (failed and failed[0].d['name'] == 'get_slave') else [op]
        got = [(e.d['name'], e.d['args']) for e in ops]
        if len(got) != len(want) or any(g[0] != w[0] for g, w in zip(got, want)):
            must_not(rep, RC, s, [], cl, ops[-1].loc if ops else last_loc(s), '%s: the simulator does %s instead of %s' % (
                what, ', '.join(g[0] for g in got) or 'nothing', ', '.join(w[0] for w in want) or 'nothing'), [v] if isinstance(v, T) else [])
            continue
        ok = True
        for e, w in zip(ops, want):
            for i, x in enumerate(w[1]):
                ok = same(rep, RC, At(s, e.facts), e.d['args'][i], x, cl, e.loc, '%s: argument %d of %s is not the one given to the client' % (what, i + 1, w[0])) and ok
        if slave is not None:
            if not gets:
                must_not(rep, RC, s, [], cl, last_loc(s), '%s: no slave is looked up' % what)
                ok = False
            for e in gets:
                ok = same(rep, RC, At(s, e.facts), e.d['args'][0], slave, cl, e.loc, '%s: another slave is used' % what) and ok
            for e in ops:
                if e.d['on'] is None or e.d['on'] == X.slave or e.d['name'] in ('add_slave', 'remove_slave', 'remove_all_slaves', 'set_verbose'):
                    continue
                must_not(rep, RC, At(s, e.facts), [], cl, e.loc, '%s: works on another slave than the one registered now' % what, [e.d['on']] if isinstance(e.d['on'], T) else [])
                ok = False
        if not ok:
            continue
        if res == 'fail':
            if isinstance(v, Exc):
                rep.ok(RR)
            else:
                must_not(rep, RR, s, [], cl, last_loc(s), '%s: a command that fails does not raise' % what, [v] if isinstance(v, T) else [])
        elif isinstance(v, Exc):
            must_not(rep, RR, s, [], cl, last_loc(s), '%s: raises %s although the command was done (answer in %s)' % (what, exc_name(I, s, v), mode))
        elif res is not None:
            same(rep, RR, s, v, res, cl, last_loc(s), '%s: the result is not the one of the simulator (answer in %s)' % (what, mode))
        else:
            rep.ok(RR)


def same(rep, R, s, got, want, cl, loc, msg):
    if got == want or textual(got) == textual(want):
        rep.ok(R)
        return True
    if isinstance(got, Sq) and isinstance(want, Sq):
        a, b = got.items(), want.items()
        if a is None or b is None:
            rep.und(R, msg + ': not tracked')
            return False
        if len(a) == len(b):
            return all([same(rep, R, s, x, y, cl, loc, msg) for x, y in zip(a, b)])
    x, y = num(got), num(want)
    if x is not None and y is not None:
        must_equal(rep, R, s, x, y, cl, loc, msg)
        return False
    if got is None or isinstance(got, Ref) or isinstance(got, T) and (got.imp or got.hint != 'obj'):
        rep.und(R, msg + ': not tracked')
        return False
    must_not(rep, R, s, [], cl, loc, msg + ' (%s instead of %s)' % (got, want))
    return False


def textual(v):
    """%d and %s of a number are the same text"""
    if isinstance(v, St):
        return tuple(p if isinstance(p, str) else ('f', p[1] if not isinstance(p[2], N) else 's', p[2]) if p[0] == 'f' else p for p in v.parts)
    return v


# ------------------------------------------------------------------ C35
PYM = 'modbus_tk.pymodbusclient'
EXEC = 'modbus_tk.modbus.Master.execute'
EPARAMS = ('slave', 'function_code', 'starting_address', 'quantity_of_x', 'output_value', 'data_format', 'expected_length',
           'write_starting_address_fc23', 'number_file', 'pdu', 'returns_raw', 'and_mask', 'or_mask')
EDEF = {'starting_address': N(0), 'quantity_of_x': N(0), 'output_value': N(0), 'data_format': K(''), 'expected_length': N(-1), 'pdu': K(''),
        'returns_raw': FALSE, 'write_starting_address_fc23': N(0)}


def c35(I, rep):
    R, RE = 'delegates', 'errors'
    host, port, limit = K('10.0.0.7'), N(sym('tcpport', 1, 65535)), N(sym('timelimit', 1, 100))
    I.cfg = Config()
    st, c = only(call(I, I.new_state(), need(I, PYM, 'PyModbusClientTCP'), [], {'host': host, 'port': port, 'timeout': limit}, mod=PYM), 'PyModbusClientTCP')
    addr, value = N(sym('reg_addr', 0, 65535)), N(sym('reg_value', 0, 65535))
    mode = {'how': 'ok', 'k': 1, 'off': 0}

    def stub(I2, s, args, kw, fr, node):
        s = s.fork()
        d = dict(EDEF)
        d.update(zip(EPARAMS, args[1:]))
        d.update(kw)
        I2.emit(s, 'exec', fr, node, **{'a': d})
        if mode['how'] == 'any':
            return [(s, I2.any_exc(s))]
        if mode['how'] != 'ok':
            return [I2.raise_(s, mode['how'])]
        return [(s, mkseq([N(sym('reading%d' % (i + mode['off']), 0, 65535)) for i in range(mode['k'])]))]
    reads = [('read_input_registers', 4, 'num'), ('read_coils', 1, 'bit_number'), ('read_discrete_inputs', 2, 'bit_number')]
    if has_method(I, st, c, 'read_holding_registers'):
        reads.append(('read_holding_registers', 3, None))
    jobs = []
    for m, fc, p in reads:
        for k in (1, 2, 3):
            jobs.append((m, [addr, N(k)], {}, fc, {'quantity_of_x': N(k)}, k))
        if p:
            jobs.append((m, [addr], {p: N(2)}, fc, {'quantity_of_x': N(2)}, 2))
        jobs.append((m, [addr], {}, fc, {'quantity_of_x': N(1)}, 1))
        jobs.append((m, [addr, N(sym('reg_count', 1, 2000))], {}, fc, {'quantity_of_x': N(sym('reg_count', 1, 2000))}, 1))
    jobs.append(('write_single_register', [addr, value], {}, 6, {'output_value': value}, None))
    for v in (N(0), N(1), value):
        jobs.append(('write_single_coil', [addr, v], {}, 5, {'output_value': v}, None))
    for m, args, kw, fc, want, k in jobs:
        for how in ('ok', 'any', 'ValueError', 'TimeoutError', 'again', 'after'):
            off = 100 if how in ('again', 'after') else 0
            start = st
            I.cfg = Config(stubs={EXEC: stub}, unroll=12)
            if off:
                # the same call once more, also after a failure
                mode.update(how='ok' if how == 'again' else 'ValueError', k=k or 2, off=0)
                start = callm(I, st.fork(), c, m, args, kw)[0][0]
                how = 'ok'
            n = start.ntrace
            mode.update(how=how, k=k or 2, off=off)
            outs = callm(I, start.fork(), c, m, args, kw)
            I.cfg = Config()
            cl = 'PyModbusClientTCP.%s' % m
            for s, v in outs:
                rep.paths += 1
                functions(rep, s)
                es = [e for e in flat(s.events()[n:]) if e.kind == 'exec']
                if len(es) != 1:
                    must_not(rep, R, s, [], cl, es[-1].loc if es else last_loc(s), '%s: %d requests are made' % (m, len(es)), [v] if isinstance(v, T) else [])
                    continue
                e = es[0]
                w = dict(EDEF)
                w.update({'slave': N(1), 'function_code': N(fc), 'starting_address': addr})
                w.update(want)
                ok = True
                for x, y in sorted(w.items()):
                    if fc in (5, 6) and x == 'quantity_of_x':
                        continue
                    ok = same(rep, R, At(s, e.facts), e.d['a'][x], y, cl, e.loc, '%s: %s is not the one of the call' % (m, x)) and ok
                if not ok:
                    continue
                if how != 'ok':
                    if not isinstance(v, Exc):
                        must_not(rep, RE, s, [], cl, last_loc(s), '%s: an error of the master is not raised' % m, [v] if isinstance(v, T) else [])
                    else:
                        rep.ok(RE)
                elif isinstance(v, Exc):
                    must_not(rep, R, s, [], cl, last_loc(s), '%s: raises %s' % (m, exc_name(I, s, v)))
                elif k is not None:
                    g = v
                    if isinstance(v, Ref) and s.get(v.oid).kind == 'list':
                        g = Sq(s.get(v.oid).segs, 'list')
                    elif isinstance(v, Sq):
                        g = Sq(v.segs, 'list')
                    same(rep, R, s, g, mkseq([N(sym('reading%d' % (i + off), 0, 65535)) for i in range(k)], 'list'), cl, last_loc(s),
                         '%s: the result is not what was read' % m)
                else:
                    rep.ok(R)
    c35_defaults(I, rep, host, port, limit)
    # the connection
    I.cfg = Config(events=9)
    cl = 'PyModbusClientTCP'
    for s, v in callm(I, st.fork(), c, 'open'):
        if isinstance(v, Exc):
            must_not(rep, R, s, [], cl, last_loc(s), 'open raises %s' % exc_name(I, s, v))
            continue
        cs = [e for e in flat(s.events()) if e.kind == 'io' and e.d['op'] in ('connect', 'create_connection')]
        if len(cs) != 1:
            must_not(rep, R, s, [], cl, last_loc(s), 'open makes %d connections' % len(cs))
            continue
        same(rep, R, s, cs[0].d['args'][0], Tup(host, port), cl, cs[0].loc, 'the connection is made to another address')
        for e in flat(s.events()):
            if e.kind == 'io' and e.d['op'] == 'settimeout' and e.d['args']:
                same(rep, R, s, e.d['args'][0], limit, cl, e.loc, 'the connection has another time limit')
        for s2, v2 in callm(I, s.fork(), c, 'is_open'):
            if v2 != TRUE:
                must_not(rep, R, s2, [], cl, last_loc(s2), 'is_open is %s after open' % (v2,), [v2] if isinstance(v2, T) else [])
            else:
                rep.ok(R)
        for s2, v2 in callm(I, s.fork(), c, 'close'):
            if isinstance(v2, Exc) or not [e for e in flat(s2.events()) if e.kind == 'io' and e.d['op'] == 'close']:
                must_not(rep, R, s2, [], cl, last_loc(s2), 'close does not close the connection')
                continue
            for s3, v3 in callm(I, s2.fork(), c, 'is_open'):
                if v3 != FALSE:
                    must_not(rep, R, s3, [], cl, last_loc(s3), 'is_open is %s after close' % (v3,), [v3] if isinstance(v3, T) else [])
                else:
                    rep.ok(R)
    I.cfg = Config(faults=('io:connect',))
    for s, v in callm(I, st.fork(), c, 'open'):
        if [e for e in flat(s.events()) if e.kind == 'iofail'] and not isinstance(v, Exc):
            must_not(rep, RE, s, [], cl, last_loc(s), 'open: an error of the master is not raised', [v] if isinstance(v, T) else [])
        else:
            rep.ok(RE)
    I.cfg = Config()


def c35_defaults(I, rep, host, port, limit):
    """a client made with some of its settings connects as a master made with them does"""
    R, cl = 'settings', 'PyModbusClientTCP.__init__'
    every = (('host', 'host', host), ('port', 'port', port), ('timeout', 'timeout_in_sec', limit))
    zero = (('host', 'host', K('')), ('port', 'port', N(0)), ('timeout', 'timeout_in_sec', N(0)))
    for given, every in [(g, every) for g in range(8)] + [(g, zero) for g in (1, 2, 4, 7)]:
        seen = []
        ours = dict((a, v) for i, (a, b, v) in enumerate(every) if given & 1 << i)
        theirs = dict((b, v) for i, (a, b, v) in enumerate(every) if given & 1 << i)
        for mod, cls, kw in (('modbus_tk.modbus_tcp', 'TcpMaster', theirs), (PYM, 'PyModbusClientTCP', ours)):
            I.cfg = Config()
            st, c = only(call(I, I.new_state(), need(I, mod, cls), [], kw, mod=mod), cls)
            I.cfg = Config(events=9)
            outs = callm(I, st, c, 'open')
            fine = [(s, v) for s, v in outs if not isinstance(v, Exc)]
            st, v = (fine or outs)[0]
            rep.paths += 1
            functions(rep, st)
            what = 'made with %s' % (' and '.join(sorted(ours)) or 'no settings')
            if isinstance(v, Exc):
                if seen:
                    must_not(rep, R, st, [], cl, last_loc(st), '%s: open raises %s' % (what, exc_name(I, st, v)))
                else:
                    rep.und(R, 'TcpMaster.open fails')
                break
            es = [e for e in flat(st.events()) if e.kind == 'io']
            seen.append((st, [e for e in es if e.d['op'] in ('connect', 'create_connection')], [e.d['args'] for e in es if e.d['op'] == 'settimeout'][-1:]))
        if len(seen) < 2:
            continue
        (_, c0, t0), (s, c1, t1) = seen
        if len(c0) != 1 or len(c1) != 1:
            must_not(rep, R, s, [], cl, last_loc(s), '%s: open makes %d connections' % (what, len(c1)))
            continue
        same(rep, R, s, c1[0].d['args'][0], c0[0].d['args'][0], cl, c1[0].loc, '%s: the connection is made to another address' % what)
        if t0 and t1:
            same(rep, R, s, t1[0][0], t0[0][0], cl, c1[0].loc, '%s: the connection has another time limit' % what)
        else:
            same(rep, R, s, K(bool(t1)), K(bool(t0)), cl, c1[0].loc, '%s: the time limit of the connection' % what)


# ------------------------------------------------------------------ C36
WFN = dict((n, T('worker_' + n, (), 'obj')) for n in ('init', 'main', 'exit'))


def c36(I, rep):
    from .servers import target, thread_of
    R, RS = 'worker', 'stop'
    cl = 'WorkerThread'
    args = Tup(T('arg0', (), 'obj'), T('arg1', (), 'obj'))
    how = {}

    def ufn(I2, s, f, a, kw, fr, node):
        for n, g in WFN.items():
            if f == g:
                outs = []
                for h in how.get(n, ('none',)):
                    s2 = s.fork()
                    outs.append((s2, NONE) if h == 'none' else (s2, I2.any_exc(s2)) if h == 'any' else I2.raise_(s2, h))
                return outs
        return None
    for init in (True, False):
        for exit_ in (True, False):
            for given in (args, None):
                kw = {}
                pos = [WFN['main']]
                if given is not None:
                    pos.append(given)
                if init:
                    kw['init_fct'] = WFN['init']
                if exit_:
                    kw['exit_fct'] = WFN['exit']
                I.cfg = Config(events=9)
                st, w = only(call(I, I.new_state(), need(I, 'modbus_tk.utils', 'WorkerThread'), pos, kw, mod='modbus_tk.utils'), 'WorkerThread')
                n0 = st.ntrace
                I.cfg = Config(events=9, alive=False)
                for s, v in callm(I, st.fork(), w, 'stop'):
                    if isinstance(v, Exc):
                        must_not(rep, RS, s, [], cl, last_loc(s), 'stop of a worker that was not started raises %s' % exc_name(I, s, v))
                    else:
                        rep.ok(RS)
                I.cfg = Config(events=9)
                for s, v in callm(I, st.fork(), w, 'start'):
                    t = thread_of(s, n0)
                    if isinstance(v, Exc) or t is None:
                        must_not(rep, R, s, [], cl, last_loc(s), 'start does not start a thread')
                        continue
                    running(I, rep, R, cl, s, t, init, exit_, args.items() if given is not None else [], ufn, how)
                    stops(I, rep, RS, cl, s, t, w, ufn, how)
    I.cfg = Config()


def running(I, rep, R, cl, st, t, init, exit_, args, ufn, how):
    from .servers import target
    f, targs = target(I, st, t)
    n = st.ntrace
    for k in (0, 1, 3):
        for fi in ('none', 'any', 'ValueError', 'SystemExit') if init else ('none',):
            for fm in ('none', 'any', 'KeyError', 'SystemExit', 'third'):
                how.clear()
                how['init'] = (fi,)
                how['main'] = ('none', 'any') if fm == 'third' else (fm,)
                o = st.fork()
                for key in [x for x in o.ext if isinstance(x, tuple) and x[0] == 'tests']:
                    o.setext(key, N(0))
                I.cfg = Config(events=k, peel=700, ufn=ufn)
                outs = I.call(o, f, list(targs), {}, top(I, 'modbus_tk.utils'), None)
                I.cfg = Config()
                for s, v in outs:
                    rep.paths += 1
                    functions(rep, s)
                    if 'stuck' in s.flags:
                        rep.und(R, 'the loop of the worker')
                        continue
                    es = [e for e in flat(s.events()[n:]) if e.kind == 'ucall' and e.d['fn'] in WFN.values()]
                    got = [e.d['fn'].op[7:] for e in es]
                    what = 'init %s, main %s, stopped after %d passes' % (fi, fm, k)
                    ex = [x for x in got if x == 'exit']
                    if len(ex) != (1 if exit_ else 0) or exit_ and got[-1] != 'exit':
                        must_not(rep, R, s, [], cl, es[-1].loc if es else last_loc(s), '%s: the exit function runs %d times (%s)' % (what, len(ex), ', '.join(got)))
                        continue
                    if init and (got[:1] != ['init'] or got.count('init') != 1) or not init and 'init' in got:
                        must_not(rep, R, s, [], cl, es[0].loc if es else last_loc(s), '%s: the init function is not run once first (%s)' % (what, ', '.join(got)))
                        continue
                    mains = got.count('main')
                    if fi != 'none':
                        lo, hi = 0, 0
                    elif fm in ('none',):
                        lo, hi = k, k
                    elif fm == 'third':
                        lo, hi = min(1, k), k
                    else:
                        lo, hi = min(1, k), min(1, k)
                    if not lo <= mains <= hi:
                        must_not(rep, R, s, [], cl, es[-1].loc if es else last_loc(s), '%s: the main function runs %d times' % (what, mains))
                        continue
                    bad = [e for e in es if list(e.d['args']) != list(args) or e.d['kw']]
                    if bad:
                        must_not(rep, R, s, [], cl, bad[0].loc, '%s: a function is not called with the arguments of the worker' % what)
                        continue
                    if isinstance(v, Exc) and 'SystemExit' not in (fi, fm):
                        must_not(rep, R, s, [], cl, last_loc(s), '%s: the failure ends the thread with %s' % (what, exc_name(I, s, v)))
                        continue
                    rep.ok(R)


def stops(I, rep, R, cl, st, t, w, ufn, how):
    n = st.ntrace
    for alive in (True, False):
        I.cfg = Config(events=9, alive=alive)
        for s, v in callm(I, st.fork(), w, 'stop'):
            rep.paths += 1
            functions(rep, s)
            if isinstance(v, Exc):
                must_not(rep, R, s, [], cl, last_loc(s), 'stop raises %s' % exc_name(I, s, v))
                continue
            evs = [e for e in flat(s.events()[n:]) if e.kind in ('event', 'thread')]
            joins = [i for i, e in enumerate(evs) if e.kind == 'thread' and e.d['op'] == 'join' and e.d['obj'] == t]
            clears = [i for i, e in enumerate(evs) if e.kind == 'event' and e.d['op'] == 'clear']
            if not alive:
                rep.ok(R)
            elif not joins or [j for j in joins if any(a != NONE for a in evs[j].d['args'])] == joins:
                must_not(rep, R, s, [], cl, last_loc(s), 'stop returns before the thread has ended')
            elif clears and clears[0] > joins[0]:
                must_not(rep, R, s, [], cl, evs[joins[0]].loc, 'stop waits for the thread before telling it to end')
            elif goes_on(I, rep, s, t, ufn, how):
                must_not(rep, R, s, [], cl, last_loc(s), 'a worker stopped before its first pass goes on running: stop waits for ever'
                         if clears else 'stop does not tell the thread to end')
            else:
                rep.ok(R)
    I.cfg = Config()


def goes_on(I, rep, st, t, ufn, how):
    """the thread, at its start when stop was called, runs its main function again and again"""
    from .servers import target
    f, targs = target(I, st, t)
    how.clear()
    I.cfg = Config(events=5, peel=700, ufn=ufn)
    outs = I.call(st.fork(), f, list(targs), {}, top(I, 'modbus_tk.utils'), None)
    I.cfg = Config()
    for s, v in outs:
        functions(rep, s)
        es = [e for e in flat(s.events()[st.ntrace:]) if e.kind == 'ucall' and e.d['fn'] == WFN['main']]
        if len(es) > 1 and not vague(s):
            return True
    return False
