"""C15, C16, C17: what is guarded by which lock, critical sections, lock order, release."""
from ..drive import *
from ..drive import SlaveEnv, pdu_fc, const, exc_name, exc_is, only, call, callm, need, top
from .base import *
from .bank import registry, query, stubs_for, hookexc, MB

CONTAINERS = ('list', 'dict', 'cells', 'set', 'ba')


class Op(object):
    """outcomes of one operation"""

    def __init__(self, name, outs):
        self.name, self.outs = name, outs


def linear(evs, depth=0):
    """traces (lists of events) with every loop body run twice"""
    outs = [[]]
    for e in evs:
        if e.kind != 'loop':
            for o in outs:
                o.append(e)
            continue
        bodies = []
        for c in e.body['conts']:
            bodies.extend(linear(c[1], depth + 1))
        bodies = [b for b in bodies if any(x.kind in ('acc', 'rd', 'wr', 'lock', 'unlock', 'setattr', 'setglobal', 'io', 'ucall', 'hook')
                                           for x in b)]
        if not bodies:
            continue
        bodies = bodies[:4]
        outs = [o + b + b for o in outs for b in bodies][:32]
    return outs


def mutated(I, s, base):
    """containers, attributes and globals that existed in base and that a path changed"""
    cont, attr = set(), set()
    for e in flat(s.events()):
        if e.kind in ('lmut', 'dmut', 'wr'):
            r = e.d.get('obj') or e.d.get('ref') or e.d.get('recv')
            if isinstance(r, Ref) and base.has(r.oid):
                cont.add(r.oid)
        elif e.kind == 'setattr' and isinstance(e.d['obj'], Ref) and base.has(e.d['obj'].oid):
            if base.get(e.d['obj'].oid).kind in ('inst', 'cls'):
                attr.add((e.d['obj'].oid, e.d['name']))
        elif e.kind == 'setglobal':
            attr.add(('M:' + e.d['mod'], e.d['name']))
    return cont, attr


def marked(st, cont):
    s = st.fork()
    for oid in cont:
        s.setext(('shared', oid), TRUE)
    return s


def is_access(e, cont, attr):
    if e.kind == 'acc':
        return True
    if e.kind in ('rd', 'wr'):
        return True
    if e.kind == 'setattr':
        return isinstance(e.d['obj'], Ref) and (e.d['obj'].oid, e.d['name']) in attr
    if e.kind == 'setglobal':
        return ('M:' + e.d['mod'], e.d['name']) in attr
    return False


def sections(rep, rule, ops, base, cont, attr, what, single=True, access=None):
    """every access of every operation happens under one lock that existed before; single: in one critical section"""
    hit = access or (lambda e: is_access(e, cont, attr))
    votes = {}
    allacc = []
    for op in ops:
        for s, v in op.outs:
            for tr in linear(s.events()):
                acc = [e for e in tr if hit(e)]
                if acc:
                    allacc.append((op, s, tr, acc))
                    for e in acc:
                        for l in set(e.locks):
                            votes[l] = votes.get(l, 0) + 1
    if not allacc:
        rep.und(rule, 'no access to %s found' % what)
        return None
    old = dict((l, n) for l, n in votes.items() if base.has(l.oid))
    if not old:
        op, s, tr, acc = allacc[0]
        must_not(rep, rule, s, [], op.name, acc[0].loc, 'accesses %s without a lock' % what)
        return None
    L = max(sorted(old, key=str), key=lambda l: old[l])
    for op, s, tr, acc in allacc:
        bare = [e for e in acc if L not in e.locks]
        if bare:
            must_not(rep, rule, s, [], op.name, bare[0].loc, 'accesses %s without holding %s' % (what, owner(base, L)))
            continue
        if single and not op.name.startswith('*'):
            depth, seen, bad, was = 0, False, None, False
            for e in tr:
                if e.kind == 'lock' and e.d['lock'] == L:
                    depth += 1
                elif e.kind == 'unlock' and e.d['lock'] == L:
                    depth -= 1
                    if depth <= 0 and seen:
                        was = True
                elif hit(e):
                    if was and bad is None:
                        bad = e
                    seen = True
            if bad is not None:
                must_not(rep, rule, s, [], op.name, bad.loc, 'releases %s between its first and its last access to %s' % (owner(base, L), what))
                continue
        rep.ok(rule)
    return L


def owner(st, l):
    """readable identity of a lock: class attribute, module global or closure variable that holds it"""
    r = owners(st).get(l)
    return r or 'a lock made at run time'


def owners(st):
    out = {}
    seen = list(st.base.items()) + list(st.heap.items())
    for oid, o in seen:
        if o.kind == 'inst':
            for k, v in o.attrs.items():
                if isinstance(v, Ref):
                    c = o.cls
                    n = st.get(c.oid).name if isinstance(c, Ref) else '?'
                    out.setdefault(v, '%s.%s' % (n, k))
        elif o.kind == 'cls':
            for k, v in o.attrs.items():
                if isinstance(v, Ref):
                    out.setdefault(v, '%s.%s' % (o.name, k))
        elif o.kind == 'env':
            for k, v in o.vars.items():
                if isinstance(v, Ref):
                    out.setdefault(v, '%s.%s' % (oid[2:] if str(oid).startswith('M:') else 'closure %s' % oid, k))
    return out


# ------------------------------------------------------------------ C15
def slave_ops(I, E, st, fcs):
    un = E.unsigned
    t = E.tab['HOLDING_REGISTERS']
    key = T('somename', (), 'str')
    calls = [('handle_request FC%d' % fc, 'handle_request', [pdu_fc(fc)], {}) for fc in fcs]
    calls += [('handle_request broadcast', 'handle_request', [pdu_fc(6)], {'broadcast': TRUE})]
    for b in TABLES:
        calls.append(('add_block', 'add_block', [T('newname', (), 'str'), N(E.tab[b]), N(sym('new_start')), N(sym('new_size'))], {}))
    vals = Sq((('rep', mkatom('bv', (0,), 0), sym('nvalues', 0), (N(lin(mkatom('val', (lin(mkatom('bv', (0,), 0)),), 0, 65535))),)),), 'list')
    calls += [('remove_block', 'remove_block', [key], {}), ('remove_all_blocks', 'remove_all_blocks', [], {}),
              ('set_values', 'set_values', [key, N(sym('addr')), vals], {}),
              ('set_values', 'set_values', [key, N(sym('addr')), N(sym('value', 0, 65535))], {}),
              ('get_values', 'get_values', [key, N(sym('addr')), N(sym('size', 1))], {})]
    out = []
    for label, m, args, kw in calls:
        if not has_method(I, st, E.slave, m):
            continue
        I.cfg = Config(watch=I.cfg.data.get('watch'))
        try:
            out.append(Op('Slave.' + label, callm(I, st.fork(), E.slave, m, args, kw)))
        except Budget:
            pass
    return out


def c15(I, rep):
    R = 'critical-section'
    for t in ('HOLDING_REGISTERS', 'COILS'):
        E = SlaveEnv(I, True, True, names=t)
        fcs = (3, 4, 6, 16, 22, 23) if t == 'HOLDING_REGISTERS' else (1, 2, 5, 15, 7)
        I.cfg = Config()
        first = slave_ops(I, E, E.st, fcs)
        cont, attr = set(), set()
        for op in first:
            for s, v in op.outs:
                c, a = mutated(I, s, E.st)
                cont |= c
                attr |= a
        for f in E.fam.values():
            for k in ('list', 'names'):
                if k in f:
                    cont.add(f[k].oid)
            if 'cells' in f:
                cont.add(f['cells'])
        # counters and time stamps of the slave itself are not its blocks and values
        attr = set(x for x in attr if any(isinstance(v, Ref) and E.st.has(v.oid) and E.st.get(v.oid).kind in CONTAINERS
                                          for v in [attr_of(E.st, x)]))
        I.cfg = Config(watch=attr)
        ops = slave_ops(I, E, marked(E.st, cont), fcs)
        for op in ops:
            for s, v in op.outs:
                rep.paths += 1
                functions(rep, s)
        sections(rep, R, ops, E.st, cont, attr, 'the blocks or values of the slave')
        for op in ops:
            if not op.name.startswith('Slave.get_values') and not op.name.startswith('Slave.handle_request'):
                continue
            for s, v in op.outs:
                if isinstance(v, Ref) and v.oid in cont:
                    must_not(rep, R, s, [], op.name, last_loc(s), 'returns the live storage of the block, which others change without the lock')
                else:
                    rep.ok(R)


def attr_of(st, x):
    if x[0].startswith('M:'):
        return st.get(x[0]).vars.get(x[1])
    o = st.get(x[0])
    return o.attrs.get(x[1])


# ------------------------------------------------------------------ C16
def bank_ops(I, st, bank, ids, slaves, watch=None):
    d = sym('new_id')
    u = sym('unit', 0, 255)
    out = []

    def cfg(**kw):
        I.cfg = Config(watch=watch, **kw)
    for m, args in (('add_slave', [N(d)]), ('get_slave', [N(d)]), ('remove_slave', [N(d)]), ('remove_all_slaves', [])):
        cfg()
        out.append(Op('Databank.' + m, callm(I, st.fork(), bank, m, args)))
    # a server that works on this databank
    cfg()
    try:
        s, srv = only(call(I, st.fork(), need(I, MB, 'Server'), [bank], mod=MB), 'Server(databank)')
        for m, args in (('add_slave', [N(d)]), ('get_slave', [N(d)]), ('remove_slave', [N(d)]), ('remove_all_slaves', [])):
            cfg()
            out.append(Op('Server.' + m, callm(I, s.fork(), srv, m, args)))
    except Missing:
        pass
    s, q = query(I, st)
    pdu = pdu_fc(6)
    for unit in (N(u), N(0)):
        cfg(stubs=stubs_for(unit, pdu))
        out.append(Op('*Databank.handle_request', callm(I, s.fork(), bank, 'handle_request', [q, T('request', (), 'bytes')])))
    return out


def c16(I, rep):
    R = 'guarded-table'
    st, bank, ids, slaves = registry(I, 2)
    ops = bank_ops(I, st, bank, ids, slaves)
    cont, attr = set(), set()
    for op in ops:
        for s, v in op.outs:
            c, a = mutated(I, s, st)
            cont |= c
            attr |= a
    attr = set(x for x in attr if x[0] == bank.oid)
    # containers of the slaves themselves belong to them
    mine = set()
    for k, v in st.get(bank.oid).attrs.items():
        if isinstance(v, Ref) and v.oid in cont:
            mine.add(v.oid)
    if not mine and not attr:
        rep.und(R, 'the map of slaves was not recognised')
    else:
        ops = bank_ops(I, marked(st, mine), bank, ids, slaves, attr)
        for op in ops:
            for s, v in op.outs:
                rep.paths += 1
                functions(rep, s)
                # the slaves do their own work: only accesses to the map count
        sections(rep, R, only_on(ops, mine), st, mine, attr, 'the map of slaves')
    hook_table(I, rep, R)
    tid(I, rep, R)


def only_on(ops, cont):
    return ops


HOOKS = 'modbus_tk.hooks'
REAL_HOOKS = {HOOKS + '.call_hooks': lambda *a: NotImplemented}


def hook_ops(I, st, watch=None, fns=None):
    F1, F2 = fns or (T('hookfn1', (), 'obj'), T('hookfn2', (), 'obj'))
    name, other = K('modbus.Slave.handle_request'), K('modbus.Master.after_send')
    out = []
    for label, f, args in (('install_hook', 'install_hook', [name, F2]), ('install_hook', 'install_hook', [other, F2]),
                           ('uninstall_hook', 'uninstall_hook', [name, F1]), ('uninstall_hook', 'uninstall_hook', [name]),
                           ('uninstall_hook', 'uninstall_hook', [other]),
                           ('*call_hooks', 'call_hooks', [name, Tup(T('x'))]), ('*call_hooks', 'call_hooks', [other, Tup(T('x'))])):
        I.cfg = Config(watch=watch, stubs=REAL_HOOKS, faults=('user',))
        out.append(Op('%s' % label, call(I, st.fork(), need(I, HOOKS, f), args, mod=HOOKS)))
    return out


def hook_state(I, n=1):
    """state with n hooks installed under one name"""
    I.cfg = Config()
    st = I.new_state()
    name = K('modbus.Slave.handle_request')
    for i in range(n):
        F1 = T('hookfn1' if i == 0 else 'hookfn%d' % (i + 2), (), 'obj')
        st, _ = only(call(I, st, need(I, HOOKS, 'install_hook'), [name, F1], mod=HOOKS), 'install_hook')
    st.trace, st.ntrace = None, 0
    return st


def hook_table(I, rep, R):
    for n in (1, 3, 0):
        hook_table_of(I, rep, R, n)


def hook_table_of(I, rep, R, n):
    st = hook_state(I, n)
    cont, attr = set(), set()
    for op in hook_ops(I, st):
        for s, v in op.outs:
            c, a = mutated(I, s, st)
            cont |= c
            attr |= a
    # lists of functions inside the table
    for oid in list(cont):
        o = st.get(oid)
        if o.kind == 'dict':
            for k, v in o.entries:
                if isinstance(v, Ref) and st.get(v.oid).kind in CONTAINERS:
                    cont.add(v.oid)
    ops = hook_ops(I, marked(st, cont), attr)
    for op in ops:
        for s, v in op.outs:
            rep.paths += 1
            functions(rep, s)
    sections(rep, R, ops, st, cont, attr, 'the table of hooks')
    # two steps of one call: the list that was found must still be the one that is changed
    return cont


TCP = 'modbus_tk.modbus_tcp'


def tid(I, rep, R):
    """the transaction id counter"""
    I.cfg = Config()
    st = I.new_state()
    outs = call(I, st, need(I, TCP, 'TcpQuery'), [], mod=TCP)
    st, q = only(outs, 'TcpQuery()')
    st.trace, st.ntrace = None, 0

    def run(s0, watch=None):
        I.cfg = Config(watch=watch)
        return [Op('TcpQuery.build_request', callm(I, s0.fork(), q, 'build_request', [pdu_fc(3), N(sym('unit', 0, 255))]))]
    base = I.new_state()
    cont, attr = set(), set()
    for op in run(st):
        for s, v in op.outs:
            c, a = mutated(I, s, base)
            cont |= c
            attr |= a
    if not cont and not attr:
        rep.und(R, 'the transaction id counter was not recognised')
        return
    # the counter at any value
    st = aged_counter(st, attr)
    ops = run(marked(st, cont), attr)
    for op in ops:
        for s, v in op.outs:
            rep.paths += 1
            functions(rep, s)
    sections(rep, R, ops, base, cont, attr, 'the transaction id counter')


def aged_counter(st, attr):
    st = st.fork()
    for owner_, name in attr:
        v = attr_of(st, (owner_, name))
        if num(v) is not None:
            x = N(sym('last_tid', 0, 65535))
            if owner_.startswith('M:'):
                o = st.get(owner_)
                d = dict(o.vars)
                d[name] = x
                st.put(owner_, o.set(vars=d))
            else:
                o = st.get(owner_)
                d = dict(o.attrs)
                d[name] = x
                st.put(owner_, o.set(attrs=d))
    return st


# ------------------------------------------------------------------ C17
LOCKTYPES = ('lock', 'rlock')


def lock_name(s, l):
    return owners(s).get(l) or 'lock of %s' % (l,)


def order_ops(I, rep):
    """operations whose lock behaviour is composed: [(Op, base state)]"""
    out = []
    for t, fcs in (('HOLDING_REGISTERS', (3, 16, 22)), ('COILS', (5,))):
        E = SlaveEnv(I, True, True, names=t, bank=True)
        I.cfg = Config()
        try:
            out += [(o, E.st) for o in slave_ops(I, E, E.st, fcs)]
        except Missing as e:
            rep.und('lock-order', str(e))
        for fc in fcs:
            s, q = query(I, E.st)
            for hooks in ({'*': ('none', 'exc:EX')}, None):
                I.cfg = Config(stubs=stubs_for(N(E.sid), pdu_fc(fc)), hookexc=hookexc, **({'hooks': hooks} if hooks else {}))
                try:
                    out.append((Op('Databank.handle_request FC%d' % fc, callm(I, s.fork(), E.bank, 'handle_request', [q, T('request', (), 'bytes')])), E.st))
                except Budget:
                    pass
    st, bank, ids, slaves = registry(I, 2)
    out += [(o, st) for o in bank_ops(I, st, bank, ids, slaves)]
    for n in (1, 3, 0):
        st = hook_state(I, n)
        out += [(o, st) for o in hook_ops(I, st)]
    out += master_ops(I, rep)
    return out


def master_ops(I, rep):
    out = []
    I.cfg = Config()
    st = I.new_state()
    try:
        st, m = only(call(I, st, need(I, TCP, 'TcpMaster'), [], mod=TCP), 'TcpMaster()')
    except Missing as e:
        rep.und('lock-order', str(e))
        return out
    st.trace, st.ntrace = None, 0
    for label, cfg in (('', Config()), (' when the link fails', Config(faults=('io',))),
                       (' when a hook raises', Config(hooks={'*': ('none', 'exc:EX')}, hookexc=hookexc))):
        I.cfg = cfg
        try:
            out.append((Op('Master.execute' + label, callm(I, st.fork(), m, 'execute', [N(sym('unit', 0, 255)), N(6), N(sym('addr', 0, 65535))],
                                                           {'output_value': N(sym('value', 0, 65535))})), st))
        except Budget:
            rep.und('lock-order', 'Master.execute%s: analysis budget exceeded' % label)
    # the decorator on any function
    I.cfg = Config(faults=('user',))
    try:
        f = need(I, 'modbus_tk.utils', 'threadsafe_function')
        s, g = only(call(I, I.new_state(), f, [T('anyfunction', (), 'obj')], mod='modbus_tk.utils'), 'threadsafe_function')
        base = s.fork()
        for kw in ({}, {'threadsafe': FALSE}, {'threadsafe': TRUE}):
            I.cfg = Config(faults=('user',))
            out.append((Op('threadsafe_function', call(I, s.fork(), g, [T('x')], dict(kw), mod='modbus_tk.utils')), base))
    except Missing as e:
        rep.und('lock-order', str(e))
    return out


def c17(I, rep):
    R = 'lock-order'
    ops = order_ops(I, rep)
    table = table_locks(I)
    edges = {}          # (a, b) -> (state, event, op, held names, why)
    fired = []          # (op, state, event, held)
    taken = {}          # lock name -> op that takes it
    typ = {}
    for op, base in ops:
        for s, v in op.outs:
            rep.paths += 1
            functions(rep, s)
            nm = owners(s)
            # released on every exit
            if s.locks:
                must_not(rep, 'release', s, [], op.name, last_loc(s), '%s while %s is still locked' % (
                    'raises %s' % exc_name(I, s, v) if isinstance(v, Exc) else 'returns', nm.get(s.locks[-1], 'a lock')))
            else:
                rep.ok('release')
            for tr in linear(s.events()):
                for e in tr:
                    if e.kind == 'deadlock':
                        must_not(rep, 'release', s, [], op.name, e.loc, 'waits for %s, which this very thread holds' % nm.get(e.d['lock'], 'a lock'))
                    elif e.kind == 'lock':
                        l = e.d['lock']
                        n = nm.get(l)
                        if n is None:
                            continue
                        typ[n] = s.get(l.oid).typ if s.has(l.oid) and s.get(l.oid).kind == 'ext' else '?'
                        taken.setdefault(n, op.name)
                        for h in e.d['held']:
                            a = nm.get(h)
                            if a and a != n:
                                add_edge(edges, a, n, s, e, op, frozenset(nm.get(x) for x in e.d['held']), 'takes')
                    elif e.kind in ('hook', 'ucall'):
                        held = frozenset(nm.get(x) for x in e.locks) - {None}
                        if held and not (isinstance(e.d.get('fn'), T) and e.d['fn'].op == 'anyfunction'):
                            fired.append((op, s, e, held))
    # hooks and their table
    for op, s, e, held in fired:
        bad = sorted(held & table)
        if bad:
            must_not(rep, R, s, [], op.name, e.loc, 'runs a user hook while the table of hooks (%s) is locked' % bad[0])
        else:
            rep.ok(R)
        for h in held:
            if typ.get(h) == 'lock' and h in taken:
                must_not(rep, R, s, [], op.name, e.loc, 'runs a user hook while %s, which is not re-entrant, is locked: '
                         'a hook that uses the same object again (%s) waits for ever' % (h, taken[h]))
            # what a hook may take: every lock of the public operations
            for n in taken:
                if n not in held and n not in table:
                    add_edge(edges, h, n, s, e, op, held, 'runs a user hook, which may take')
            for n in table:
                if n not in held:
                    add_edge(edges, h, n, s, e, op, held, 'looks up hooks with')
    cycles(rep, R, edges)


def add_edge(edges, a, b, s, e, op, held, why):
    k = (a, b)
    if vague(s):
        return
    lst = edges.setdefault(k, [])
    if len(lst) < 4 and not any(x[3] == held and x[2].name == op.name for x in lst):
        lst.append((s, e, op, held, why))


def cycles(rep, R, edges):
    nodes = sorted(set(x for k in edges for x in k))
    succ = dict((n, sorted(b for (a, b) in edges if a == n)) for n in nodes)
    found = False
    for n in nodes:
        # shortest cycle through n
        todo, prev = [n], {}
        hit = None
        while todo and hit is None:
            x = todo.pop(0)
            for y in succ[x]:
                if y == n:
                    hit = x
                    break
                if y not in prev:
                    prev[y] = x
                    todo.append(y)
        if hit is None:
            rep.ok(R)
            continue
        path = [n]
        x = hit
        back = []
        while x != n:
            back.append(x)
            x = prev[x]
        cyc = [n] + back[::-1] + [n]
        if min(cyc) != n:
            continue
        pairs = list(zip(cyc, cyc[1:]))
        combos = [edges[p][0] for p in pairs]
        gate = None
        if len(pairs) == 2:
            for x in edges[pairs[0]]:
                for y in edges[pairs[1]]:
                    if not ((x[3] & y[3]) - set(cyc)):
                        gate = (x, y)
            if gate is None:
                rep.ok(R)
                continue
            combos = list(gate)
        # two hook edges alone are the doing of the hooks
        if all(c[4].startswith('runs') for c in combos):
            rep.ok(R)
            continue
        s, e, op, held, why = sorted(combos, key=lambda c: c[4].startswith('runs'))[0]
        msg = 'lock order has a cycle: ' + '; '.join('%s holds %s and %s %s' % (c[2].name, p[0], c[4], p[1]) for p, c in zip(pairs, combos))
        must_not(rep, R, s, [], op.name, e.loc, msg)


def table_locks(I):
    """names of the locks that guard the table of hooks"""
    st = hook_state(I)
    cont, attr = set(), set()
    for op in hook_ops(I, st):
        for s, v in op.outs:
            c, a = mutated(I, s, st)
            cont |= c
            attr |= a
    out = set()
    for op in hook_ops(I, marked(st, cont), attr):
        for s, v in op.outs:
            nm = owners(s)
            for e in flat(s.events()):
                if is_access(e, cont, attr):
                    out |= set(nm.get(l) for l in e.locks)
    return out - {None}
