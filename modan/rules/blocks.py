"""C11-C13: the blocks of a slave, their names and their local accesses."""
from ..drive import *
from ..drive import SlaveEnv, exc_name, TABLES, callm, has_method
from ..loops import state_diff
from ..bytesops import seq_elem
from .base import *
from .scan import *
from . import slave as SL

_E = {}
NM = T('the_name', (), 'str')
ADDR, SZ = sym('address'), sym('size')
FCREAD = {'COILS': 1, 'DISCRETE_INPUTS': 2, 'HOLDING_REGISTERS': 3, 'ANALOG_INPUTS': 4}


def env(I, t):
    k = (id(I), t)
    if k not in _E:
        _E[k] = SlaveEnv(I, True, True, (t,), t)
    return _E[k]


def ready(rep, rule, E, t):
    fam = E.fam[t]
    if 'cells' in fam and 'list' in fam and 'names' in fam:
        return True
    rep.und(rule, 'storage of the blocks of %s not recognised: %s' % (t, '; '.join(E.notes)))
    return False


def dup_lit(E, t, name=None):
    ref = E.fam[t]['names']
    return ('bool', ('in', name or NM, ref, K(str(E.st.get(ref.oid).ver))), True)


def neg(l):
    return (l[0], l[1], not l[2])


def core(E, t):
    """objects that hold the blocks and their names"""
    fam = E.fam[t]
    c = set([fam['list'].oid, fam['names'].oid])
    st = E.st
    for oid in list(st.heap) + list(st.base):
        o = st.get(oid)
        if o.kind == 'dict' and any(isinstance(v, Ref) and v.oid in c for _, v in o.entries):
            c.add(oid)
    return c


def changed(E, t, s, st0=None):
    """what a call changed: descriptions with places"""
    c = core(E, t)
    out = []
    for d in state_diff(st0 or E.st, s):
        if d[0] == 'o' and d[1] in c:
            out.append(d)
        elif d[0] == 'a' and isinstance(E.st.get(d[1]).attrs.get(d[2]) if E.st.has(d[1]) else None, Ref) and \
                E.st.get(d[1]).attrs[d[2]].oid in c:
            out.append(d)
        elif d[0] == 'a' and E.st.has(d[1]) and d[1] == E.fam[t].get('blk'):
            out.append(d)
    loc = None
    for e in flat(s.events()):
        if e.kind in ('lmut', 'dmut') and e.d['obj'].oid in c:
            loc = loc or e.loc
        if e.kind == 'wr' and e.d['obj'].oid == E.fam[t]['cells']:
            out.append(('cells',))
            loc = loc or e.loc
    return out, loc


def calls(I, E, name, args, lits=(), st=None, cfg=None, extra=None):
    I.cfg = cfg or Config()
    st = (st or E.st).fork()
    for l in lits:
        st = st.assume(l)
        if st is None:
            return []
    return callm(I, st, E.slave, name, args)


def track(rep, s):
    rep.paths += 1
    functions(rep, s)


def cls_is(I, s, v, mod, name):
    c = I.glob(mod, name)
    return c is not None and exc_is(I, s, v, c)


EXC = 'modbus_tk.exceptions'
MB = 'modbus_tk.modbus'


def err(I, name):
    for m in (EXC, MB):
        c = I.glob(m, name)
        if c is not None:
            return c
    raise Missing(name)


# ------------------------------------------------------------------ order of the stored blocks
def members(E, t, segs):
    """content of a block list: ('old', lo, n) ranges of old blocks and ('new', ref); None when not understood"""
    out = []
    blk = E.fam[t]['blk']
    for s in segs:
        if s[0] == 'item':
            v = s[1]
            if isinstance(v, Ref) and v.oid == blk and len(v.idx) == 1:
                out.append(('old', v.idx[0], ONE))
            elif isinstance(v, Ref) and not E.st.has(v.oid):
                out.append(('new', v))
            else:
                return None
        elif s[0] == 'rep' and len(s[3]) == 1:
            v = s[3][0]
            if not (isinstance(v, Ref) and v.oid == blk and len(v.idx) == 1):
                return None
            off = v.idx[0] - lin(s[1])
            if s[1].id in off.free_atoms():
                return None
            out.append(('old', off, s[2]))
        else:
            return None
    return out


def table_list(I, E, t, s):
    """segments of the list a lookup in table t uses, in state s"""
    fam = E.fam[t]
    holder = None
    for oid in list(E.st.heap) + list(E.st.base):
        o = E.st.get(oid)
        if o.kind == 'dict':
            for k, v in o.entries:
                if v == fam['list']:
                    holder = (oid, k)
    if holder is not None:
        for k, v in s.get(holder[0]).entries:
            if k == holder[1]:
                return s.get(v.oid).segs if isinstance(v, Ref) and s.get(v.oid).kind == 'list' else None
        return None
    return s.get(fam['list'].oid).segs


def sorted_state(I, t):
    """True when every addition keeps the blocks of the table sorted; False with a witness; None"""
    E = env(I, t)
    if not hasattr(E, 'order'):
        E.order = None
        if 'list' in E.fam[t] and 'names' in E.fam[t]:
            E.order = _sorted(I, E, t)
    return E.order


def _sorted(I, E, t):
    know = Know(E, True)
    res = True
    w = sym('other block', 0)
    for s, v in calls(I, E, 'add_block', [NM, N(E.tab[t]), N(ADDR), N(SZ)]):
        if isinstance(v, Exc):
            continue
        segs = table_list(I, E, t, s)
        m = members(E, t, segs) if segs is not None else None
        if m is None:
            return None
        pos = [i for i, x in enumerate(m) if x[0] == 'new']
        if len(pos) != 1:
            return None
        for i, x in enumerate(m):
            if i == pos[0]:
                continue
            inr = [('ge', w - x[1]), ('ge', x[1] + x[2] - w - 1)]
            if i < pos[0]:
                bad = ('ge', E.start(t, w) + E.size(t, w) - ADDR - 1)
            else:
                bad = ('ge', ADDR + SZ - E.start(t, w) - 1)
            r = decide(know, s, inr + [bad, ('ge', ADDR), ('ge', SZ - 1)], [(t, w)])
            if r == 'no':
                continue
            if r == '?':
                res = None
            else:
                return False
    return res


# ------------------------------------------------------------------ C11
def c11(I, rep):
    R1, R2, R3, R4 = 'no-overlap', 'legal-accepted', 'documented-error', 'refusal-changes-nothing'
    w = sym('other block', 0)
    for t in TABLES:
        E = env(I, t)
        if not ready(rep, R1, E, t):
            continue
        n = E.fam[t]['n']
        legal = [('ge', ADDR), ('ge', SZ - 1)]
        dup = dup_lit(E, t)
        W = 'add_block[%s]' % t
        over = [('ge', E.start(t, w) + E.size(t, w) - ADDR - 1), ('ge', ADDR + SZ - E.start(t, w) - 1)]
        outs = calls(I, E, 'add_block', [NM, N(E.tab[t]), N(ADDR), N(SZ)])
        for s, v in outs:
            track(rep, s)
            if not isinstance(v, Exc):
                # accepted: no overlap, no other fault
                r = decide(Know(E, None), s, legal + over, [(t, w)])
                if r != 'no':
                    so = sorted_state(I, t)
                    r = decide(Know(E, so), s, legal + over, [(t, w)])
                    if so is None and r != 'no':
                        r = '?'
                verdict(rep, R1, r, s, W, 'accepts a block that overlaps an existing one', muts(s))
                for lits, what in (([dup], 'a name already in use'), ([('ge', -SZ)], 'a size that is not positive'),
                                   ([('ge', -ADDR - 1)], 'a negative start')):
                    must_not(rep, R3, s, lits, W, muts(s), 'accepts ' + what)
                continue
            loc = last_loc(s, kinds=('raise',))
            name = exc_name(I, s, v)
            # refused: some fault is there
            ment = mentioned(s.facts)
            so = sorted_state(I, t)
            cond = legal + [neg(dup)]
            cases = [[]]
            for tt, x in ment:
                cases = [c + [l] for c in cases for l in (('ge', E.start(t, x) - ADDR - SZ),
                                                          ('ge', ADDR - E.start(t, x) - E.size(t, x)))]
            for c in cases[:32]:
                r = decide_free(Know(E, so), E, t, s, cond + c)
                if so is None and r not in ('no', '?'):
                    r = '?'
                verdict(rep, R2, r, s, W, 'refuses a legal block (%s)' % name, loc)
            # single faults raise the documented error
            free = [('eq', n)]
            for lits, want, what in ((legal + [dup] + free, 'DuplicatedKeyError', 'a name already in use'),
                                     ([('ge', ADDR), ('ge', -SZ), neg(dup)] + free, 'InvalidArgumentError', 'a size that is not positive'),
                                     ([('ge', -ADDR - 1), ('ge', SZ - 1), neg(dup)] + free, 'InvalidArgumentError', 'a negative start')):
                if exc_is(I, s, v, err(I, want)):
                    rep.ok(R3)
                else:
                    must_not(rep, R3, s, lits, W, loc, '%s raises %s instead of %s' % (what, name, want))
            if not exc_is(I, s, v, err(I, 'OverlapModbusBlockError')):
                r = decide(Know(E, so), s, legal + [neg(dup)] + over, [(t, w)])
                if so is None and r not in ('no', '?'):
                    r = '?'
                verdict(rep, R3, r, s, W, 'an overlap raises %s instead of OverlapModbusBlockError' % name, loc)
            ch, l2 = changed(E, t, s)
            if ch:
                must_not(rep, R4, s, [], W, l2 or loc, 'changes the blocks although it raises %s' % name)
            else:
                rep.ok(R4)
    few(I, rep)
    # unknown table
    t = 'COILS'
    E = env(I, t)
    if ready(rep, R3, E, t):
        known = set(E.tab.values())
        bt = sym('block_type')
        lits = [('ne', bt - k) for k in sorted(known)]
        for s, v in calls(I, E, 'add_block', [NM, N(bt), N(ADDR), N(SZ)], lits):
            track(rep, s)
            W = 'add_block[unknown table]'
            ok = [('ge', ADDR), ('ge', SZ - 1), neg(dup_lit(E, t))]
            if not isinstance(v, Exc):
                must_not(rep, R3, s, ok, W, muts(s), 'accepts a block of an unknown table')
                continue
            if not exc_is(I, s, v, err(I, 'InvalidModbusBlockError')):
                must_not(rep, R3, s, ok, W, last_loc(s, kinds=('raise',)), 'an unknown table raises %s' % exc_name(I, s, v))
            ch, l2 = changed(E, t, s)
            if ch:
                must_not(rep, R4, s, [], W, l2 or last_loc(s), 'changes the blocks although it raises %s' % exc_name(I, s, v))
            else:
                rep.ok(R4)


def few(I, rep):
    """short histories from an empty table: additions and a removal, every block with its own start and size"""
    R1, R2, R3 = 'no-overlap', 'legal-accepted', 'documented-error'
    P = [(sym('start%d' % i), sym('size%d' % i)) for i in range(3)]
    for t in TABLES:
        E = env(I, t)
        W = 'add_block[%s]' % t
        for plan in ('aaa', 'ara', 'aara'):
            cur = [(E.empty.fork(), [])]
            used, i = [], 0
            for step in plan:
                nxt = []
                if step == 'r':
                    for s, have in cur:
                        for s2, v in calls(I, E, 'remove_block', [K('block0')], (), s, Config(peel=6)):
                            track(rep, s2)
                            if isinstance(v, Exc):
                                must_not(rep, R2, s2, [], 'remove_block[%s]' % t, last_loc(s2), 'removing an existing block raises %s' % exc_name(I, s2, v))
                            else:
                                nxt.append((s2, [x for x in have if x != 0]))
                    cur = nxt
                    continue
                a, z = P[i]
                lits = [('ge', a), ('ge', z - 1)]
                name = 'block%d' % i if 'r' not in plan or plan.index('r') > i else 'block0' if i == plan.index('r') else 'block%d' % i
                for s, have in cur:
                    for s2, v in calls(I, E, 'add_block', [K(name), N(E.tab[t]), N(a), N(z)], lits, s, Config(peel=6)):
                        track(rep, s2)
                        if isinstance(v, Exc):
                            cases = [[]]
                            for j in have:
                                b, y = P[j]
                                cases = [c + [l] for c in cases for l in (('ge', b - a - z), ('ge', a - b - y))]
                            for c in cases:
                                must_not(rep, R2, s2, c, W, last_loc(s2, kinds=('raise',)), 'refuses a block that is apart from the %d others (%s)' % (len(have), exc_name(I, s2, v)))
                            if not exc_is(I, s2, v, err(I, 'OverlapModbusBlockError')):
                                for j in have:
                                    b, y = P[j]
                                    must_not(rep, R3, s2, [('ge', b + y - a - 1), ('ge', a + z - b - 1)], W, last_loc(s2, kinds=('raise',)),
                                             'an overlap raises %s instead of OverlapModbusBlockError' % exc_name(I, s2, v))
                            continue
                        for j in have:
                            b, y = P[j]
                            must_not(rep, R1, s2, [('ge', b + y - a - 1), ('ge', a + z - b - 1)], W, muts(s2), 'accepts a block that overlaps one of %d existing ones' % len(have))
                        nxt.append((s2, have + [i]))
                i += 1
                cur = nxt


def histories(I, rep):
    """short histories of one table: a addition, r removal of the first block, c removal of all, q request, g local read;
    blocks added after a removal take the freed name"""
    R1, R2 = 'history-cells', 'history-names'
    P = [(sym('start%d' % i), sym('size%d' % i)) for i in range(3)]
    X = sym('where')
    for t in TABLES:
        E = env(I, t)
        fc = FCREAD[t]
        lo, hi = (1, 2000) if fc < 3 else (1, 125)
        for plan in ('aqrq', 'aqraq', 'aaqrq', 'aqcaq', 'agrg', 'agrag', 'agcag'):
            W = 'history %s[%s]' % (plan, t)
            cur = [(E.empty.fork(), {})]
            i = 0
            for pos, step in enumerate(plan):
                nxt = []
                for s, have in cur:
                    if step == 'a':
                        a, z = P[i]
                        name = [x for x in ('b0', 'b1', 'b2') if x not in have][0]
                        for s2, v in calls(I, E, 'add_block', [K(name), N(E.tab[t]), N(a), N(z)], [('ge', a), ('ge', z - 1)], s, Config(peel=6)):
                            if not isinstance(v, Exc):
                                nxt.append((s2, dict(have, **{name: i})))
                    elif step in 'rc':
                        for s2, v in calls(I, E, *(('remove_block', [K('b0')]) if step == 'r' else ('remove_all_blocks', [])), lits=(), st=s, cfg=Config(peel=6)):
                            if isinstance(v, Exc):
                                must_not(rep, R2, s2, [], W, last_loc(s2), 'removing blocks raises %s' % exc_name(I, s2, v))
                            else:
                                nxt.append((s2, {} if step == 'c' else dict((k, x) for k, x in have.items() if k != 'b0')))
                    elif step == 'q':
                        pn = 'pdu%d' % pos
                        I.cfg = Config(peel=6)
                        ra, rq = fld(pn, Lin(1), 2, False, '>'), fld(pn, Lin(3), 2, False, '>')
                        x = s.fork()
                        for l in (('ge', rq - lo), ('ge', Lin(hi) - rq), ('ge', sym('len(%s)' % pn, 1, None, deps=frozenset([pn])) - 5)):
                            x = x.assume(l) if x is not None else None
                        keep = [(s, have)]
                        for s2, v2 in callm(I, x, E.slave, 'handle_request', [pdu_fc(fc, pn)]) if x is not None else ():
                            track(rep, s2)
                            o = SL.Out(E, fc, s2, v2)
                            if o.kind == 'normal':
                                cases = [[]]
                                for j in have.values():
                                    b, y = P[j]
                                    cases = [c + [l] for c in cases for l in (('ge', b - ra - 1), ('ge', ra + rq - b - y - 1))]
                                for c in cases:
                                    must_not(rep, R1, s2, c, W, last_loc(s2), 'a request is answered for cells that are in none of the %d blocks' % len(have))
                                if E.residue(s2, x):
                                    keep.append((E.after(s2).st, have))
                            elif o.kind == 'exception' and o.code == Lin(2):
                                for j in have.values():
                                    b, y = P[j]
                                    must_not(rep, R1, s2, [('ge', ra - b), ('ge', b + y - ra - rq)], W, o.loc(), 'a request for cells of a block is refused')
                            else:
                                must_not(rep, R1, s2, [], W, o.loc(), 'a complete legal request ends with %s' % o.label)
                        nxt += keep[:4]
                    else:
                        keep = [(s, have)]
                        for s2, v2 in calls(I, E, 'get_values', [K('b0'), N(X), N(ONE)], (), s, Config(peel=6)):
                            track(rep, s2)
                            j = have.get('b0')
                            if isinstance(v2, Exc):
                                if j is None:
                                    if not exc_is(I, s2, v2, err(I, 'MissingKeyError')):
                                        must_not(rep, R2, s2, [], W, last_loc(s2), 'an unknown name raises %s' % exc_name(I, s2, v2))
                                    continue
                                b, y = P[j]
                                must_not(rep, R2, s2, [('ge', X - b), ('ge', b + y - X - 1)], W, last_loc(s2), 'a cell of the named block is refused with %s' % exc_name(I, s2, v2))
                                continue
                            if j is None:
                                must_not(rep, R2, s2, [], W, last_loc(s2), 'a removed name is accepted')
                                continue
                            b, y = P[j]
                            for l in (('ge', b - X - 1), ('ge', X - b - y)):
                                must_not(rep, R2, s2, [l], W, last_loc(s2), 'a cell outside the named block is read')
                            if E.residue(s2, s):
                                keep.append((E.after(s2).st, have))
                        nxt += keep[:4]
                if step == 'a':
                    i += 1
                cur = nxt[:12]


def decide_free(know, E, t, s, lits):
    """as decide; the blocks that are not mentioned in the ground case do not exist"""
    return decide(know, s, lits)


def muts(s):
    return last_loc(s, kinds=('lmut', 'dmut'), default=last_loc(s))


def verdict(rep, rule, r, s, construct, msg, loc):
    if r == 'no':
        rep.ok(rule)
    elif r == '?':
        rep.und(rule, '%s: %s (%s)' % (construct, msg, vague(s) or 'no ground witness'))
    else:
        rep.bad(rule, construct, loc, msg, r[1])


# ------------------------------------------------------------------ C12
def value_list(st, tup=False, n=None):
    """an argument list of any length, with any values"""
    n = n if n is not None else sym('len(values)', 1, None)
    j = mkatom('bv', (0,), 0)
    seg = (('rep', j, n, (N(lin(mkatom('argval', (lin(j),), None, None))),)),)
    if tup:
        return Sq(seg, 'tuple'), n
    return st.new(ListO(seg), 'vals'), n


def argval(i):
    return lin(mkatom('argval', (i,), None, None))


def c12(I, rep):
    R1, R2, R3, R4 = 'inside', 'right-cells', 'refusal', 'same-size'
    for t in TABLES:
        E = env(I, t)
        if not ready(rep, R1, E, t):
            continue
        cells = E.fam[t]['cells']
        bound = lin(mkatom('bidx', (t, key_lin(NM)), 0, None, deps=frozenset(['blocks'])))
        start0, size0 = E.start(t, bound), E.size(t, bound)
        present = [dup_lit(E, t)]
        for op in ('get_values', 'get_values[default size]', 'set_values[list]', 'set_values[tuple]', 'set_values[number]'):
            st = E.st.fork()
            count = SZ
            if op == 'get_values':
                args, lits = [NM, N(ADDR), N(SZ)], [('ge', SZ)]
            elif op.startswith('get'):
                args, lits, count = [NM, N(ADDR)], [], ONE
            elif op.endswith('[number]'):
                args, lits, count = [NM, N(ADDR), N(argval(ZERO))], [], ONE
            else:
                v, count = value_list(st, 'tuple' in op)
                args, lits = [NM, N(ADDR), v], []
            for s, v in calls(I, E, op.split('[')[0], args, lits + present, st):
                track(rep, s)
                know = Know(E, sorted_state(I, t))
                inside = [('ge', ADDR - start0), ('ge', start0 + size0 - ADDR - count)]
                W = '%s[%s]' % (op, t)
                ws = [(e, l) for e, l in occ(s, ('wr',)) if E.table_of(e.d['obj'].oid)]
                rds = [(e, l) for e, l in occ(s, ('rd',)) if E.table_of(e.d['obj'].oid)]
                for e, l in ws:
                    if lin(e.d.get('resize') or 0) != ZERO:
                        rs = decide(know, s, list(l) + [('ne', lin(e.d['resize']))], [(t, bound)])
                        verdict(rep, R4, rs, s, W, 'changes the size of the block', e.loc)
                    else:
                        rep.ok(R4)
                ch, l2 = changed(E, t, s)
                if [c for c in ch if c != ('cells',)]:
                    must_not(rep, R4, s, [], W, l2 or last_loc(s), 'changes the blocks of the slave')
                if isinstance(v, Exc):
                    name = exc_name(I, s, v)
                    loc = last_loc(s, kinds=('raise',), default=last_loc(s))
                    verdict(rep, R3, decide(know, s, inside, [(t, bound)]), s, W,
                            'refuses an access inside the block (%s)' % name, loc)
                    if not exc_is(I, s, v, err(I, 'OutOfModbusBlockError')):
                        for out in ([('ge', start0 - ADDR - 1)], [('ge', ADDR + count - start0 - size0 - 1)]):
                            verdict(rep, R3, decide(know, s, out, [(t, bound)]), s, W,
                                    'an access outside the block raises %s instead of OutOfModbusBlockError' % name, loc)
                    for e, l in ws:
                        verdict(rep, R3, decide(know, s, list(l), [(t, bound)]), s, W,
                                'writes although it raises %s' % name, e.loc)
                    continue
                for out, what in (([('ge', start0 - ADDR - 1)], 'before'),
                                  ([('ge', ADDR + count - start0 - size0 - 1)], 'behind')):
                    verdict(rep, R1, decide(know, s, out, [(t, bound)]), s, W, 'accepts an access %s the block' % what,
                            last_loc(s, kinds=('wr', 'rd')))
                # exact cells and values
                for e, l in ws + (rds if op.startswith('set') and False else []):
                    b = e.d['obj'].idx[0] if len(e.d['obj'].idx) == 1 else None
                    if e.d['obj'].oid != cells or b is None:
                        rep.und(R2, '%s: writes another object' % W)
                        continue
                    verdict(rep, R2, decide(know, s, list(l) + inside + [('ne', E.start(t, b) - start0)], [(t, bound), (t, b)]), s, W,
                            'writes a block that is not the named one', e.loc)
                if op.startswith('set'):
                    written(rep, R2, E, t, s, W, ws, count, know, inside, bound)
                else:
                    returned(rep, R2, E, t, s, W, v, count, know, inside, bound)


def occ(s, kinds):
    out = []

    def walk(items, lits):
        for it in items:
            if it[0] == 'acc':
                out.append((it[1], lits))
            else:
                k = lin(it[1])
                for ls, b in it[3]:
                    walk(b, lits + [('ge', k), ('ge', it[2] - k - 1)] + [l for l in ls if l[0] != 'unk'])
    walk(SL.items_of(s.events(), kinds), [])
    return out


def written(rep, R, E, t, s, W, ws, count, know, inside, bound):
    f = s.facts.add_all(inside)
    if f is None:
        return
    items = SL.items_of(s.events(), ('wr',))
    if not ws:
        verdict(rep, R, decide(know, s, inside, [(t, bound)]), s, W, 'writes nothing', last_loc(s))
        return
    if len(ws) == 1 and not ws[0][1]:
        e = ws[0][0]
        b = e.d['obj'].idx[0]
        for a, g, msg in ((e.d['lo'], ADDR - E.start(t, b), 'writes at another address'), (e.d['n'], count, 'writes another number of cells')):
            if not f.entails_eq(a - g):
                d = decide(know, s, inside + [('ne', a - g)], [(t, bound), (t, b)])
                verdict(rep, R, d, s, W, msg, e.loc)
            else:
                rep.ok(R)
        v = e.d['value']
        if e.d.get('slice'):
            i = lin(mkatom('bv', ('gen', 'j'), 0))
            g = f.add_all([('ge', count - i - 1)])
            x = seq_elem(v, i, g) if isinstance(v, Sq) else None
            want = argval(i)
        else:
            x, g, want = v, f, argval(ZERO)
        x = num(x) if x is not None else None
        same(rep, R, s, g, x, want, W, e.loc, 'stores another value')
        return
    end = None
    bl = SL.blocks_of(items)
    if len(bl) == 1 and len(list(bl)[0]) == 1:
        b = list(bl)[0][0]
        st0 = ADDR - E.start(t, b)

        def visit(e, pos, g):
            if e.d.get('slice'):
                rep.und(R, '%s: several slice writes' % W)
                return
            x = num(e.d['value'])
            same(rep, R, s, g, x, argval(pos - st0), W, e.loc, 'stores another value')
        end = SL.cover(items, st0, f, visit)
    if end is not None and f.entails_eq(end - st0 - count):
        rep.ok(R)
    else:
        rep.und(R, '%s: writes not understood' % W)


def same(rep, R, s, g, x, want, W, loc, msg):
    if x is None:
        rep.und(R, '%s: value not tracked' % W)
        return
    if g is None or g.equal(x, want):
        rep.ok(R)
        return
    if vague(s) or lin_imp(x):
        rep.und(R, '%s: %s' % (W, vague(s) or 'value not tracked'))
        return
    if evalx.differs(g, x, want) is True:
        rep.bad(R, W, loc, msg, 'got %s, expected %s' % (str(x)[:120], str(want)[:120]))
    else:
        rep.und(R, '%s: %s not proved' % (W, msg))


def returned(rep, R, E, t, s, W, v, count, know, inside, bound):
    f = s.facts.add_all(inside)
    if f is None or decide(know, s, inside, [(t, bound)]) == 'no':
        return
    if isinstance(v, Ref) and s.has(v.oid) and s.get(v.oid).kind == 'list':
        v = Sq(s.get(v.oid).segs)
    if not isinstance(v, Sq):
        rep.und(R, '%s: result not tracked: %s' % (W, str(v)[:80]))
        return
    n = v.length()
    if not f.entails_eq(n - count):
        verdict(rep, R, decide(know, s, inside + [('ne', n - count)], [(t, bound)]), s, W,
                'returns another number of values', last_loc(s))
        return
    rep.ok(R)
    i = lin(mkatom('bv', ('gen', 'j'), 0))
    g = f.add_all([('ge', count - i - 1)])
    if g is None:
        return
    x = seq_elem(v, i, g)
    x = num(x) if x is not None else None
    if x is None:
        rep.und(R, '%s: returned value not tracked' % W)
        return
    ats = SL.cell_atoms(x, None)
    if len(ats) != 1 or x != lin(ats[0]):
        if vague(s) or lin_imp(x):
            rep.und(R, '%s: returned value %s' % (W, str(x)[:80]))
        else:
            r, w = refute(g)
            if r == 'yes':
                rep.bad(R, W, last_loc(s), 'returns something else than the stored values', str(x)[:120])
        return
    a = ats[0]
    b = a.args[1][0] if len(a.args[1]) == 1 else None
    if a.args[0] != E.fam[t]['cells'] or b is None:
        rep.und(R, '%s: returns data of another object' % W)
        return
    d = decide(know, s, inside + [('ge', count - i - 1), ('ne', E.start(t, b) + a.args[3] - ADDR - i)], [(t, bound), (t, b)])
    verdict(rep, R, d, s, W, 'returns the value of another cell', last_loc(s))
    d = decide(know, s, inside + [('ne', E.start(t, b) - E.start(t, bound))], [(t, bound), (t, b)])
    verdict(rep, R, d, s, W, 'returns values of another block', last_loc(s))


# ------------------------------------------------------------------ C13
def used(I, E, t, fc):
    """the slave as it is and as a request or a local access leaves it, when that leaves more than values"""
    out = [E.st]
    for s, v in E.handle(pdu_fc(fc, 'pre')):
        o = SL.Out(E, fc, s, v)
        if o.kind == 'normal' and E.residue(s) and not SL.contradictory(E, s):
            out.append(E.after(s).st)
    for op, args in (('get_values', [NM, N(sym('pre_address')), N(sym('pre_size'))]), ('set_values', [NM, N(sym('pre_address')), N(argval(ZERO))])):
        for s, v in calls(I, E, op, args, [dup_lit(E, t), ('ge', sym('pre_size') - 1)]):
            if not isinstance(v, Exc) and E.residue(s):
                out.append(E.after(s).st)
    return out[:8]


def c13(I, rep):
    R1, R2, R3, R4, R5 = 'name-available', 'cells-available', 'removed', 'others-untouched', 'unknown-name'
    histories(I, rep)
    for t in TABLES:
        E = env(I, t)
        if not ready(rep, R1, E, t):
            continue
        n = E.fam[t]['n']
        so = sorted_state(I, t)
        know = Know(E, so)
        fc = FCREAD[t]
        lo, hi = (1, 2000) if fc < 3 else (1, 125)
        ra, rq = SL.F(1), SL.F(3)
        read = lambda a, q: [('eq', ra - a), ('eq', rq - q), ('ge', rq - lo), ('ge', Lin(hi) - rq), ('ge', SL.PLEN - 5)]
        NAMES = E.fam[t]['names']
        # ---- addition
        for s, v in calls(I, E, 'add_block', [NM, N(E.tab[t]), N(ADDR), N(SZ)], [('ge', ADDR), ('ge', SZ - 1)]):
            track(rep, s)
            if isinstance(v, Exc):
                continue
            W = 'add_block[%s]' % t
            segs = table_list(I, E, t, s)
            m = members(E, t, segs) if segs is not None else None
            if m is None:
                rep.und(R4, '%s: block list not understood' % W)
            else:
                total = ZERO
                for x in m:
                    total = total + (x[2] if x[0] == 'old' else ZERO)
                if s.facts.entails_eq(total - n):
                    rep.ok(R4)
                else:
                    verdict(rep, R4, decide(know, s, [('ne', total - n)]), s, W, 'drops or repeats other blocks', muts(s))
            for s2, v2 in calls(I, E, 'get_values', [NM, N(ADDR), N(SZ)], (), s):
                if isinstance(v2, Exc):
                    verdict(rep, R1, decide(know, s2), s2, W,
                            'the block is not available by its name after its addition (get_values raises %s)'
                            % exc_name(I, s2, v2), muts(s))
                else:
                    rep.ok(R1)
            E1 = E
            I.cfg = Config()
            x = s.fork()
            for l in read(ADDR, SZ):
                x = x.assume(l) if x is not None else None
            if x is not None:
                for s2, v2 in callm(I, x, E.slave, 'handle_request', [pdu_fc(fc)]):
                    o = SL.Out(E, fc, s2, v2)
                    if o.kind in ('exception', 'raise', 'none'):
                        verdict(rep, R2, decide(know, s2), s2, W,
                                'a request for the cells of the new block ends with %s' % o.label, muts(s))
                    elif o.kind == 'normal':
                        rep.ok(R2)
        # ---- a name may be any key
        for name in (N(Lin(7)), Tup(K('a'), N(Lin(1)))):
            W = 'add_block[%s]' % t
            for s, v in calls(I, E, 'add_block', [name, N(E.tab[t]), N(ADDR), N(SZ)], [('ge', ADDR), ('ge', SZ - 1)], E.empty.fork()):
                if isinstance(v, Exc):
                    must_not(rep, R1, s, [], W, last_loc(s), 'refuses a name that is not a string (%s)' % exc_name(I, s, v))
                    continue
                for s2, v2 in calls(I, E, 'get_values', [name, N(ADDR), N(SZ)], (), s):
                    if isinstance(v2, Exc):
                        must_not(rep, R1, s2, [], W, muts(s), 'a block whose name is not a string is not available by its name (%s)' % exc_name(I, s2, v2))
                    else:
                        rep.ok(R1)
        # ---- removal
        bound = lin(mkatom('bidx', (t, key_lin(NM)), 0, None, deps=frozenset(['blocks'])))
        st0, sz0 = E.start(t, bound), E.size(t, bound)
        bases = used(I, E, t, fc)
        for op, args in (('remove_block', [NM]), ('remove_all_blocks', [])):
            W = '%s[%s]' % (op, t)
            for s, v in [x for b in bases for x in calls(I, E, op, args, [dup_lit(E, t)], b)]:
                track(rep, s)
                if isinstance(v, Exc):
                    verdict(rep, R3, decide(know, s, (), [(t, bound)]), s, W,
                            'removing an existing block raises %s' % exc_name(I, s, v), last_loc(s))
                    continue
                for s2, v2 in calls(I, E, 'get_values', [NM, N(ADDR), N(SZ)], [('ge', SZ - 1)], s):
                    if isinstance(v2, Exc) and exc_is(I, s2, v2, err(I, 'MissingKeyError')):
                        rep.ok(R3)
                    else:
                        verdict(rep, R3, decide(know, s2, (), [(t, bound)]), s2, W, 'the name is still there after the removal',
                                muts(s))
                I.cfg = Config()
                x = s.fork()
                for l in read(ADDR, SZ) + [('ge', ADDR - st0), ('ge', st0 + sz0 - ADDR - SZ)]:
                    x = x.assume(l) if x is not None else None
                for s2, v2 in callm(I, x, E.slave, 'handle_request', [pdu_fc(fc)]) if x is not None else ():
                    o = SL.Out(E, fc, s2, v2)
                    if o.kind == 'exception' and o.code == Lin(2):
                        rep.ok(R3)
                    elif o.kind in ('normal', 'other'):
                        verdict(rep, R3, decide(know, s2, (), [(t, bound)]), s2, W,
                                'the cells are still answered after the removal', muts(s))
                    else:
                        rep.und(R3, '%s: reading removed cells ends with %s' % (W, o.label))
                if op == 'remove_block':
                    segs = table_list(I, E, t, s)
                    m = members(E, t, segs) if segs is not None else None
                    if m is None or any(y[0] == 'new' for y in m):
                        rep.und(R4, '%s: block list not understood' % W)
                    else:
                        total = ZERO
                        for y in m:
                            total = total + y[2]
                        if s.facts.entails_eq(total - n + 1):
                            rep.ok(R4)
                        else:
                            verdict(rep, R4, decide(know, s, [('ne', total - n + 1)], [(t, bound)]), s, W,
                                    'does not remove exactly one block', muts(s))
                    ob, nb = E.st.get(NAMES.oid), s.get(NAMES.oid)
                    if nb.kind == 'dict' and ob.ver != nb.ver:
                        must_not(rep, R4, s, [], W, muts(s), 'removes other names')
                else:
                    # every table is empty and stays so when another one gets a block
                    for u in TABLES:
                        if u == t:
                            continue
                        for s3, v3 in calls(I, E, 'add_block', [T('newname2', (), 'str'), N(E.tab[u]), N(ADDR), N(SZ)], [('ge', ADDR), ('ge', SZ - 1)], s):
                            if isinstance(v3, Exc):
                                continue
                            I.cfg = Config()
                            x = s3.fork()
                            for l in read(ADDR, SZ):
                                x = x.assume(l) if x is not None else None
                            for s2, v2 in callm(I, x, E.slave, 'handle_request', [pdu_fc(fc)]) if x is not None else ():
                                o = SL.Out(E, fc, s2, v2)
                                if o.kind == 'exception' and o.code == Lin(2):
                                    rep.ok(R3)
                                elif o.kind == 'normal':
                                    verdict(rep, R3, decide(know, s2), s2, W, 'a block added to %s after it is found in %s' % (u, t), muts(s3))
                                else:
                                    rep.und(R3, '%s: reading an empty table ends with %s' % (W, o.label))
            for op2, args2 in (('get_values', [NM, N(ADDR), N(SZ)]), ('set_values', [NM, N(ADDR), N(argval(ZERO))]),
                               ('remove_block', [NM])):
                for s, v in calls(I, E, op2, args2, [neg(dup_lit(E, t))]):
                    track(rep, s)
                    W = '%s[%s]' % (op2, t)
                    if not isinstance(v, Exc):
                        must_not(rep, R5, s, [], W, last_loc(s), 'accepts an unknown name')
                    elif not exc_is(I, s, v, err(I, 'MissingKeyError')):
                        must_not(rep, R5, s, [], W, last_loc(s), 'an unknown name raises %s' % exc_name(I, s, v))
                    else:
                        rep.ok(R5)
                    ch, l2 = changed(E, t, s)
                    if ch:
                        must_not(rep, R5, s, [], W, l2 or last_loc(s), 'changes the blocks although the name is unknown')
