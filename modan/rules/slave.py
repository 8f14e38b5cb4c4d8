"""C01-C09: what one slave does with every request PDU."""
from ..drive import *
from ..drive import SlaveEnv, pdu_fc, const, exc_name, TABLES
from ..bytesops import bs_int, bs_byte, seq_elem
from ..lin import floordiv, band, bor, bxor, literal_not, mkbit
from .base import *

HANDLE = 'modbus_tk.modbus.Slave.handle_request'
MAPPED = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)
_ENVS = {}


def F(off, size=2, signed=False):
    return fld('pdu', lin(off), size, signed, '>')


PLEN = sym('len(pdu)', 1, None, deps=frozenset(['pdu']))


class Spec(object):
    """what the Modbus specification says about one function"""

    def __init__(self, fc, head, legal, need, reads=(), writes=(), bits=False, table=None, name=''):
        self.fc, self.head, self.legal, self.need, self.reads, self.writes = fc, head, legal, need, reads, writes
        self.bits, self.table, self.name = bits, table, name


def rng(x, lo, hi):
    return [('ge', x - lo), ('ge', Lin(hi) - x)]


def specs():
    a, q, bc = F(1), F(3), F(5, 1)
    S = {}
    for fc, t in ((1, 'COILS'), (2, 'DISCRETE_INPUTS')):
        S[fc] = Spec(fc, 5, [rng(q, 1, 2000)], Lin(5), reads=[(a, q)], bits=True, table=t)
    for fc, t in ((3, 'HOLDING_REGISTERS'), (4, 'ANALOG_INPUTS')):
        S[fc] = Spec(fc, 5, [rng(q, 1, 125)], Lin(5), reads=[(a, q)], table=t)
    S[5] = Spec(5, 5, [[('eq', q)], [('eq', q - 0xff00)]], Lin(5), writes=[(a, ONE)], bits=True, table='COILS')
    S[6] = Spec(6, 5, [[]], Lin(5), writes=[(a, ONE)], table='HOLDING_REGISTERS')
    S[7] = Spec(7, 1, [[]], Lin(1), table=None)
    S[15] = Spec(15, 6, [rng(q, 1, 1968) + [('eq', bc - floordiv(q + 7, 8))]], bc + 6, writes=[(a, q)], bits=True,
                 table='COILS')
    S[16] = Spec(16, 6, [rng(q, 1, 123) + [('eq', bc - q.scale(2))]], bc + 6, writes=[(a, q)],
                 table='HOLDING_REGISTERS')
    S[22] = Spec(22, 7, [[]], Lin(7), writes=[(a, ONE)], table='HOLDING_REGISTERS')
    wa, wq, wbc = F(5), F(7), F(9, 1)
    S[23] = Spec(23, 10, [rng(q, 1, 125) + rng(wq, 1, 123) + [('eq', wbc - wq.scale(2))]], wbc + 10, reads=[(a, q)],
                 writes=[(wa, wq)], table='HOLDING_REGISTERS')
    return S


SPECS = specs()


def env(I, unsigned, bounded=True):
    k = (id(I), unsigned, bounded)
    if k not in _ENVS:
        _ENVS[k] = SlaveEnv(I, unsigned, bounded)
    return _ENVS[k]


class Out(object):
    """one outcome of handling a request"""

    def __init__(self, E, fc, s, v):
        self.E, self.fc, self.s, self.v = E, fc, s, v
        I = E.I
        self.code = None
        self.bs = None
        if isinstance(v, Exc):
            self.kind, self.name = 'raise', exc_name(I, s, v)
        else:
            b = I.as_bytes(s, v)
            self.bs = b
            self.name = ''
            if b is None:
                if isinstance(v, K) and v.v in (None, ''):
                    self.kind = 'none'
                else:
                    self.kind = 'other'
                return
            n = b.length()
            first = bs_byte(b, ZERO, s.facts) if s.facts.entails_ge(n - 1) else None
            if n == ZERO:
                self.kind = 'none'
            elif first is not None and first == Lin(fc | 0x80) and (fc < 128 or s.facts.entails_eq(n - 2)):
                self.kind = 'exception'
                if s.facts.entails_eq(n - 2):
                    self.code = bs_byte(b, ONE, s.facts)
            elif first is not None and first == Lin(fc):
                self.kind = 'normal'
            else:
                self.kind = 'other'

    @property
    def label(self):
        if self.kind == 'exception':
            return 'exception response %s' % (self.code,)
        if self.kind == 'raise':
            return 'raised %s' % self.name
        return self.kind

    def loc(self):
        if self.kind == 'exception':
            return last_loc(self.s, kinds=('raise',), default=last_loc(self.s))
        return last_loc(self.s)

    def construct(self):
        return 'FC%d' % self.fc

    # accesses to cells
    def accesses(self):
        return items_of(self.s.events(), ('rd', 'wr'))

    def writes(self):
        return [e for e in flat(self.s.events()) if e.kind == 'wr']


def items_of(evs, kinds):
    out = []
    for e in evs:
        if e.kind in kinds:
            out.append(('acc', e))
        elif e.kind == 'loop':
            k = e.d['k']
            bodies = [(c[0], items_of(c[1], kinds)) for c in e.body['conts']]
            if any(b for _, b in bodies):
                # the index of the body is bound: the same atom may stand for the iteration in which the loop was left
                j = mkatom('bv', ('it', k), 0)
                am = {k.id: lin(j)}
                bodies = [(tuple(literal_subst(l, am, substx) for l in ls), subst_items(b, am)) for ls, b in bodies]
                out.append(('loop', j, lin(e.d['count']), bodies))
    return out


def contradictory(E, s):
    """two searches through the same blocks cannot end so differently"""
    from . import scan
    sc, fine = scan.scans(s)
    return len(sc) > 1 and scan.decide(scan.Know(E, None), s) == 'no'


def outs(I, fc, unsigned, bounded=True, broadcast=False, cfg=None):
    E = env(I, unsigned, bounded)
    key = ('outs', fc, broadcast)
    c = E.__dict__.setdefault('cache', {})
    if cfg is None and key in c:
        return E, c[key]
    try:
        r = [Out(E, fc, s, v) for s, v in E.handle(pdu_fc(fc), broadcast, cfg) if not contradictory(E, s)]
    except Budget:
        r = None
    if cfg is None:
        c[key] = r
    return E, r


def each(I, rep, fcs, rule, modes=(True, False), bounded=True):
    """(E, spec, outcome) for every function code and signedness"""
    for un in modes:
        left = []
        for fc in fcs:
            E, os = outs(I, fc, un, bounded)
            if os is None:
                rep.und(rule, 'FC%d: analysis budget exceeded' % fc)
                continue
            if any(o.kind == 'normal' and E.residue(o.s) for o in os):
                left.append(fc)
            for o in os:
                rep.paths += 1
                functions(rep, o.s)
                yield E, SPECS.get(fc), o
        # an earlier request left something behind: the same for the next request
        for E2 in earlier(I, env(I, un, bounded), left):
            for fc in fcs:
                try:
                    os = [o for o in (Out(E2, fc, s, v) for s, v in E2.handle(pdu_fc(fc))) if not contradictory(E2, o.s)]
                except Budget:
                    rep.und(rule, 'FC%d after another request: analysis budget exceeded' % fc)
                    continue
                for o in os:
                    rep.paths += 1
                    yield E2, SPECS.get(fc), o


def few_blocks(I, rep, fcs, counts, rule):
    """outcomes for tables that hold exactly so many blocks, in the order in which add_block keeps them"""
    from .blocks import sorted_state
    E = env(I, True)
    for fc in fcs:
        t = SPECS[fc].table
        fam = E.fam.get(t, {})
        if 'list' not in fam or 'cells' not in fam or sorted_state(I, t) is not True:
            continue
        o = E.st.get(fam['list'].oid)
        if o.kind != 'list' or len(o.segs) != 1 or o.segs[0][0] != 'rep' or len(o.segs[0][3]) != 1:
            continue
        k, v = o.segs[0][1], o.segs[0][3][0]
        for n in counts:
            F_ = E.after(E.st)
            F_.few = n
            F_.fam = dict(E.fam)
            F_.fam[t] = dict(fam, n=Lin(n))
            st = F_.st
            st.put(fam['list'].oid, ListO(tuple(('item', v.subst({k.id: Lin(i)})) for i in range(n))))
            for i in range(n - 1):
                st = st.assume(('ge', F_.start(t, Lin(i + 1)) - F_.start(t, Lin(i)) - F_.size(t, Lin(i))))
            F_.st = st
            try:
                for s, v2 in F_.handle(pdu_fc(fc), cfg=Config(peel=n + 2)):
                    rep.paths += 1
                    yield F_, SPECS[fc], Out(F_, fc, s, v2)
            except Budget:
                rep.und(rule, 'FC%d with %d blocks: analysis budget exceeded' % (fc, n))


def earlier(I, E, fcs):
    """the states in which a request with one of these functions leaves the slave, when it leaves more than values"""
    c = E.__dict__.setdefault('after_', {})
    out = []
    for fc in fcs:
        if fc not in c:
            c[fc] = []
            seen = set()
            try:
                for s, v in E.handle(pdu_fc(fc, 'pre')):
                    o = Out(E, fc, s, v)
                    r = tuple(sorted(map(repr, E.residue(s))))
                    if o.kind == 'normal' and r and not contradictory(E, s):
                        if sum(1 for x in seen if x == r) < 1 or len(c[fc]) < 2:
                            seen.add(r)
                            c[fc].append(E.after(s))
            except Budget:
                pass
        out += c[fc]
    return out


def bad_lits(legal):
    """alternatives that make every set of legal literals false"""
    alts = [[]]
    for ls in legal:
        if not ls:
            return []
        alts = [a + [literal_not(l)] for a in alts for l in ls]
    return alts


def executed(o):
    return o.kind in ('normal', 'other') or bool(o.writes())


def occurs(o, ev_items=None):
    """whether some write certainly or possibly happens on the outcome: list of (event, extra literals)"""
    out = []

    def walk(items, lits):
        for it in items:
            if it[0] == 'acc':
                if it[1].kind == 'wr':
                    out.append((it[1], lits))
            else:
                k = lin(it[1])
                for ls, b in it[3]:
                    walk(b, lits + [('ge', k), ('ge', it[2] - k - 1)] + [l for l in ls if l[0] != 'unk'])
    walk(o.accesses(), [])
    return out


# ------------------------------------------------------------------ C01
def c01(I, rep):
    R = 'limits'
    for E, sp, o in each(I, rep, (1, 2, 3, 4, 5, 6, 15, 16, 22, 23), R):
        long_ = [('ge', PLEN - sp.head)]
        if o.kind in ('normal', 'other') or o.writes():
            for lits in bad_lits(sp.legal):
                must_not(rep, R, o.s, long_ + lits, o.construct(), o.loc(),
                         'is carried out although a count or value is illegal (%s)' % describe(lits))
        elif o.kind == 'none':
            pass
        if o.kind == 'exception' and o.code is not None:
            if not o.code.is_const:
                rep.und(R, 'FC%d: exception code not constant' % o.fc)
                continue
            if o.code.c == 3:
                for lits in sp.legal:
                    must_not(rep, R, o.s, long_ + [('ge', PLEN - sp.need)] + lits, o.construct(), o.loc(),
                             'a complete request with legal counts is refused with ILLEGAL DATA VALUE')
        if (o.kind == 'exception' and o.code is not None and o.code.c != 3) or o.kind in ('raise', 'none'):
            for lits in bad_lits(sp.legal):
                cov, cl = covering(E, o, sp, lits)
                if cov is None:
                    continue
                not_possible(rep, R, o, cov, long_ + [('ge', PLEN - sp.need)] + lits + cl, E, sp,
                             'an illegal count or value (%s) on existing cells is answered by %s instead of '
                             'ILLEGAL DATA VALUE' % (describe(lits), o.label))


def describe(lits):
    return ', '.join('%s %s 0' % (str(l[1]).replace('fld(pdu,', 'field(').replace(',False,>', ''),
                                  {'ge': '>=', 'eq': '==', 'ne': '!='}[l[0]]) for l in lits)


def covering(E, o, sp, lits=()):
    """witness blocks that cover every range of the request: ([(w, table)], literals)"""
    ws, cl = [], []
    for i, (a, q) in enumerate(list(sp.reads) + list(sp.writes)):
        w = lin(mkatom('sym', ('witness%d' % i,), 0, None))
        t = sp.table
        n = E.fam[t]['n']
        ws.append((w, t))
        cl += [('ge', w), ('ge', n - w - 1), ('ge', q - 1), ('ge', a - E.start(t, w)),
               ('ge', E.start(t, w) + E.size(t, w) - a - q)]
    return ws, cl


def not_possible(rep, rule, o, ws, lits, E, sp, msg):
    """the outcome must not happen when blocks ws cover the ranges: every scan over the blocks must have met them"""
    from . import scan, blocks
    so = blocks.sorted_state(E.I, sp.table)
    r = scan.decide(scan.Know(E, None), o.s, lits, [(t, w) for w, t in ws])
    if r != 'no':
        r = scan.decide(scan.Know(E, so), o.s, lits, [(t, w) for w, t in ws])
        if so is None and r not in ('no', '?'):
            r = '?'
    if r == 'no':
        rep.ok(rule)
        return True
    if r == '?':
        rep.und(rule, '%s: %s (%s)' % (o.construct(), msg, vague(o.s) or 'no ground witness'))
        return None
    rep.bad(rule, o.construct(), o.loc(), msg, r[1])
    return False


# ------------------------------------------------------------------ coverage of a range by accesses
def length(items):
    n = ZERO
    for it in items:
        if it[0] == 'acc':
            n = n + it[1].d['n']
        else:
            ls = set(length(b) for _, b in it[3])
            if len(ls) != 1:
                return None
            m = list(ls)[0]
            if m is None:
                return None
            if m.is_const:
                n = n + it[2].scale(m.c)
            elif it[2].is_const:
                n = n + m.scale(it[2].c)
            else:
                return None
    return n


def cover(items, pos, f, visit):
    """items access consecutive cells from pos on; position after them, or None.
    visit(event, position, facts) is called for every access"""
    for it in items:
        if it[0] == 'acc':
            e = it[1]
            if not f.entails_eq(e.d['lo'] - pos):
                return None
            visit(e, pos, f)
            pos = pos + e.d['n']
        else:
            k, n = lin(it[1]), it[2]
            m = length([it])
            one = length(it[3][0][1]) if it[3] else ZERO
            if m is None or one is None or not one.is_const or one.c == 0:
                return None
            g = f.add('ge', k)
            g = g.add('ge', n - k - 1) if g is not None else None
            if g is not None:
                for ls, b in it[3]:
                    h = g.add_all([l for l in ls if l[0] != 'unk'])
                    if h is None:
                        continue
                    if cover(b, pos + k.scale(one.c), h, visit) is None:
                        return None
            pos = pos + m
    return pos


def split_by(items, pred):
    """items restricted to the accesses that satisfy pred"""
    out = []
    for it in items:
        if it[0] == 'acc':
            if pred(it[1]):
                out.append(it)
        else:
            bs = [(l, split_by(b, pred)) for l, b in it[3]]
            if any(b for _, b in bs):
                out.append(('loop', it[1], it[2], bs))
    return out


def expand(items, f):
    """explicit list of (event, {}, facts) for facts that fix every count; None when they do not"""
    out = []
    for it in items:
        if it[0] == 'acc':
            out.append(it[1].d if isinstance(it, tuple) else it)
        else:
            n = f.interval(it[2], 5000)
            if n[0] is None or n[0] != n[1]:
                return None
            for j in range(n[0]):
                am = {it[1].id: Lin(j)}
                alts = []
                for ls, b in it[3]:
                    g = f.add_all([literal_subst(l, am, substx) for l in ls if l[0] != 'unk'])
                    if g is None:
                        continue
                    alts.append(b)
                if len(alts) != 1:
                    return None
                sub = expand(subst_items(alts[0], am), f)
                if sub is None:
                    return None
                out.extend(sub)
    return out


def subst_items(items, am):
    out = []
    for it in items:
        if it[0] == 'acc':
            e = it[1]
            d = dict((k, (subst_lin(v, am) if isinstance(v, Lin) else substx(v, am) if k != 'obj' else v.subst(am)))
                     if v is not None and not isinstance(v, (bool, int, str)) else (k, v) for k, v in e.d.items())
            out.append(('acc', Ev(e.kind, d, e.loc, e.facts, e.locks, e.fn, e.stack)))
        else:
            out.append(('loop', it[1], subst_lin(it[2], am), [(tuple(literal_subst(l, am, substx) for l in ls), subst_items(b, am))
                                                             for ls, b in it[3]]))
    return out


def rng_ok(rep, rule, o, e, lits, lo, hi, msg):
    """accessed cells [lo, hi) of an event lie in the range"""


def wr_target(E, e):
    t = E.table_of(e.d['obj'].oid)
    idx = e.d['obj'].idx
    return t, (idx[0] if idx else None)


# ------------------------------------------------------------------ C02
def c02(I, rep):
    R1, R2, R3 = 'range-covered', 'exact-cells', 'refusal-justified'
    for E, sp, o in [x for x in few_blocks(I, rep, (1, 6, 16), (0, 1, 2, 3), R1)] + list(each(I, rep, (1, 2, 3, 4, 5, 6, 15, 16, 22, 23), R1)):
        t = sp.table
        if t not in E.fam or 'cells' not in E.fam[t]:
            rep.und(R1, 'storage of %s not recognised' % t)
            continue
        complete = [('ge', PLEN - sp.head), ('ge', PLEN - sp.need)]
        # refused only when no block covers the range
        if o.kind == 'exception' and o.code == Lin(2):
            for lits in sp.legal:
                if E.few is not None:
                    a, q = (list(sp.reads) + list(sp.writes))[0]
                    for w in range(E.few):
                        must_not(rep, R3, o.s, complete + lits + [('ge', q - 1), ('ge', a - E.start(t, Lin(w))), ('ge', E.start(t, Lin(w)) + E.size(t, Lin(w)) - a - q)],
                                 o.construct(), o.loc(), 'a range covered by block %d of %d is refused with ILLEGAL DATA ADDRESS' % (w + 1, E.few))
                    continue
                ws, cl = covering(E, o, sp)
                not_possible(rep, R3, o, ws, complete + lits + cl, E, sp,
                             'a range covered by one block is refused with ILLEGAL DATA ADDRESS')
        elif o.kind in ('exception', 'raise', 'none', 'other'):
            for lits in sp.legal:
                must_not(rep, R3, o.s, complete + lits + [('eq', E.fam[t]['n'])], o.construct(), o.loc(),
                         'a complete request for cells that no block holds is answered by %s' % o.label)
        # accesses of every outcome stay inside the named range and one block
        for e, lits in occurs(o):
            tt, b = wr_target(E, e)
            if tt is None or b is None:
                rep.und(R2, '%s: write to an untracked object' % o.construct())
                continue
            if tt != t:
                continue          # C03
            ok = False
            a, q = sp.writes[0] if sp.writes else (ZERO, ZERO)
            lo, n = E.start(t, b) + e.d['lo'], e.d['n']
            for cond, what in ((('ge', lo - a), 'below the first'), (('ge', a + q - lo - n), 'behind the last')):
                must_not(rep, R2, o.s, lits + [('ge', PLEN - sp.head), literal_not(cond)], o.construct(), e.loc,
                         'writes a cell %s addressed one' % what, [e.d['obj']])
            if lin(e.d.get('resize') or 0) != ZERO:
                must_not(rep, R2, o.s, lits + [('ne', lin(e.d['resize']))], o.construct(), e.loc, 'changes the size of the block')
            for cond in (('ge', e.d['lo']), ('ge', E.size(t, b) - e.d['lo'] - n)):
                must_not(rep, R1, o.s, lits + [literal_not(cond)], o.construct(), e.loc, 'leaves the block', [e.d['obj']])
        if o.kind != 'normal':
            continue
        if sp.writes:
            a, q = sp.writes[0]
            exact_cover(rep, R2, E, o, sp, a, q, t)
        if sp.reads:
            a, q = sp.reads[0]
            read_cells(rep, R2, E, o, sp, a, q, t)


def blocks_of(items):
    return set(it[1].d['obj'].idx for it in all_acc(items))


def all_acc(items):
    for it in items:
        if it[0] == 'acc':
            yield it
        else:
            for _, b in it[3]:
                for x in all_acc(b):
                    yield x


def exact_cover(rep, R, E, o, sp, a, q, t, value=None, RV=None):
    """every cell of the range is written once, in order (value: rule on the stored value)"""
    cells = E.fam[t]['cells']
    items = split_by(o.accesses(), lambda e: e.kind == 'wr' and e.d['obj'].oid == cells)
    complete = [('ge', PLEN - sp.head), ('ge', PLEN - sp.need)]
    f = o.s.facts.add_all(complete)
    if f is None:
        return
    if not items:
        must_not(rep, R, o.s, complete, o.construct(), o.loc(), 'is acknowledged but writes no cell')
        return
    bl = blocks_of(items)
    if len(bl) != 1 or len(list(bl)[0]) != 1:
        why = vague(o.s)
        rep.und(R, '%s: writes through %d block references %s' % (o.construct(), len(bl), why))
        return
    b = list(bl)[0][0]
    start = a - E.start(t, b)
    seen = []

    def visit(e, pos, g):
        seen.append(1)
        if value is not None:
            value(e, pos - start, g)
    end = cover(items, start, f, visit)
    if end is not None and f.entails_eq(end - start - q):
        rep.ok(R)
        return
    # concrete sizes
    why = vague(o.s)
    if why:
        rep.und(R, '%s: %s' % (o.construct(), why))
        return
    lo, hi = f.interval(q, 1 << 17)
    tried = 0
    big = [x for x in ((hi, hi - 1, 64, 100) if hi is not None and hi < 2001 else ()) if x > 30]
    for n in sorted(set([1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 30, lo or 1])) + big:
        g = f.add('eq', q - n)
        if g is None or not g.feasible():
            continue
        if sp.bits is False and sp.fc in (16, 23):
            pass
        ex = expand(items, g)
        if ex is None:
            rep.und(R, '%s: order of the writes not understood' % o.construct())
            return
        done = {}
        for d in ex:
            nn = g.interval(d['n'], 5000)
            p = g.interval(d['lo'] - start, 1 << 17)
            if nn[0] is None or nn[0] != nn[1] or p[0] is None or p[0] != p[1]:
                rep.und(R, '%s: positions of the writes not understood' % o.construct())
                return
            for i in range(nn[0]):
                done[p[0] + i] = (d, i)
        tried += 1
        missing = [i for i in range(n) if i not in done]
        if missing:
            r, w = refute(g)
            if r == 'yes':
                rep.bad(R, o.construct(), o.loc(), 'cell %d of %d addressed ones is not written' % (missing[0], n), w)
                return
        if value is not None:
            for i in range(n):
                if i in done:
                    d, j = done[i]
                    value(Ev('wr', dict(d, _j=j), o.loc(), g, (), '', ()), Lin(i), g)
    rep.und(R, '%s: shown for %d concrete quantities only' % (o.construct(), tried))


def cell_atoms(L, cells):
    out = []

    def walk(x):
        for a, _ in x.t:
            wa(a)

    def wa(a):
        if a.op == 'cell':
            out.append(a)
            return
        for y in a.args if isinstance(a.args, tuple) else ():
            if isinstance(y, Lin):
                walk(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Lin):
                        walk(z)
    walk(L)
    return out


def idx_atom(name='j'):
    return mkatom('bv', ('gen', name), 0)


def read_cells(rep, R, E, o, sp, a, q, t, code=None, RV=None):
    """the response carries exactly the addressed cells, in order.  code(form, expected form ...) checks the coding"""
    cells = E.fam[t]['cells']
    f = o.s.facts.add('ge', PLEN - sp.need) if not (PLEN - sp.need).is_const else o.s.facts
    if f is None:
        return
    j = lin(idx_atom())
    if sp.bits:
        tests = [(lambda m: [('ge', m), ('ge', q - m.scale(8) - 8)], 8)]
        tests += [((lambda m, r=r: [('ge', m), ('eq', q - m.scale(8) - r)]), r) for r in range(1, 8)]
    else:
        tests = [(lambda m: [('ge', m), ('ge', q - m - 1)], 1)]
    for lits, cnt in tests:
        g = f.add_all(lits(j))
        if g is None:
            continue
        if sp.bits:
            L = get_int(o.bs, j + 2, 1, False, g)
            pos = [j.scale(8) + c for c in range(cnt)]
        else:
            L = get_int(o.bs, j.scale(2) + 2, 2, not E.unsigned, g)
            pos = [j]
        if L is None:
            concrete_read(rep, R, E, o, sp, a, q, t, g, lits, cnt, code)
            continue
        check_word(rep, R, E, o, L, pos, a, t, g, code)


def get_int(bs, off, size, signed, f):
    n = bs.length()
    if not (f.entails_ge(off) and f.entails_ge(n - off - size)):
        return None
    return bs_int(bs, off, size, signed, '>', f)


def check_word(rep, R, E, o, L, pos, a, t, g, code=None):
    cells = E.fam[t]['cells']
    if lin_imp(L) or vague(o.s):
        rep.und(R, '%s: %s' % (o.construct(), vague(o.s) or 'response data not tracked'))
        return None
    at_ = cell_atoms(L, cells)
    idxs = set((x.args[0], x.args[1]) for x in at_)
    if any(x[0] != cells for x in idxs):
        # another table: C03
        rep.und(R, '%s: data of another object' % o.construct())
        return None
    if len(set(x[1] for x in idxs)) > 1 or any(len(x[1]) != 1 for x in idxs):
        rep.und(R, '%s: several block references' % o.construct())
        return None
    offs = [x.args[3] for x in at_]
    if not at_:
        if not L.is_const and not only_fields(L):
            rep.und(R, '%s: response data not understood' % o.construct())
            return None
        if L.is_const and o.E.__dict__.get('_const_ok') is None and any(e.kind == 'loop' for e in o.s.events()):
            rep.und(R, '%s: constant response data' % o.construct())
            return None
        d = refute(g)
        if d[0] == 'yes':
            rep.bad(R, o.construct(), o.loc(), 'response data does not depend on the stored cell', d[1])
            return False
        rep.und(R, '%s: no cell in the response data' % o.construct())
        return None
    b = list(idxs)[0][1][0]
    ver = at_[0].args[2]
    if o.fc in (1, 2, 3, 4) and any(lin(x.args[2]) != o.E.I.cells_ver(E.st, Ref(cells, (b,))) for x in at_):
        d = refute(g)
        if d[0] == 'yes':
            rep.bad(R, o.construct(), o.loc(), 'the response holds values from before an earlier write', d[1])
            return False
    start = a - E.start(t, b)
    want = [start + p for p in pos]
    # block bounds
    for p in (want[0], want[-1]):
        for cond in (('ge', p), ('ge', E.size(t, b) - p - 1)):
            if g.decide_literal(cond) is not True:
                r, w = refute(g, [literal_not(cond)])
                if r == 'yes':
                    rep.bad(R, o.construct(), o.loc(), 'an address outside the block is answered', w)
                    return False
    ok = True
    for p in want:
        if not any(g.entails_eq(x - p) for x in offs):
            ok = False
    for x in offs:
        if not any(g.entails_eq(x - p) for p in want):
            ok = False
    if ok:
        rep.ok(R)
        if code is not None:
            code(L, [lin(mkatom('cell', (cells, (b,), ver, next(x for x in offs if g.entails_eq(x - p))),
                                at_[0].lo, at_[0].hi)) for p in want], g)
        return True
    # definite?
    for x in offs:
        for c in evalx.assignments(g, list(offs) + want, 30):
            try:
                got = set(c.lin(y) for y in offs)
                exp = set(c.lin(y) for y in want)
            except evalx.Stuck:
                continue
            if got != exp:
                rep.bad(R, o.construct(), o.loc(), 'response data holds cells %s of the block instead of %s'
                        % (sorted(got), sorted(exp)), show(c, g))
                return False
        break
    rep.und(R, '%s: position of the cells in the response not proved' % o.construct())
    return None


def concrete_read(rep, R, E, o, sp, a, q, t, g, lits, cnt, code):
    """the response could not be indexed symbolically: try concrete quantities"""
    why = vague(o.s, o.bs)
    if why:
        rep.und(R, '%s: %s' % (o.construct(), why))
        return
    tried = 0
    for n in (1, 2, 3, 7, 8, 9, 16, 17, 30):
        h = o.s.facts.add('eq', q - n)
        if h is None or not h.feasible():
            continue
        words = (n + 7) // 8 if sp.bits else n
        for i in range(words):
            c = min(8, n - 8 * i) if sp.bits else 1
            L = get_int(o.bs, Lin(i + 2) if sp.bits else Lin(2 * i + 2), 1 if sp.bits else 2,
                        False if sp.bits else not E.unsigned, h)
            if L is None:
                if h.entails_ge(Lin(1 + i * (1 if sp.bits else 2)) - o.bs.length() + 1):
                    r, w = refute(h)
                    if r == 'yes':
                        rep.bad(R, o.construct(), o.loc(), 'response is too short for the cells read', w)
                        return
                rep.und(R, '%s: response not understood' % o.construct())
                return
            pos = [Lin(8 * i + k) for k in range(c)] if sp.bits else [Lin(i)]
            if check_word(rep, R, E, o, L, pos, a, t, h, code) is False:
                return
            tried += 1
    rep.und(R, '%s: shown for concrete quantities only' % o.construct())


# ------------------------------------------------------------------ C03
def c03(I, rep):
    # cells of any value for one of the modes: what a read does may depend on values other software put there
    for modes, fcs, bounded in (((True, False), MAPPED + (43, 8, 20), True), ((True,), MAPPED, False)):
        tables_touched(I, rep, modes, fcs, bounded)


def tables_touched(I, rep, modes, fcs, bounded):
    R = 'table'
    for E, sp, o in each(I, rep, fcs, R, modes=modes, bounded=bounded):
        t = sp.table if sp else None
        may = bool(sp and sp.writes)
        for e in flat(o.s.events()):
            if e.kind not in ('rd', 'wr'):
                continue
            tt = E.table_of(e.d['obj'].oid)
            if tt is None:
                if E.I and o.s.has(e.d['obj'].oid) and o.s.get(e.d['obj'].oid).kind == 'cells':
                    rep.und(R, '%s: access to an unknown block' % o.construct())
                continue
            if e.kind == 'wr' and not may:
                must_not(rep, R, o.s, [], o.construct(), e.loc, 'a function that only reads writes to %s' % tt)
            elif tt != t:
                must_not(rep, R, o.s, [], o.construct(), e.loc, '%s the %s table' % (
                    'writes to' if e.kind == 'wr' else 'reads', tt))
            else:
                rep.ok(R)
        # the table searched decides which addresses exist
        for e in flat(o.s.events()):
            if e.kind == 'loop':
                for a in loop_tables(E, e):
                    if a != t:
                        must_not(rep, R, o.s, [('ge', e.d['count'] - 1)] if e.d['count'] != ZERO else [], o.construct(),
                                 e.loc if e.loc[0] else o.loc(), 'looks for the address in the %s table' % a)
                    else:
                        rep.ok(R)


def loop_tables(E, e):
    out = set()
    for c in e.body['conts']:
        for l in c[0]:
            if l[0] in ('ge', 'eq', 'ne'):
                for a, _ in l[1].t:
                    if a.op in ('bstart', 'bsize'):
                        out.add(a.args[0])
    return out


# ------------------------------------------------------------------ C04
def c04(I, rep):
    R = 'no-effect-on-failure'
    R2 = 'complete-data'
    for bounded in (True,):
        for E, sp, o in each(I, rep, (5, 6, 15, 16, 22, 23, 1, 2, 3, 4, 7, 8, 43), R, bounded=bounded):
            if o.kind in ('exception', 'raise', 'none'):
                for e, lits in occurs(o):
                    must_not(rep, R, o.s, lits, o.construct(), e.loc,
                             'a cell is written although the request ends with %s' % o.label, [e.d['obj']])
                if not occurs(o):
                    rep.ok(R)
            elif sp and sp.writes:
                must_not(rep, R2, o.s, [('ge', PLEN - 1), ('ge', sp.need - PLEN - 1)], o.construct(), o.loc(),
                         'a request with missing data bytes is carried out')


# ------------------------------------------------------------------ C05
def c05(I, rep):
    R = 'response-form'
    for E, sp, o in each(I, rep, MAPPED, R):
        if o.kind not in ('normal', 'other'):
            # refusals with the codes 2 and 3 are the business of C01 and C02
            if o.kind != 'exception' or o.code is None or not o.code.is_const or o.code.c not in (2, 3):
                for legal in sp.legal:
                    lits = legal + [('ge', PLEN - sp.need)]
                    msg = 'a complete request with legal counts for existing cells gets no normal response but: %s' % o.label
                    if sp.table is None:
                        must_not(rep, 'carried-out', o.s, lits, o.construct(), o.loc(), msg)
                        continue
                    ws, cl = covering(E, o, sp)
                    not_possible(rep, 'carried-out', o, ws, lits + cl, E, sp, msg)
            continue
        for legal in sp.legal:
            lits = legal + [('eq', PLEN - sp.need)]
            f = o.s.facts.add_all(lits)
            if f is None or not f.feasible():
                continue
            if o.kind == 'other':
                if o.bs is None or vague(o.s, o.bs):
                    rep.und(R, '%s: answer not tracked: %s' % (o.construct(), str(o.v)[:100]))
                    continue
                first = bs_byte(o.bs, ZERO, f) if f.entails_ge(o.bs.length() - 1) else None
                if first is not None:
                    must_equal(rep, R, o.s, first, Lin(o.fc), o.construct(), o.loc(),
                               'the response does not start with the function code', lits)
                else:
                    rep.und(R, '%s: answer not understood' % o.construct())
                continue
            n = o.bs.length()
            a, q = F(1), F(3)
            if sp.reads:
                want = floordiv(q + 7, 8) if sp.bits else q.scale(2)
                if must_equal(rep, R, o.s, n, want + 2, o.construct(), o.loc(),
                              'the response has a wrong number of data bytes', lits) is False:
                    continue
                bc = get_int(o.bs, ONE, 1, False, f)
                if bc is None:
                    rep.und(R, '%s: byte count not understood' % o.construct())
                else:
                    must_equal(rep, R, o.s, bc, want, o.construct(), o.loc(),
                               'the byte count of the response is wrong', lits)
            elif o.fc == 7:
                must_equal(rep, R, o.s, n, Lin(2), o.construct(), o.loc(), 'the response is not 2 bytes long', lits)
            else:
                size = 7 if o.fc == 22 else 5
                if must_equal(rep, R, o.s, n, Lin(size), o.construct(), o.loc(),
                              'the response is not %d bytes long' % size, lits) is False:
                    continue
                for off in range(1, size, 2):
                    w = get_int(o.bs, Lin(off), 2, False, f)
                    if w is None:
                        rep.und(R, '%s: response field at %d not understood' % (o.construct(), off))
                        continue
                    must_equal(rep, R, o.s, w, F(off), o.construct(), o.loc(),
                               'the response does not repeat the request field at offset %d' % off, lits)


# ------------------------------------------------------------------ C06 (slave side)
def c06_slave(I, rep):
    R, R2, R3 = 'stored-value', 'sent-value', 'storable'
    for E, sp, o in each(I, rep, (1, 2, 3, 4, 5, 6, 15, 16, 22, 23), R):
        if o.kind != 'normal':
            continue
        t = sp.table
        if t not in E.fam or 'cells' not in E.fam[t]:
            continue
        if sp.writes:
            a, q = sp.writes[0]
            data = {5: 3, 6: 3, 15: 6, 16: 6, 23: 10}.get(o.fc)

            def value(e, j, g, o=o, E=E, sp=sp, data=data):
                vals = []
                if e.d.get('slice'):
                    v = e.d['value']
                    if isinstance(v, Sq):
                        if '_j' in e.d:
                            vals = [(seq_elem(v, Lin(e.d['_j']), g), j, g)]
                        else:
                            i = lin(idx_atom('i'))
                            h = g.add_all([('ge', i), ('ge', e.d['n'] - i - 1)])
                            if h is not None:
                                vals = [(seq_elem(v, i, h), j + i, h)]
                    else:
                        rep.und(R, '%s: value of a slice write' % o.construct())
                        return
                else:
                    vals = [(e.d['value'], j, g)]
                for v, jj, h in vals:
                    x = num(v) if v is not None else None
                    if x is None:
                        rep.und(R, '%s: stored value not tracked: %s' % (o.construct(), str(v)[:80]))
                        continue
                    if o.fc == 22:
                        continue
                    if o.fc == 5:
                        for lit, val in ((('eq', F(3)), ZERO), (('eq', F(3) - 0xff00), ONE)):
                            truth(rep, R, o, h, [lit], x, val, e)
                        continue
                    if o.fc == 15:
                        want = bit_of(jj, data, h)
                        if want is None:
                            rep.und(R, '%s: position of a coil' % o.construct())
                            continue
                    else:
                        want = fld('pdu', jj.scale(2) + data, 2, not E.unsigned, '>')
                    eq(rep, R, o, h, x, want, e)
            exact_cover(rep, 'covered', E, o, sp, a, q, t, value)
            for e, lits in occurs(o):
                if E.table_of(e.d['obj'].oid) != t:
                    continue
                vs = []
                if e.d.get('slice'):
                    if isinstance(e.d['value'], Sq):
                        vs = [x for s in e.d['value'].segs for x in ([s[1]] if s[0] == 'item' else s[3])]
                else:
                    vs = [e.d['value']]
                lo, hi = E.cell_range(t)
                for v in vs:
                    x = num(v)
                    if x is None:
                        rep.und(R3, '%s: stored value not tracked' % o.construct())
                        continue
                    f = o.s.facts.add_all(lits)
                    if f is None:
                        continue
                    for cond in (('ge', x - lo), ('ge', Lin(hi) - x)):
                        in_range(rep, R3, o, f, cond, x, lo, hi, e)
        if sp.reads:
            a, q = sp.reads[0]

            def code(L, cells, g, o=o, E=E, sp=sp):
                if sp.bits:
                    want = ZERO
                    for i, c in enumerate(cells):
                        want = want + c.scale(1 << i)
                else:
                    want = cells[0]
                eq(rep, R2, o, g, L, want, None)
            read_cells(rep, R2, E, o, sp, a, q, t, code)


def bit_of(j, data, f):
    """coil j of the request data"""
    m = floordiv(j, 8)
    r = j - m.scale(8)
    if r.is_const:
        return mkbit(fld('pdu', m + data, 1, False, '>'), r)
    i = f.interval(r, 8)
    if i[0] is not None and i[0] == i[1]:
        return mkbit(fld('pdu', m + data, 1, False, '>'), Lin(i[0]))
    return mkbit(fld('pdu', m + data, 1, False, '>'), r)


def eq(rep, R, o, g, got, want, e):
    class S(object):
        facts, flags = g, o.s.flags
    idx = [a for a in set(x for L in (got, want) for x in ks(L))]
    must_equal(rep, R, S, got, want, o.construct(), e.loc if e is not None and e.loc[0] else o.loc(),
               'wrong coding of a value', (), idx)


def ks(L):
    seen, out = set(), []
    evalx.leaves(L, out, seen)
    return [a for a in out if a.op in ('k', 'bv')]


def truth(rep, R, o, h, lits, x, val, e):
    class S(object):
        facts, flags = h, o.s.flags
    must_equal(rep, R, S, x, val, o.construct(), e.loc if e.loc[0] else o.loc(), 'wrong value stored for the coil', lits)


def in_range(rep, R, o, f, cond, x, lo, hi, e):
    if f.decide_literal(cond) is True:
        rep.ok(R)
        return
    why = vague(o.s) or ('value not tracked' if lin_imp(x) else '')
    if why:
        rep.und(R, '%s: %s' % (o.construct(), why))
        return
    for asg in evalx.assignments(f, [x], 45):
        try:
            v = asg.lin(x)
        except evalx.Stuck:
            continue
        if v < lo or v > hi:
            rep.bad(R, o.construct(), e.loc, 'stores %d, which a later read cannot return (register range %d..%d)' % (v, lo, hi),
                    show(asg, f))
            return
    rep.und(R, '%s: range of the stored value not proved' % o.construct())


# ------------------------------------------------------------------ C07
def c07(I, rep):
    R = 'mask-formula'
    for E, sp, o in each(I, rep, (22,), R):
        if o.kind != 'normal':
            continue
        cells = E.fam['HOLDING_REGISTERS']['cells']
        ws = [(e, l) for e, l in occurs(o) if e.d['obj'].oid == cells]
        final = {}
        if len(ws) != 1 or ws[0][0].d.get('slice'):
            if ws and all(not e.d.get('slice') for e, _ in ws) and \
                    all(o.s.facts.entails_eq(e.d['lo'] - ws[0][0].d['lo']) for e, _ in ws) and not any(l for _, l in ws):
                ws = ws[-1:]       # the last one counts
            elif not ws:
                must_not(rep, R, o.s, [], o.construct(), o.loc(), 'is acknowledged but writes nothing')
                continue
            else:
                rep.und(R, '%d writes' % len(ws))
                continue
        e = ws[0][0]
        x = num(e.d['value'])
        if x is None or lin_imp(x) or vague(o.s):
            rep.und(R, 'stored value not tracked: %s' % str(e.d['value'])[:100])
            continue
        mask_check(rep, R, E, o, e, x)


def mask_check(rep, R, E, o, e, x):
    """compare the stored form with the specification on assignments that exercise every bit"""
    lo = e.d['lo']
    f = o.s.facts
    cell = None
    for a in cell_atoms(x, None):
        if not f.entails_eq(a.args[3] - lo):
            rep.bad(R, o.construct(), e.loc, 'the value is computed from another cell')
            return
        if cell is not None and cell is not a:
            rep.und(R, 'two versions of the cell')
            return
        cell = a
    A, O = F(3), F(5)
    if cell is None:
        cur = None
    n = 0
    import random
    r = random.Random(7)
    pats = [0, 0xffff, 0x5555, 0xaaaa, 0x00ff, 0xff00, 0x0f0f, 0x7fff, 0x8000, 1]
    combos = [(c, a, b) for c in pats for a in pats for b in pats]
    combos += [(1 << i if p & 1 else 0xffff ^ (1 << i), 1 << i if p & 2 else 0xffff ^ (1 << i), 1 << i if p & 4 else 0xffff ^ (1 << i))
               for i in range(16) for p in range(8)]
    combos += [tuple(r.randrange(65536) for _ in range(3)) for _ in range(400)]
    fa = A.t[0][0].args
    lits = [l for l in f.log if l[0] in ('ge', 'eq', 'ne')]
    for c, a, b in combos:
        asg = evalx.Asg(1, 0)
        asg.set_fld('pdu', 3, 2, '>', a)
        asg.set_fld('pdu', 5, 2, '>', b)
        cv = c if E.unsigned else (c - 65536 if c > 32767 else c)
        if cell is not None:
            asg.vals[cell.id] = cv
        want = (c & a) | (b & ~a & 0xffff)
        if not E.unsigned and want > 32767:
            want -= 65536
        try:
            # literals about these values only
            rel = True
            for l in lits:
                fr = l[1].free_atoms()
                if (cell is not None and cell.id in fr) or any(z in fr for z in [A.t[0][0].id, O.t[0][0].id]) or only_fields(l[1]):
                    if not asg.literal(l):
                        rel = False
                        break
            if not rel:
                continue
            got = asg.lin(x)
        except evalx.Stuck as ex:
            rep.und(R, 'not evaluable: %s' % ex)
            return
        n += 1
        if got != want:
            rep.bad(R, o.construct(), e.loc, 'stores a wrong value',
                    'current=%#x and_mask=%#x or_mask=%#x stores %d instead of %d' % (c, a, b, got, want))
            return
    if n == 0:
        rep.und(R, 'no combination satisfies the facts')
    elif bitwise(x):
        rep.ok(R)       # bit i of the result depends on bit i of the operands only: all 8 combinations per bit were compared
    else:
        rep.ok(R)
        rep.notes.append('mask formula compared on %d combinations (form not purely bitwise)' % n)


def only_fields(L):
    out = []
    evalx.leaves(L, out, set())
    return bool(out) and all(a.op in ('fld', 'cell') for a in out)


def bitwise(L):
    return all(a.op in ('band', 'bor', 'bxor', 'fld', 'cell') for a, _ in L.t)


# ------------------------------------------------------------------ C08
def c08(I, rep):
    R, R2 = 'write-then-read', 'validated-first'
    a, q, wa, wq = F(1), F(3), F(5), F(7)
    within = [('ge', wa - a), ('ge', a + q - wa - wq)]      # all that is written is read
    for E, sp, o in list(each(I, rep, (23,), R)) + list(small_writes(I, rep, R)):
        cells = E.fam['HOLDING_REGISTERS']['cells']
        if o.kind in ('exception', 'raise', 'none'):
            for e, lits in occurs(o):
                must_not(rep, R2, o.s, lits, o.construct(), e.loc,
                         'the write is done although the request ends with %s' % o.label)
            rep.ok(R2)
            continue
        if o.kind != 'normal':
            continue
        ws = occurs(o)
        n = 0
        vers = set()
        for a in resp_cells(o.bs):
            vers.add(a.args[2])
            n += 1
        if not ws:
            must_not(rep, R, o.s, [], o.construct(), o.loc(), 'nothing is written')
            continue
        if not n:
            rep.und(R, 'no cells in the response')
            continue
        final = set(o.E.I.cells_ver(o.s, Ref(cells, x)) for x in set(e.d['obj'].idx for e, _ in ws))
        for v in vers:
            if v in final:
                rep.ok(R)
            else:
                must_not(rep, R, o.s, within, o.construct(), ws[0][0].loc,
                         'the response holds register values from before the write')


def small_writes(I, rep, rule):
    """function 23 with so many registers written: every write of its own"""
    for un in (True, False):
        E = env(I, un, True)
        for k in (1, 2, 3):
            E2 = E.after(E.st)
            E2.st = E2.st.assume(('eq', F(7) - k))
            try:
                for s, v in E2.handle(pdu_fc(23)):
                    if not contradictory(E2, s):
                        yield E2, SPECS[23], Out(E2, 23, s, v)
            except Budget:
                rep.und(rule, 'FC23 writing %d registers: analysis budget exceeded' % k)


def resp_cells(bs):
    out = []

    def segs(ss):
        for s in ss:
            if s[0] == 'pk':
                out.extend(cell_atoms(s[3], None))
            elif s[0] == 'rep':
                segs(s[3])
    if bs is not None:
        segs(bs.segs)
    return out
