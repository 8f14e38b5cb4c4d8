"""Drivers: build generic ("aged") objects from the real constructors and mutators and interpret public entry points."""
from .lin import Lin, lin, mkatom, sym, fresh, Facts, subst_lin, ZERO, ONE
from .values import *
from .values import substx, freex, depsx
from .state import *
from .state import PH, at_idx
from .interp import Interp, Frame, Config, Budget
from .loops import state_diff


class Missing(Exception):
    """a public entry point the property talks about does not exist any more"""


def top(I, mod='modbus_tk.modbus'):
    return Frame('M:' + mod, None, mod, None, None, 0, '<driver>', '<driver>')


def need(I, mod, name):
    v = I.glob(mod, name)
    if v is None:
        raise Missing('%s.%s' % (mod, name))
    return v


def call(I, st, f, args=(), kw=None, mod='modbus_tk.modbus'):
    return I.call(st, f, list(args), dict(kw or {}), top(I, mod), None)


def callm(I, st, obj, name, args=(), kw=None):
    fr = top(I)
    out = []
    for s, m in I.getattr_(st, obj, name, fr, None):
        if isinstance(m, Exc):
            out.append((s, m))
        else:
            out.extend(I.call(s, m, list(args), dict(kw or {}), fr, None))
    return out


def has_method(I, st, obj, name):
    c = I.class_of(st, obj)
    return c is not None and I.class_attr(st, c, name) is not None


def only(outs, what):
    ok = [(s, v) for s, v in outs if not isinstance(v, Exc)]
    if len(ok) != 1:
        raise Missing('%s has %d normal outcomes' % (what, len(ok)))
    return ok[0]


def const(I, name, mod='modbus_tk.defines'):
    v = I.glob(mod, name)
    n = num(v) if v is not None else None
    if n is None or not n.is_const:
        raise Missing('%s.%s' % (mod, name))
    return n.c


def exc_name(I, st, v):
    """class name of an exception value"""
    if isinstance(v, Exc):
        v = v.v
    c = I.class_of(st, v)
    return st.get(c.oid).name if c is not None else '?'


def exc_is(I, st, v, cls):
    if isinstance(v, Exc):
        v = v.v
    return I.exc_match(st, v, cls) == 'yes'


# ------------------------------------------------------------------ slaves
TABLES = ('COILS', 'DISCRETE_INPUTS', 'HOLDING_REGISTERS', 'ANALOG_INPUTS')


class SlaveEnv(object):
    """a slave holding any number of blocks of any size in every table"""

    def __init__(self, I, unsigned=True, bounded=True, tables=TABLES, names=None, bank=False):
        self.I, self.unsigned = I, unsigned
        self.few = None         # number of blocks per table, when it is fixed
        self.tab = dict((t, const(I, t)) for t in TABLES)
        self.fam = {}            # table -> dict(list=Ref, n=Lin, blk=oid, cells=oid, start=fn, size=fn)
        self.bounded = bounded
        st = I.new_state()
        self.sid = sym('slave_id', 1, 255)
        self.bank = None
        if bank:
            st, self.bank = only(call(I, st, need(I, 'modbus_tk.modbus', 'Databank'), []), 'Databank()')
            outs = [(s, v) for s, v in callm(I, st, self.bank, 'add_slave', [N(self.sid), K(bool(unsigned))])
                    if not isinstance(v, Exc)]
            if len(outs) != 1 or not isinstance(outs[0][1], Ref):
                raise Missing('Databank.add_slave')
            st, self.slave = outs[0]
        else:
            st, self.slave = only(call(I, st, need(I, 'modbus_tk.modbus', 'Slave'), [N(self.sid), K(bool(unsigned))]), 'Slave()')
        self.empty = st
        self.notes = []
        for t in tables:
            st = self.age(st, t, names in (None, t) and names is not None)
        st.trace, st.ntrace = None, 0
        self.st = st

    def age(self, st, t, names):
        I = self.I
        bt = self.tab[t]
        S, Z = sym('new_start'), sym('new_size')
        NAME = T('newname', (), 'str')
        outs = callm(I, st, self.slave, 'add_block', [NAME, N(bt), N(S), N(Z)])
        ok = [(s, v) for s, v in outs if not isinstance(v, Exc)]
        if not ok:
            raise Missing('add_block never succeeds for %s' % t)
        if len(ok) > 1:
            self.notes.append('add_block on an empty table has %d success partitions' % len(ok))
        s, _ = ok[0]
        slo, shi = s.facts.interval(S)
        zlo, zhi = s.facts.interval(Z)
        ph = lin(PH[0])
        start = lin(mkatom('bstart', (t, ph), slo, shi, deps=frozenset(['blocks'])))
        size = lin(mkatom('bsize', (t, ph), zlo, zhi, deps=frozenset(['blocks'])))
        n = sym('nblocks(%s)' % t, 0)
        amap = {S.t[0][0].id: start, Z.t[0][0].id: size}
        out = st.fork()
        fam = {'n': n, 'start': (t, slo, shi), 'size': (t, zlo, zhi)}
        # new objects that describe the block
        new = [oid for oid in s.heap if not st.has(oid)]
        reach = []

        def refs(x):
            if isinstance(x, Ref):
                yield x
            elif isinstance(x, dict):
                for v in x.values():
                    for r in refs(v):
                        yield r
            elif isinstance(x, (tuple, list)):
                for v in x:
                    for r in refs(v):
                        yield r
            elif isinstance(x, Sq):
                for r in refs(x.segs):
                    yield r
            elif isinstance(x, BM):
                for r in refs(x.recv):
                    yield r

        changed = state_diff(st, s)
        todo = []

        def gather(x):
            for r in refs(x):
                if r.oid in new and r.oid not in reach:
                    reach.append(r.oid)
                    todo.append(r.oid)
        for c in changed:
            o = s.get(c[1]) if c[0] in ('v', 'a', 'o') else None
            if o is None:
                continue
            for f in o.F:
                gather(getattr(o, f))
        while todo:
            o = s.get(todo.pop())
            for f in o.F:
                gather(getattr(o, f))
        kat = mkatom('bv', (0,), 0)

        def fams(x, idx):
            """x with references to the block's objects turned into family references"""
            if isinstance(x, Ref):
                return Ref(x.oid, (idx,)) if x.oid in reach else x
            if isinstance(x, BM):
                return BM(fams(x.recv, idx), x.fn)
            if isinstance(x, Sq):
                return Sq(tuple(fams(y, idx) if not isinstance(y, (Lin, str)) else y for y in x.segs), x.kind)
            if isinstance(x, tuple):
                return tuple(fams(y, idx) if isinstance(y, (V, tuple)) else y for y in x)
            if isinstance(x, dict):
                return dict((k, fams(y, idx)) for k, y in x.items())
            return x

        def gen(x, idx):
            x = fams(x, idx)
            m = dict((i, subst_lin(v, {PH[0].id: idx})) for i, v in amap.items())
            return substx(x, m) if not isinstance(x, dict) else dict((k, substx(y, m)) for k, y in x.items())
        for oid in reach:
            o = s.get(oid)
            zlen = Sq(o.segs).length() if o.kind == 'list' else None
            if zlen is not None and Z.t[0][0].id in zlen.free_atoms() and all(
                    all(num(v) is not None for v in ([seg[1]] if seg[0] == 'item' else seg[3])) for seg in o.segs):
                lo, hi = self.cell_range(t)
                out.put(oid, CellsO(subst_lin(subst_lin(zlen, amap), {PH[0].id: ph}), lo, hi))
                fam['cells'] = oid
                fam['zlen'] = zlen - Z
            elif o.kind == 'inst':
                out.put(oid, InstO(o.cls, gen(o.attrs, ph), o.open))
                fam.setdefault('blk', oid)
            elif o.kind == 'list':
                out.put(oid, ListO(gen(o.segs, ph)))
            else:
                out.put(oid, o)
                self.notes.append('block object of kind %s not generalised' % o.kind)
        for c in changed:
            if c[0] == 'o':
                a, b = st.get(c[1]), s.get(c[1])
                if b.kind == 'list':
                    if a.segs:
                        self.notes.append('list grew from a non-empty state')
                    items = [x[1] for x in b.segs if x[0] == 'item']
                    if len(items) == 1:
                        out.put(c[1], ListO((('rep', kat, n, (gen(items[0], lin(kat)),)),)))
                        if isinstance(items[0], Ref):
                            fam['list'] = Ref(c[1])
                    else:
                        self.notes.append('list of unknown shape after add_block')
                elif b.kind == 'dict':
                    add = [(k, v) for k, v in b.entries if (k, v) not in a.entries]
                    if len(add) == 1 and add[0][0] == NAME:
                        if names:
                            key = mkatom('keyph', (c[1],))
                            bidx = lin(mkatom('bidx', (t, lin(key)), 0, None, deps=frozenset(['blocks'])))
                            out.put(c[1], DictO((), (), (key, 'str', gen(add[0][1], bidx)), 0))
                            fam['names'] = Ref(c[1])
                    else:
                        # keyed by a known key: replace the whole entry value
                        self.notes.append('dict entry %r not generalised' % (add,))
                else:
                    self.notes.append('%s object changed by add_block' % b.kind)
            elif c[0] == 'a':
                v = s.get(c[1]).attrs.get(c[2])
                if isinstance(v, N):
                    o = out.get(c[1])
                    d = dict(o.attrs)
                    d[c[2]] = impint()
                    out.put(c[1], o.set(attrs=d))
                self.notes.append('attribute %s changed by add_block' % (c[2],))
        if 'cells' not in fam or 'list' not in fam:
            self.notes.append('storage of %s not recognised' % t)
        self.fam[t] = fam
        if 'cells' in fam:
            out.setext(('shared', fam['cells']), K(True))
        if 'list' in fam:
            out.setext(('shared', fam['list'].oid), K(True))
        out.trace, out.ntrace = None, 0
        return out

    def cell_range(self, t):
        if not self.bounded:
            return None, None
        if t in ('COILS', 'DISCRETE_INPUTS'):
            return 0, 1
        return (0, 65535) if self.unsigned else (-32768, 32767)

    def start(self, t, i):
        t, lo, hi = self.fam[t]['start']
        return lin(mkatom('bstart', (t, i), lo, hi, deps=frozenset(['blocks'])))

    def size(self, t, i):
        t, lo, hi = self.fam[t]['size']
        return lin(mkatom('bsize', (t, i), lo, hi, deps=frozenset(['blocks'])))

    def table_of(self, oid):
        for t, f in self.fam.items():
            if f.get('cells') == oid:
                return t
        return None

    def residue(self, s, st0=None):
        """what a request leaves behind besides the values of the cells: attributes and objects it changed"""
        out = []
        for d in state_diff(st0 or self.st, s):
            if d[0] == 'x':
                continue
            if d[0] == 'o' and s.get(d[1]).kind in ('cells', 'lock'):
                continue
            out.append(d)
        return out

    def after(self, s):
        """the same slave in the state that an earlier request left"""
        import copy
        E = copy.copy(self)
        E.__dict__.pop('cache', None)
        E.__dict__.pop('order', None)
        E.st = s.fork()
        E.st.trace, E.st.ntrace = None, 0
        # the values may have changed since
        for f in self.fam.values():
            if 'cells' in f:
                E.st.setext(('ver', f['cells']), N(Lin(100)))
        return E

    def handle(self, pdu, broadcast=False, cfg=None):
        I = self.I
        I.cfg = cfg or Config()
        kw = {'broadcast': K(True)} if broadcast else {}
        return callm(I, self.st.fork(), self.slave, 'handle_request', [pdu], kw)


def pdu_fc(fc, name='pdu'):
    """request PDU starting with this function code, of any length >= 1"""
    n = sym('len(%s)' % name, 1, None, deps=frozenset([name]))
    return Bs((('lit', bytes([fc])), ('sl', name, ONE, n - 1)))
