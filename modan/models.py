"""Models of Python built-ins and of the library calls the package uses."""
import ast
from .lin import (Lin, lin, Atom, mkatom, sym, fresh, fld, floordiv, mod, shl, shr, band, bor, bxor, mul, minmax,
                  literal_not, indicator, subst_lin, ZERO, ONE)
from .values import *
from .values import substx, freex, depsx, str_parts, is_str, mkseq, anyimp, lin_imp, canon_segs
from .state import *
from .state import PH, at_idx, key_lin
from .bytesops import (bs_int, bs_byte, bs_region, bs_seq, seq_elem, seq_region, imp_bs, bytes_int, pk_byte, split_rel,
                       to_signed)

BUILTIN_EXC = [
    ('BaseException', ('object',)), ('Exception', ('BaseException',)),
    ('KeyboardInterrupt', ('BaseException',)), ('SystemExit', ('BaseException',)), ('GeneratorExit', ('BaseException',)),
    ('ArithmeticError', ('Exception',)), ('ZeroDivisionError', ('ArithmeticError',)), ('OverflowError', ('ArithmeticError',)),
    ('AssertionError', ('Exception',)), ('AttributeError', ('Exception',)), ('EOFError', ('Exception',)),
    ('ImportError', ('Exception',)), ('ModuleNotFoundError', ('ImportError',)),
    ('LookupError', ('Exception',)), ('IndexError', ('LookupError',)), ('KeyError', ('LookupError',)),
    ('MemoryError', ('Exception',)), ('NameError', ('Exception',)), ('UnboundLocalError', ('NameError',)),
    ('RuntimeError', ('Exception',)), ('NotImplementedError', ('RuntimeError',)), ('RecursionError', ('RuntimeError',)),
    ('StopIteration', ('Exception',)), ('SyntaxError', ('Exception',)), ('SystemError', ('Exception',)),
    ('TypeError', ('Exception',)), ('ValueError', ('Exception',)), ('UnicodeError', ('ValueError',)),
    ('UnicodeDecodeError', ('UnicodeError',)), ('UnicodeEncodeError', ('UnicodeError',)),
    ('Warning', ('Exception',)), ('DeprecationWarning', ('Warning',)),
    ('OSError', ('Exception',)), ('BlockingIOError', ('OSError',)), ('ConnectionError', ('OSError',)),
    ('BrokenPipeError', ('ConnectionError',)), ('ConnectionResetError', ('ConnectionError',)),
    ('ConnectionAbortedError', ('ConnectionError',)), ('ConnectionRefusedError', ('ConnectionError',)),
    ('InterruptedError', ('OSError',)), ('TimeoutError', ('OSError',)), ('FileNotFoundError', ('OSError',)),
    ('PermissionError', ('OSError',)), ('struct.error', ('Exception',)), ('queue.Empty', ('Exception',)),
    ('queue.Full', ('Exception',)), ('select.error', ('OSError',)), ('serial.SerialException', ('OSError',)),
    ('$Any', ('Exception',)), ('$AnyIO', ('OSError',)),
]
EXC_ALIAS = {
    'IOError': 'OSError', 'EnvironmentError': 'OSError', 'socket.error': 'OSError', 'select.error': 'OSError',
    'socket.timeout': 'TimeoutError', 'struct.error': 'struct.error', 'queue.Empty': 'queue.Empty', 'queue.Full': 'queue.Full',
    'Queue.Empty': 'queue.Empty', 'serial.SerialException': 'serial.SerialException',
    'serial.serialutil.SerialException': 'serial.SerialException', 'WindowsError': 'OSError',
}
for _n, _b in BUILTIN_EXC:
    EXC_ALIAS.setdefault('builtins.' + _n, _n)

CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), '?': (1, False)}
FLOATS = {'f': 4, 'd': 8, 'e': 2}

SOCK_METHODS = frozenset('recv send sendall close accept bind listen connect setblocking settimeout setsockopt fileno '
                         'recvfrom sendto shutdown getpeername getsockname recv_into makefile'.split())
SER_METHODS = frozenset('read write flush open close reset_input_buffer reset_output_buffer cancel_read cancel_write '
                        'flushInput flushOutput'.split())


def opname(op):
    return op.__class__.__name__


def kstr(v):
    return v.v if isinstance(v, K) and isinstance(v.v, str) else None


def is_T(v):
    return isinstance(v, T)


class ModelMixin(object):

    BUILTINS = frozenset('''abs all any bool bytearray bytes callable chr dict dir divmod enumerate filter float format frozenset
        getattr hasattr hash hex id int isinstance issubclass iter len list map max min next object open ord pow print property
        range repr reversed round set setattr sorted staticmethod classmethod str sum super tuple type zip slice memoryview
        unicode unichr long xrange basestring raw_input input delattr vars exit quit reduce'''.split())

    # ------------------------------------------------------------ small helpers
    def one(self, st, v):
        return [(st, v)]

    def raise_(self, st, name, *args):
        st = st.fork()
        return (st, self.exc(st, name, *args))

    def shared(self, st, ref):
        return isinstance(ref, Ref) and st.getext(('shared', ref.oid)) is not None

    def acc(self, st, ref, op, fr, node, **d):
        """access to a container declared shared by the driver"""
        if self.shared(st, ref):
            self.emit(st, 'acc', fr, node, obj=ref, op=op, **d)

    # ------------------------------------------------------------ sequences
    seq_elem = staticmethod(seq_elem)

    def view_seq(self, st, v, fr, node):
        """keys, values or items of a dictionary, read when they are used"""
        ref, name = v.args[0], v.args[1].v
        o = st.get(ref.oid)
        self.acc(st, ref, 'iter', fr, node)
        if o.kind != 'dict':
            return self.opaque_seq(v)
        segs = []
        for k, x in o.entries:
            segs.append(('item', k if 'key' in name or name == '__iter__' else x if 'value' in name else Tup(k, x)))
        if o.tmpl is not None:
            k = mkatom('bv', (0,), 0)
            n = lin(mkatom('dlen', (ref, o.ver), 0, None))
            kv = self.dkey(ref, o, lin(k))
            x = self.dict_tmpl(o, kv)
            segs.append(('rep', k, n, (kv if 'key' in name or name == '__iter__' else x if 'value' in name else Tup(kv, x),)))
        return Sq(segs, 'view')

    def as_seq(self, st, v, fr, node, live=False):
        if isinstance(v, Sq):
            return [(st, v)]
        if isinstance(v, T) and v.op == '$view':
            return [(st, self.view_seq(st, v, fr, node))]
        if isinstance(v, Bs):
            return [(st, bs_seq(v))]
        if isinstance(v, Gen):
            return self.gen_seq(st, v, fr, node)
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if o.kind == 'list':
                self.acc(st, v, 'iter', fr, node)
                return [(st, Sq(at_segs(o.segs, v.idx), 'list'))]
            if o.kind == 'cells':
                return [(st, Sq(self.cells_segs(st, v, o, ZERO, at_idx(o.n, v.idx)), 'list'))]
            if o.kind == 'ba':
                return [(st, bs_seq(o.bs))]
            if o.kind == 'dict':
                self.acc(st, v, 'iter', fr, node)
                return [(st, self.dict_keys(st, v, o))]
            if o.kind == 'set':
                segs = [('item', x) for x in o.items]
                if o.open:
                    k = mkatom('bv', (0,), 0)
                    u = fresh('setn')
                    segs.append(('rep', k, sym(u, 0), (T('setitem', (v, N(lin(k)))),)))
                return [(st, Sq(segs, 'set'))]
            if o.kind == 'iter':
                q = o.seq
                r = seq_region(q, o.pos, q.length(), st.facts)
                st.put(v.oid, o.set(pos=q.length()))
                return [(st, Sq(r if r is not None else q.segs, 'iter'))]
            if o.kind == 'inst':
                ca = self.class_attr(st, o.cls, '__iter__')
                if ca is not None and isinstance(ca[0], Fn):
                    outs = []
                    for s, r in self.call(st, BM(v, ca[0]), [], {}, fr, node):
                        if isinstance(r, Exc):
                            outs.append((s, r))
                        elif isinstance(r, Ref) and s.get(r.oid).kind == 'inst':
                            outs.append((s, self.opaque_seq(r)))
                        else:
                            outs.extend(self.as_seq(s, r, fr, node, live))
                    return outs
                return [self.raise_(st, 'TypeError')]
            return [(st, self.opaque_seq(v))]
        if isinstance(v, K):
            if isinstance(v.v, str):
                return [(st, mkseq([K(c) for c in v.v], 'str'))]
            return [self.raise_(st, 'TypeError', K('not iterable'))]
        if isinstance(v, N):
            return [self.raise_(st, 'TypeError', K('not iterable'))]
        if isinstance(v, St):
            return [(st, self.opaque_seq(v, 'str'))]
        if isinstance(v, T):
            return [(st, self.opaque_seq(v) if live else v)]
        return [(st, self.opaque_seq(v))]

    def opaque_seq(self, v, hint=None):
        k = mkatom('bv', (0,), 0)
        if isinstance(v, T) and v.hint == 'socklist':
            hint = 'socket'
        d = depsx(v)
        n = lin(mkatom('len', (v,), 0, None, deps=d))
        return Sq((('rep', k, n, (T('item', (v, N(lin(k))), hint, anyimp(v)),)),), 'opaque')

    def gen_seq(self, st, g, fr, node):
        if g.kind == 'genexp':
            lst = st.new(ListO(), 'gseq')

            def on(s, x):
                o = s.get(lst.oid)
                s.put(lst.oid, ListO(o.segs + (('item', x),)))
                return [(s, None)]
            outs = []
            for s, r in self.gen_search(st, g, fr, node, on, lst):
                outs.append((s, r if isinstance(r, Exc) else Sq(s.get(lst.oid).segs, 'gen')))
            return outs
        # lazy map
        return self.map_seq(st, g.node, g.first, fr, node)

    def map_seq(self, st, f, q, fr, node, flt=False):
        """apply f to every element of the sequence q (tuple args when q has several)"""
        outs = []
        for s, qq in self.as_seq(st, q, fr, node, live=True):
            if isinstance(qq, Exc):
                outs.append((s, qq))
                continue
            lst = s.new(ListO(), 'map')

            def step(s2, v):
                r = []
                for s3, x in self.call(s2, f, [v], {}, fr, node):
                    if isinstance(x, Exc):
                        r.append((s3, ('exc', x.v)))
                        continue
                    if flt:
                        for s4, b in self.truth(s3, x, fr, node):
                            if isinstance(b, Exc):
                                r.append((s4, ('exc', b.v)))
                                continue
                            if b:
                                o = s4.get(lst.oid)
                                s4.put(lst.oid, ListO(o.segs + (('item', v),)))
                            r.append((s4, None))
                        continue
                    o = s3.get(lst.oid)
                    s3.put(lst.oid, ListO(o.segs + (('item', x),)))
                    r.append((s3, None))
                return r
            for s2, o in self.run_seq(s, qq, step):
                if isinstance(o, tuple) and o[0] == 'exc':
                    outs.append((s2, Exc(o[1])))
                else:
                    outs.append((s2, Sq(s2.get(lst.oid).segs, 'gen')))
        return outs

    def dict_keys(self, st, ref, o):
        segs = [('item', k) for k, _ in o.entries]
        if o.tmpl is not None:
            k = mkatom('bv', (0,), 0)
            n = lin(mkatom('dlen', (ref, o.ver), 0, None))
            kv = self.dkey(ref, o, lin(k))
            segs.append(('rep', k, n, (kv,)))
        return Sq(segs, 'keys')

    def dkey(self, ref, o, k):
        a = lin(mkatom('dkey', (ref, o.ver, k)))
        if o.tmpl[1] == 'int':
            return N(a)
        return T('dkey', (ref, K(str(o.ver)), N(k)), 'str' if o.tmpl[1] == 'str' else None)

    # ------------------------------------------------------------ bytes
    def as_bytes(self, st, v):
        if isinstance(v, Bs):
            return v
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if o.kind == 'ba':
                return o.bs
        if isinstance(v, T) and v.hint == 'bytes':
            n = lin(mkatom('len', (v,), 0, None, deps=depsx(v)))
            return Bs((('u', ('imp:' if anyimp(v) else '') + repr(v), n, tuple(sorted(depsx(v)))),))
        return None

    def bytes_item(self, st, b, i):
        n = b.length()
        outs = []
        for s, neg in self.split(st, ('ge', -i - 1)):
            j = i + n if neg else i
            for s2, ok in self.split(s, ('ge', j)):
                if not ok:
                    outs.append(self.raise_(s2, 'IndexError'))
                    continue
                for s3, ok2 in self.split(s2, ('ge', n - j - 1)):
                    if not ok2:
                        outs.append(self.raise_(s3, 'IndexError'))
                        continue
                    v = bs_byte(b, j, s3.facts)
                    outs.append((s3, N(v) if v is not None else self.imp_byte()))
        return outs

    def imp_byte(self):
        return N(sym(fresh('imp'), 0, 255))

    def clamp(self, st, x, n, default):
        """slice bound -> [(state, Lin in 0..n)]"""
        if isinstance(x, K) and x.v is None:
            return [(st, default)]
        l = self.intlin(x)
        if l is None:
            s = sym(fresh('imp'), 0, None)
            f = st.facts.add('ge', n - s)
            return [(st.with_facts(f) if f is not None else st, s)]
        outs = []
        for s, neg in self.split(st, ('ge', -l - 1)):
            if neg:
                m = l + n
                for s2, ok in self.split(s, ('ge', m)):
                    outs.append((s2, m if ok else ZERO))
            else:
                for s2, ok in self.split(s, ('ge', n - l)):
                    outs.append((s2, l if ok else n))
        return outs

    def slice_bounds(self, st, sl, n):
        """[(state, lo, hi)] with 0 <= lo <= hi <= n"""
        outs = []
        for s, lo in self.clamp(st, sl.lo, n, ZERO):
            for s2, hi in self.clamp(s, sl.hi, n, n):
                for s3, ok in self.split(s2, ('ge', hi - lo)):
                    outs.append((s3, lo, hi if ok else lo))
        return outs

    def plain_slice(self, sl):
        return isinstance(sl.step, K) and sl.step.v is None or (isinstance(sl.step, N) and sl.step.l == ONE)

    def intlin(self, v):
        n = num(v)
        if n is not None:
            return n
        if isinstance(v, T) and v.hint in (None, 'int'):
            return lin(mkatom('tv', (v,), deps=depsx(v) | (frozenset(['imp']) if v.imp else frozenset())))
        return None

    # ------------------------------------------------------------ cells
    def cells_ver(self, st, ref):
        v = st.getext(('ver', ref.oid))
        return v.l if v is not None else ZERO

    def cell(self, st, ref, o, i):
        lo, hi = o.lo, o.hi
        return lin(mkatom('cell', (ref.oid, ref.idx, self.cells_ver(st, ref), i), lo, hi))

    def cells_segs(self, st, ref, o, lo, n):
        k = mkatom('bv', (0,), 0)
        return (('rep', k, n, (N(self.cell(st, ref, o, lin(k) + lo)),)),)

    # ------------------------------------------------------------ subscript
    def index_split(self, st, i, n):
        """[(state, Lin | None)] None: IndexError"""
        outs = []
        for s, neg in self.split_int(st, ('ge', -i - 1)):
            j = i + n if neg else i
            for s2, ok in self.split_int(s, ('ge', j)):
                if not ok:
                    outs.append((s2, None))
                    continue
                for s3, ok2 in self.split_int(s2, ('ge', n - j - 1)):
                    outs.append((s3, j if ok2 else None))
        return outs

    def getitem(self, st, o, i, fr, node):
        if isinstance(o, Ref):
            ob = st.get(o.oid)
            k = ob.kind
            if k == 'inst':
                ca = self.class_attr(st, ob.cls, '__getitem__')
                if ca is not None and isinstance(ca[0], Fn):
                    return self.call(st, BM(o, ca[0]), [i], {}, fr, node)
                if ob.open:
                    return [(st, T('item', (o, i)))]
                return [self.raise_(st, 'TypeError')]
            if k == 'dict':
                return self.dict_get(st, o, i, fr, node)
            if k == 'list':
                self.acc(st, o, 'get', fr, node)
                return self.seq_get(st, Sq(at_segs(ob.segs, o.idx), 'list'), i, True)
            if k == 'cells':
                return self.cells_get(st, o, ob, i, fr, node)
            if k == 'ba':
                if isinstance(i, Sl):
                    return self.bs_slice(st, ob.bs, i, True)
                n = self.intlin(i)
                return self.bytes_item(st, ob.bs, n) if n is not None else [self.raise_(st, 'TypeError')]
            return [(st, T('item', (o, i)))]
        if isinstance(o, Bs):
            if isinstance(i, Sl):
                return self.bs_slice(st, o, i, False)
            n = self.intlin(i)
            return self.bytes_item(st, o, n) if n is not None else [self.raise_(st, 'TypeError')]
        if isinstance(o, Sq):
            return self.seq_get(st, o, i, False)
        if isinstance(o, K) and isinstance(o.v, str):
            return self.str_item(st, o, i)
        if isinstance(o, St):
            if isinstance(i, Sl) and i.step in (None, NONE):
                b = [None if x in (None, NONE) else self.intlin(x) for x in (i.lo, i.hi)]
                if all(x is None or x.is_const for x in b) and not (b[0] is None and i.lo not in (None, NONE)) and not (b[1] is None and i.hi not in (None, NONE)):
                    r = self.text_slice(st, o, *[None if x is None else x.c for x in b])
                    if r is not None:
                        return [(st, r)]
            elif not isinstance(i, Sl):
                n = self.intlin(i)
                if n is not None and n.is_const:
                    p = o.parts[0 if n.c >= 0 else -1]
                    if isinstance(p, str) and -len(p) <= n.c < len(p):
                        return [(st, K(p[n.c]))]
        if isinstance(o, St) or (isinstance(o, T) and o.hint == 'str'):
            return [(st, T('stritem', (o, i), 'str', anyimp(o)))]
        if isinstance(o, T):
            if isinstance(i, Sl):
                return [(st, T('slice', (o, i), o.hint, anyimp(o)))]
            return [(st, T('item', (o, i), 'socklist' if o.hint == 'selret' else None, anyimp(o, i)))]
        if isinstance(o, (K, N)):
            return [self.raise_(st, 'TypeError', K('not subscriptable'))]
        if isinstance(o, Ext):
            return [(st, T('item', (o, i)))]
        return [(st, unk('item'))]

    def str_item(self, st, o, i):
        if isinstance(i, Sl):
            vals = []
            for x in (i.lo, i.hi, i.step):
                if isinstance(x, K) and x.v is None:
                    vals.append(None)
                elif isinstance(x, N) and x.l.is_const:
                    vals.append(x.l.c)
                else:
                    return [(st, T('stritem', (o, i), 'str'))]
            return [(st, K(o.v[slice(*vals)]))]
        n = self.intlin(i)
        if n is not None and n.is_const:
            try:
                return [(st, K(o.v[n.c]))]
            except IndexError:
                return [self.raise_(st, 'IndexError')]
        return [(st, T('stritem', (o, i), 'str'))]

    def bs_slice(self, st, b, sl, ba):
        if not self.plain_slice(sl):
            r = imp_bs(b.deps)
            return [(st, st.new(BAO(r), 'ba') if ba else r)]
        outs = []
        for s, lo, hi in self.slice_bounds(st, sl, b.length()):
            r = bs_region(b, lo, hi, s.facts)
            if ba:
                s = s.fork()
                outs.append((s, s.new(BAO(r), 'ba')))
            else:
                outs.append((s, r))
        return outs

    def seq_get(self, st, q, i, islist):
        if isinstance(i, Sl):
            if not self.plain_slice(i):
                items = q.items()
                if items is not None:
                    vals = []
                    for x in (i.lo, i.hi, i.step):
                        n = num(x)
                        vals.append(n.c if n is not None and n.is_const else None)
                    segs = tuple(('item', x) for x in items[slice(*vals)])
                else:
                    segs = self.opaque_seq(unk('slice')).segs
                return [(st, st.new(ListO(segs), 'list') if islist else Sq(segs, q.kind))]
            outs = []
            for s, lo, hi in self.slice_bounds(st, i, q.length()):
                segs = seq_region(q, lo, hi, s.facts)
                if segs is None:
                    k = mkatom('bv', (0,), 0)
                    segs = (('rep', k, hi - lo, (T('elem', (q, N(lin(k) + lo)), None, True),)),)
                if islist:
                    s = s.fork()
                    outs.append((s, s.new(ListO(segs), 'list')))
                else:
                    outs.append((s, Sq(segs, q.kind)))
            return outs
        n = self.intlin(i)
        if n is None:
            return [self.raise_(st, 'TypeError')]
        items = q.items()
        if items is not None and not n.is_const and 0 < len(items) <= 256 and all(isinstance(x, N) and x.l.is_const for x in items):
            outs = []
            for s, j in self.index_split(st, n, Lin(len(items))):
                if j is None:
                    outs.append(self.raise_(s, 'IndexError'))
                else:
                    v = seq_elem(q, j, s.facts)
                    if v is None:
                        tab = tuple(x.l.c for x in items)
                        v = N(lin(mkatom('tab', (tab, j), min(tab), max(tab))))
                    outs.append((s, v))
            return outs
        outs = []
        for s, j in self.index_split(st, n, q.length()):
            if j is None:
                outs.append(self.raise_(s, 'IndexError'))
                continue
            v = seq_elem(q, j, s.facts)
            if v is None and items is not None and len(items) <= 8:
                for k, x in enumerate(items):
                    s2 = s.assume(('eq', j - k))
                    if s2 is not None:
                        outs.append((s2.fork(), x))
                continue
            outs.append((s, v if v is not None else T('elem', (q, N(j)), None, True)))
        return outs

    def cells_get(self, st, o, ob, i, fr, node):
        n = at_idx(ob.n, o.idx)
        outs = []
        if isinstance(i, Sl):
            if not self.plain_slice(i):
                st.flag('step')
                return [(st, unk('cells'))]
            for s, lo, hi in self.slice_bounds(st, i, n):
                s = s.fork()
                self.emit(s, 'rd', fr, node, obj=o, lo=lo, n=hi - lo, ver=self.cells_ver(s, o), slice=True,
                          alo=num(i.lo), ahi=num(i.hi))
                outs.append((s, s.new(ListO(self.cells_segs(s, o, ob, lo, hi - lo)), 'list')))
            return outs
        l = self.intlin(i)
        if l is None:
            return [self.raise_(st, 'TypeError')]
        for s, j in self.index_split(st, l, n):
            if j is None:
                outs.append(self.raise_(s, 'IndexError'))
                continue
            s = s.fork()
            self.emit(s, 'rd', fr, node, obj=o, lo=j, n=ONE, ver=self.cells_ver(s, o), slice=False, alo=l, ahi=None)
            outs.append((s, N(self.cell(s, o, ob, j))))
        return outs

    def cells_set(self, st, o, ob, i, v, fr, node):
        n = at_idx(ob.n, o.idx)
        outs = []

        def bump(s):
            s.setext(('ver', o.oid), N(self.cells_ver(s, o) + 1))
        if isinstance(i, Sl):
            for s, q in self.as_seq(st, v, fr, node, live=True):
                if isinstance(q, Exc):
                    outs.append((s, q))
                    continue
                for s2, lo, hi in self.slice_bounds(s, i, n):
                    s2 = s2.fork()
                    m = q.length()
                    self.emit(s2, 'wr', fr, node, obj=o, lo=lo, n=m, value=q, slice=True, resize=m - (hi - lo),
                              alo=num(i.lo), ahi=num(i.hi))
                    if not s2.facts.entails_eq(m - (hi - lo)):
                        s2.put(o.oid, ob.set(n=ob.n + (m - (hi - lo)) if not o.idx else sym(fresh('imp'), 0)))
                    bump(s2)
                    outs.append((s2, NONE))
            return outs
        l = self.intlin(i)
        if l is None:
            return [self.raise_(st, 'TypeError')]
        for s, j in self.index_split(st, l, n):
            if j is None:
                outs.append(self.raise_(s, 'IndexError'))
                continue
            s = s.fork()
            self.emit(s, 'wr', fr, node, obj=o, lo=j, n=ONE, value=v, slice=False, resize=ZERO, alo=l, ahi=None)
            bump(s)
            outs.append((s, NONE))
        return outs

    def setitem(self, st, o, i, v, fr, node):
        if isinstance(o, Ref):
            ob = st.get(o.oid)
            k = ob.kind
            if k == 'inst':
                ca = self.class_attr(st, ob.cls, '__setitem__')
                if ca is not None and isinstance(ca[0], Fn):
                    return self.call(st, BM(o, ca[0]), [i, v], {}, fr, node)
                return [(st, NONE)] if ob.open else [self.raise_(st, 'TypeError')]
            if k == 'dict':
                return self.dict_set(st, o, i, v, fr, node)
            if k == 'cells':
                return self.cells_set(st, o, ob, i, v, fr, node)
            if k == 'list':
                return self.list_set(st, o, ob, i, v, fr, node)
            if k == 'ba':
                n = self.intlin(i)
                b = num(v)
                c = ob.bs.const()
                if n is not None and b is not None:
                    outs = []
                    for s, j in self.index_split(st, n, ob.bs.length()):
                        if j is None:
                            outs.append(self.raise_(s, 'IndexError'))
                            continue
                        s = s.fork()
                        L = ob.bs.length()
                        a = bs_region(ob.bs, ZERO, j, s.facts)
                        z = bs_region(ob.bs, j + 1, L, s.facts)
                        s.put(o.oid, BAO(Bs(a.segs + (('pk', 1, '>', b),) + z.segs)))
                        outs.append((s, NONE))
                    return outs
                st.put(o.oid, BAO(imp_bs()))
                return [(st, NONE)]
            return [(st, NONE)]
        if isinstance(o, (Bs, Sq, K, N, St)):
            return [self.raise_(st, 'TypeError')]
        self.emit(st, 'setitem', fr, node, obj=o, key=i, value=v)
        return [(st, NONE)]

    def list_set(self, st, o, ob, i, v, fr, node):
        q = Sq(ob.segs, 'list')
        outs = []
        n = q.length()
        self.acc(st, o, 'set', fr, node)
        if isinstance(i, Sl):
            for s, w in self.as_seq(st, v, fr, node, live=True):
                if isinstance(w, Exc):
                    outs.append((s, w))
                    continue
                for s2, lo, hi in self.slice_bounds(s, i, n):
                    s2 = s2.fork()
                    a, z = seq_region(q, ZERO, lo, s2.facts), seq_region(q, hi, n, s2.facts)
                    if a is None or z is None:
                        s2.flag('listset')
                    else:
                        s2.put(o.oid, ListO(a + w.segs + z))
                    self.emit(s2, 'lmut', fr, node, obj=o, op='setslice', args=(i, w))
                    outs.append((s2, NONE))
            return outs
        l = self.intlin(i)
        if l is None:
            return [self.raise_(st, 'TypeError')]
        for s, j in self.index_split(st, l, n):
            if j is None:
                outs.append(self.raise_(s, 'IndexError'))
                continue
            s = s.fork()
            a, z = seq_region(q, ZERO, j, s.facts), seq_region(q, j + 1, n, s.facts)
            if a is None or z is None:
                s.flag('listset')
            else:
                s.put(o.oid, ListO(a + (('item', v),) + z))
            self.emit(s, 'lmut', fr, node, obj=o, op='set', args=(N(j), v))
            outs.append((s, NONE))
        return outs

    def delitem(self, st, o, i, fr, node):
        if isinstance(o, Ref):
            ob = st.get(o.oid)
            if ob.kind == 'dict':
                return self.dict_pop(st, o, [i], fr, node, 'del')
            if ob.kind == 'list':
                q = Sq(ob.segs, 'list')
                n = q.length()
                self.acc(st, o, 'del', fr, node)
                outs = []
                if isinstance(i, Sl):
                    rs = [(s, lo, hi) for s, lo, hi in self.slice_bounds(st, i, n)]
                else:
                    l = self.intlin(i)
                    if l is None:
                        return [self.raise_(st, 'TypeError')]
                    rs = []
                    for s, j in self.index_split(st, l, n):
                        if j is None:
                            outs.append(self.raise_(s, 'IndexError'))
                        else:
                            rs.append((s, j, j + 1))
                for s, lo, hi in rs:
                    s = s.fork()
                    a, z = seq_region(q, ZERO, lo, s.facts), seq_region(q, hi, n, s.facts)
                    if a is None or z is None:
                        s.flag('listdel')
                    else:
                        s.put(o.oid, ListO(a + z))
                    self.emit(s, 'lmut', fr, node, obj=o, op='del', args=(N(lo), N(hi)))
                    outs.append((s, NONE))
                return outs
            if ob.kind == 'cells':
                self.emit(st, 'wr', fr, node, obj=o, lo=ZERO, n=ZERO, value=NONE, slice=True, resize=sym(fresh('imp')), alo=None, ahi=None)
                return [(st, NONE)]
        return [(st, NONE)]

    # ------------------------------------------------------------ dicts
    def key_eq(self, st, a, b):
        """True / False / literal"""
        if a == b:
            return True
        x, y = num(a), num(b)
        if x is not None and y is not None:
            d = st.facts.decide('eq', x - y)
            return d if d is not None else ('eq', x - y)
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if (x is not None) != (y is not None) and not isinstance(a, T) and not isinstance(b, T):
            return False
        if a == NONE and isinstance(b, (Ref, Sq)) or b == NONE and isinstance(a, (Ref, Sq)):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid != b.oid:
                return False
            lits = [('eq', p - q) for p, q in zip(a.idx, b.idx)]
            return lits[0] if lits else True
        if x is not None or y is not None:
            t, n = (a, y) if x is None else (b, x)
            l = self.intlin(t)
            if l is None:
                return False
            d = st.facts.decide('eq', l - n)
            return d if d is not None else ('eq', l - n)
        if isinstance(a, Sq) and isinstance(b, Sq):
            ia, ib = a.items(), b.items()
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return False
                rs = [self.key_eq(st, p, q) for p, q in zip(ia, ib)]
                if False in rs:
                    return False
                rs = [r for r in rs if r is not True]
                if not rs:
                    return True
                if len(rs) == 1:
                    return rs[0]
        p, q = (a, b) if repr(a) <= repr(b) else (b, a)
        key = ('eq', p, q)
        d = st.facts.bools.get(key)
        return d if d is not None else ('bool', key, True)

    def dict_find(self, st, ref, o, key):
        """[(state, value | None)]"""
        outs = []
        cur = st
        for k, v in o.entries:
            r = self.key_eq(cur, k, key)
            if r is True:
                outs.append((cur, v))
                return outs
            if r is False:
                continue
            nxt = None
            for s, b in self.split(cur, r):
                if b:
                    outs.append((s, v))
                else:
                    nxt = s
            if nxt is None:
                return outs
            cur = nxt
        if o.tmpl is None:
            outs.append((cur, None))
            return outs
        for g in o.gone:
            r = self.key_eq(cur, g, key)
            if r is True:
                outs.append((cur, None))
                return outs
            if r is False:
                continue
            nxt = None
            for s, b in self.split(cur, r):
                if b:
                    outs.append((s, None))
                else:
                    nxt = s
            if nxt is None:
                return outs
            cur = nxt
        # keys obtained by iterating this dict are in it
        if self.is_dkey(ref, o, key):
            return outs + [(cur, self.dict_tmpl(o, key))]
        for s, b in self.split(cur, ('bool', ('in', key, ref, K(str(o.ver))), True)):
            outs.append((s, self.dict_tmpl(o, key) if b else None))
        return outs

    def is_dkey(self, ref, o, key):
        if isinstance(key, N) and len(key.l.t) == 1 and key.l.c == 0:
            a, k = key.l.t[0]
            return k == 1 and a.op == 'dkey' and a.args[0] == ref and a.args[1] == o.ver
        return isinstance(key, T) and key.op == 'dkey' and key.args[0] == ref and key.args[1] == K(str(o.ver))

    def dict_tmpl(self, o, key):
        ph, kind, v = o.tmpl
        if ph is not None:
            return v.subst({ph.id: key_lin(key)})
        if isinstance(v, T):
            return T(v.op, v.args + (key,), v.hint, v.imp)
        return v

    def dict_get(self, st, ref, key, fr, node):
        o = st.get(ref.oid)
        self.acc(st, ref, 'get', fr, node)
        outs = []
        for s, v in self.dict_find(st, ref, o, key):
            if v is None:
                outs.append(self.raise_(s, 'KeyError', key))
            else:
                outs.append((s, v))
        return outs

    def dict_set(self, st, ref, key, v, fr, node):
        outs = []
        o = st.get(ref.oid)
        self.acc(st, ref, 'set', fr, node)
        for s, old in self.dict_find(st, ref, o, key):
            s = s.fork()
            ob = s.get(ref.oid)
            done = False
            es = []
            for k, x in ob.entries:
                if not done and self.key_eq(s, k, key) is True:
                    es.append((k, v))
                    done = True
                else:
                    es.append((k, x))
            if not done:
                es.append((key, v))
            s.put(ref.oid, ob.set(entries=tuple(es), gone=tuple(g for g in ob.gone if self.key_eq(s, g, key) is not True)))
            self.emit(s, 'dmut', fr, node, obj=ref, op='set', key=key, value=v, old=old)
            outs.append((s, NONE))
        return outs

    def dict_pop(self, st, ref, args, fr, node, op='pop'):
        outs = []
        o = st.get(ref.oid)
        key = args[0]
        self.acc(st, ref, 'pop', fr, node)
        for s, old in self.dict_find(st, ref, o, key):
            s = s.fork()
            if old is None:
                if len(args) > 1:
                    outs.append((s, args[1]))
                else:
                    outs.append((s, self.exc(s, 'KeyError', key)))
                continue
            ob = s.get(ref.oid)
            es = tuple((k, x) for k, x in ob.entries if self.key_eq(s, k, key) is not True)
            gone = ob.gone + ((key,) if ob.tmpl is not None else ())
            s.put(ref.oid, ob.set(entries=es, gone=gone))
            self.emit(s, 'dmut', fr, node, obj=ref, op='pop', key=key, value=old, old=old)
            outs.append((s, old))
        return outs

    def contains(self, st, c, x, fr, node):
        """[(state, bool | Exc)] x in c"""
        if isinstance(c, T) and c.op == '$view':
            if 'key' in c.args[1].v or c.args[1].v == '__iter__':
                c = c.args[0]
            else:
                c = self.view_seq(st, c, fr, node)
        if isinstance(c, Ref):
            o = st.get(c.oid)
            if o.kind == 'dict':
                self.acc(st, c, 'in', fr, node)
                return [(s, v is not None) for s, v in self.dict_find(st, c, o, x)]
            if o.kind == 'inst':
                ca = self.class_attr(st, o.cls, '__contains__')
                if ca is not None and isinstance(ca[0], Fn):
                    outs = []
                    for s, r in self.call(st, BM(c, ca[0]), [x], {}, fr, node):
                        outs.extend([(s, r)] if isinstance(r, Exc) else self.truth(s, r, fr, node))
                    return outs
            if o.kind == 'set':
                outs = []
                cur = st
                for it in o.items:
                    r = self.key_eq(cur, it, x)
                    if r is True:
                        return outs + [(cur, True)]
                    if r is False:
                        continue
                    nxt = None
                    for s, b in self.split(cur, r):
                        if b:
                            outs.append((s, True))
                        else:
                            nxt = s
                    if nxt is None:
                        return outs
                    cur = nxt
                if not o.open:
                    return outs + [(cur, False)]
                return outs + self.split_term(cur, ('in', x, c), True)
        if isinstance(c, K) and isinstance(c.v, str):
            k = kstr(x)
            if k is not None:
                return [(st, k in c.v)]
            return self.split_term(st, ('in', x, c), anyimp(x))
        if isinstance(c, (St,)) or (isinstance(c, T) and not isinstance(x, Sq)):
            if isinstance(c, St) and kstr(x) is not None and any(isinstance(p, str) and x.v in p for p in c.parts):
                return [(st, True)]
            return self.split_term(st, ('in', x, c), anyimp(x, c))
        if isinstance(c, (N,)) or isinstance(c, K):
            return [self.raise_(st, 'TypeError')]
        outs = []
        for s, q in self.as_seq(st, c, fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            xl = num(x)
            if q.kind == 'range' and xl is not None and len(q.segs) <= 1:
                r = self.range_contains(s, q, xl)
                if r is not None:
                    outs.extend(r)
                    continue
            cur = s
            done = False
            for seg in q.segs:
                vals = [seg[1]] if seg[0] == 'item' else None
                if vals is None:
                    if seg[0] == 'rep' and len(seg) > 3 and all(isinstance(y, V) and self.key_eq(cur, y, x) is False for y in seg[3]):
                        # no element can be equal to it
                        continue
                    # the entries of the map of names may well have the same numbers: they are of several tables
                    free = xl is not None and 'id(' in str(x) and seg[0] == 'rep' and len(seg) > 3 and all(
                        num(y) is not None and 'dkey(' in str(y) for y in seg[3])
                    outs.extend(self.split_term(cur, ('in', x, Sq((seg,))), not free or anyimp(x, Sq((seg,)))))
                    done = True
                    break
                r = self.key_eq(cur, vals[0], x)
                if r is True:
                    outs.append((cur, True))
                    done = True
                    break
                if r is False:
                    continue
                nxt = None
                for s2, b in self.split(cur, r):
                    if b:
                        outs.append((s2, True))
                    else:
                        nxt = s2
                if nxt is None:
                    done = True
                    break
                cur = nxt
            if not done:
                outs.append((cur, False))
        return self.merge(st, outs)

    def range_contains(self, st, q, x):
        if not q.segs:
            return [(st, False)]
        s = q.segs[0]
        if s[0] == 'item':
            return None
        k = s[1]
        v = s[3][0].l
        c = dict((a.id, m) for a, m in v.t).get(k.id)
        if c != 1:
            return None
        lo = v - lin(k)
        outs = []
        for s1, ok in self.split_int(st, ('ge', x - lo)):
            if not ok:
                outs.append((s1, False))
                continue
            for s2, ok2 in self.split_int(s1, ('ge', lo + s[2] - x - 1)):
                outs.append((s2, ok2))
        return outs

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b, fr, node):
        n = opname(op)
        x, y = num(a), num(b)
        if x is not None and y is not None:
            return self.num_op(st, n, x, y, a, b)
        if n == 'Add':
            return self.add_op(st, a, b, fr, node)
        if n == 'Mult':
            for p, q in ((a, y), (b, x)):
                if q is not None and not isinstance(p, (N,)):
                    r = self.repeat(st, p, q)
                    if r is not None:
                        return r
        if n == 'Mod' and is_str(a):
            return self.percent(st, a, b, fr, node)
        if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a.oid).kind == 'set' and st.get(b.oid).kind == 'set':
            return [(st, st.new(SetO((), True), 'set'))]
        fl = [isinstance(v, K) and isinstance(v.v, float) for v in (a, b)]
        if any(fl) or any(isinstance(v, T) for v in (a, b)):
            ca = self.cnum(a)
            cb = self.cnum(b)
            if ca is not None and cb is not None:
                return [(st, self.cfloat(n, ca, cb))] if not (n in ('Div', 'FloorDiv', 'Mod') and cb == 0) else \
                    [self.raise_(st, 'ZeroDivisionError')]
            for v in (a, b):
                if isinstance(v, (Bs, Sq, St)) or (isinstance(v, K) and (v.v is None or isinstance(v.v, str))):
                    if n == 'Add' and isinstance(v, (K, St)) and is_str(v):
                        return [(st, mkstr(str_parts(a) + str_parts(b)))]
                    return [self.raise_(st, 'TypeError')]
            # numeric term
            la, lb = self.intlin2(a), self.intlin2(b)
            if la is not None and lb is not None:
                return self.num_op(st, n, la, lb, a, b)
            if n in ('Add', 'Mult') and repr(a) > repr(b):
                a, b = b, a
            return [(st, T('op' + n, (a, b), 'float', anyimp(a, b)))]
        return [self.raise_(st, 'TypeError', K('unsupported operand'))]

    def cnum(self, v):
        if isinstance(v, K) and isinstance(v.v, (float, bool)):
            return v.v
        if isinstance(v, N) and v.l.is_const:
            return v.l.c
        return None

    def cfloat(self, n, x, y):
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y,
             'FloorDiv': lambda: x // y, 'Mod': lambda: x % y, 'Pow': lambda: x ** y}[n]()
        return K(float(r))

    def intlin2(self, v):
        n = num(v)
        if n is not None:
            return n
        if isinstance(v, T) and v.hint == 'int':
            return lin(mkatom('tv', (v,), deps=depsx(v) | (frozenset(['imp']) if v.imp else frozenset())))
        return None

    def num_op(self, st, n, x, y, a, b):
        if n == 'Add':
            return [(st, N(x + y))]
        if n == 'Sub':
            return [(st, N(x - y))]
        if n == 'Mult':
            return [(st, N(mul(x, y)))]
        if n in ('FloorDiv', 'Mod'):
            if y.is_const and y.c == 0:
                return [self.raise_(st, 'ZeroDivisionError')]
            if y.is_const and y.c > 0:
                return [(st, N(floordiv(x, y.c) if n == 'FloorDiv' else mod(x, y.c)))]
            return [(st, T('op' + n, (N(x), N(y)), 'int', True))]
        if n == 'Div':
            if x.is_const and y.is_const and y.c:
                return [(st, K(x.c / y.c))]
            if y.is_const and y.c == 0:
                return [self.raise_(st, 'ZeroDivisionError')]
            return [(st, T('opDiv', (N(x), N(y)), 'float'))]
        if n == 'Pow':
            if y.is_const and y.c >= 0:
                r = ONE
                for _ in range(min(y.c, 64)):
                    r = mul(r, x)
                return [(st, N(r))]
            if x == Lin(2):
                return [(st, N(shl(ONE, y)))]
            return [(st, impint())]
        if n == 'LShift':
            return [(st, N(shl(x, y)))]
        if n == 'RShift':
            return [(st, N(shr(x, y)))]
        if n == 'BitAnd':
            return [(st, N(band(x, y)))]
        if n == 'BitOr':
            return [(st, N(bor(x, y)))]
        if n == 'BitXor':
            return [(st, N(bxor(x, y)))]
        return [(st, impint())]

    def add_op(self, st, a, b, fr, node):
        ba, bb = self.as_bytes(st, a), self.as_bytes(st, b)
        if ba is not None and bb is not None:
            r = Bs(ba.segs + bb.segs)
            if isinstance(a, Ref):
                return [(st, st.new(BAO(r), 'ba'))]
            return [(st, r)]
        if ba is not None or bb is not None:
            o = b if ba is not None else a
            if isinstance(o, T) and o.hint is None:
                u = self.unk_seg('imp' if anyimp(o) else 'u', depsx(o))
                u = ('u', repr(o), lin(mkatom('len', (o,), 0, None, deps=depsx(o))), tuple(sorted(depsx(o)))) if not anyimp(o) else u
                return [(st, Bs((ba.segs + (u,)) if ba is not None else ((u,) + bb.segs)))]
            return [self.raise_(st, 'TypeError', K("can't concat"))]
        if is_str(a) and is_str(b):
            return [(st, mkstr(str_parts(a) + str_parts(b)))]
        if isinstance(a, Sq) and isinstance(b, Sq):
            return [(st, Sq(a.segs + b.segs, a.kind))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.get(a.oid), st.get(b.oid)
            if x.kind in ('list', 'cells') and y.kind in ('list', 'cells'):
                outs = []
                for s, p in self.as_seq(st, a, fr, node):
                    for s2, q in self.as_seq(s, b, fr, node):
                        outs.append((s2, s2.new(ListO(p.segs + q.segs), 'list')))
                return outs
        for v, w in ((a, b), (b, a)):
            if isinstance(v, T) and v.hint != 'str':
                if is_str(w):
                    return [(st, mkstr(str_parts(a) + str_parts(b)))]
                la, lb = self.intlin2(a), self.intlin2(b)
                if la is not None and lb is not None:
                    return [(st, N(la + lb))]
                if isinstance(w, (N, K, T)) and not (isinstance(w, K) and w.v is None):
                    return [(st, T('opAdd', (a, b), 'float' if isinstance(w, N) else None, anyimp(a, b)))]
                if isinstance(w, Sq):
                    return [(st, T('opAdd', (a, b), None, anyimp(a, b)))]
        if isinstance(a, (N, K)) and isinstance(b, (N, K)):
            ca, cb = self.cnum(a), self.cnum(b)
            if ca is not None and cb is not None:
                return [(st, self.cfloat('Add', ca, cb))]
        return [self.raise_(st, 'TypeError', K('unsupported operand'))]

    def repeat(self, st, p, n):
        if isinstance(p, K) and isinstance(p.v, str):
            if n.is_const:
                return [(st, K(p.v * n.c))]
            outs = []
            for s, ok in self.split_int(st, ('ge', n)):
                outs.append((s, mkstr((('rep', n, p.v),)) if ok else K('')))
            return outs
        segs = None
        if isinstance(p, Sq):
            segs = p.segs
        elif isinstance(p, Ref) and st.get(p.oid).kind == 'list':
            segs = st.get(p.oid).segs
        elif isinstance(p, Bs) or (isinstance(p, Ref) and st.get(p.oid).kind == 'ba'):
            b = self.as_bytes(st, p)
            outs = []
            for s, ok in self.split_int(st, ('ge', n)):
                s = s.fork()
                r = Bs((('rep', mkatom('bv', (0,), 0), n, b.segs),)) if ok else Bs()
                outs.append((s, s.new(BAO(r), 'ba') if isinstance(p, Ref) else r))
            return outs
        if segs is None:
            return None
        if not all(s[0] == 'item' for s in segs):
            return None
        outs = []
        for s, ok in self.split_int(st, ('ge', n)):
            s = s.fork()
            r = (('rep', mkatom('bv', (0,), 0), n, tuple(x[1] for x in segs)),) if ok else ()
            outs.append((s, s.new(ListO(r), 'list') if isinstance(p, Ref) else Sq(r, p.kind)))
        return outs

    def compare(self, st, op, a, b, fr, node):
        n = opname(op)
        if n in ('In', 'NotIn'):
            return [(s, r if isinstance(r, Exc) else (r == (n == 'In'))) for s, r in self.contains(st, b, a, fr, node)]
        if n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            pos = n in ('Is', 'Eq')
            return [(s, r if isinstance(r, Exc) else (r == pos)) for s, r in self.equal(st, a, b, n in ('Is', 'IsNot'), fr, node)]
        # ordering
        x, y = self.intlin2(a), self.intlin2(b)
        if x is not None and y is not None:
            lit = {'Lt': ('ge', y - x - 1), 'LtE': ('ge', y - x), 'Gt': ('ge', x - y - 1), 'GtE': ('ge', x - y)}[n]
            return self.split_int(st, lit)
        ca, cb = self.cnum(a), self.cnum(b)
        if ca is not None and cb is not None:
            return [(st, {'Lt': ca < cb, 'LtE': ca <= cb, 'Gt': ca > cb, 'GtE': ca >= cb}[n])]
        if kstr(a) is not None and kstr(b) is not None:
            ca, cb = a.v, b.v
            return [(st, {'Lt': ca < cb, 'LtE': ca <= cb, 'Gt': ca > cb, 'GtE': ca >= cb}[n])]
        for v, w in ((a, b), (b, a)):
            if (isinstance(v, K) and v.v is None) and not isinstance(w, T):
                return [self.raise_(st, 'TypeError')]
            if isinstance(v, N) and (is_str(w) or isinstance(w, (Bs, Sq))):
                return [self.raise_(st, 'TypeError')]
        if n in ('Gt', 'LtE'):
            a, b = b, a
        neg = n in ('LtE', 'GtE')
        return [(s, r != neg) for s, r in self.split_term(st, ('lt', a, b), anyimp(a, b))]

    def equal(self, st, a, b, ident, fr, node):
        if a == b:
            if isinstance(a, T) and a.hint == 'float':
                return [(st, True)]
            return [(st, True)]
        for v, w in ((a, b), (b, a)):
            if isinstance(v, K) and v.v is None:
                if isinstance(w, T):
                    if w.hint is not None and w.hint not in ('opt',):
                        return [(st, False)]
                    return self.split_term(st, ('isnone', w), anyimp(w))
                return [(st, False)]
        x, y = num(a), num(b)
        if x is not None and y is not None:
            return self.split_int(st, ('eq', x - y))
        ca, cb = self.cnum(a), self.cnum(b)
        if ca is not None and cb is not None:
            return [(st, ca == cb)]
        if isinstance(a, K) and isinstance(b, K):
            return [(st, a.v == b.v)]
        ba, bb = self.as_bytes(st, a), self.as_bytes(st, b)
        if ba is not None and bb is not None:
            if ba == bb:
                return [(st, True)]
            if st.facts.decide('eq', ba.length() - bb.length()) is False:
                return [(st, False)]
            r = self.bytes_equal(st, ba, bb)
            if r is not None:
                return r
            p, q = (ba, bb) if repr(ba) <= repr(bb) else (bb, ba)
            return self.split_term(st, ('eq', p, q), anyimp(ba, bb))
        if is_str(a) and is_str(b):
            if isinstance(a, St) and isinstance(b, K) or isinstance(a, K) and isinstance(b, St):
                s_, k_ = (a, b.v) if isinstance(a, St) else (b, a.v)
                if isinstance(s_.parts[0], str) and not k_.startswith(s_.parts[0][:len(k_)]) or \
                        isinstance(s_.parts[0], str) and len(s_.parts[0]) > len(k_):
                    return [(st, False)]
                if len(s_.parts) == 1 and s_.parts[0][0] == 'f' and isinstance(s_.parts[0][2], N):
                    try:
                        return self.split_int(st, ('eq', s_.parts[0][2].l - int(k_)))
                    except ValueError:
                        return [(st, False)]
        elif (is_str(a) and (ba is not None or bb is not None)) or (is_str(b) and (ba is not None or bb is not None)):
            if not (isinstance(a, T) or isinstance(b, T)):
                return [(st, False)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.get(a.oid), st.get(b.oid)
            if not ident and oa.kind == 'inst':
                ca = self.class_attr(st, oa.cls, '__eq__')
                if ca is not None and isinstance(ca[0], Fn):
                    outs = []
                    for s, r in self.call(st, BM(a, ca[0]), [b], {}, fr, node):
                        outs.extend([(s, r)] if isinstance(r, Exc) else self.truth(s, r, fr, node))
                    return outs
            if not ident and oa.kind == ob.kind == 'cells':
                # the same length and, by chance, the same values
                outs = []
                for s, r in self.split(st, ('eq', at_idx(oa.n, a.idx) - at_idx(ob.n, b.idx))):
                    outs.extend(self.split_term(s, ('eq', a, b)) if r else [(s, False)])
                return outs
            if a.oid == b.oid and len(a.idx) == len(b.idx):
                lits = [('eq', p - q) for p, q in zip(a.idx, b.idx)]
                outs = []
                cur = st
                for l in lits:
                    nxt = None
                    for s, r in self.split(cur, l):
                        if r:
                            nxt = s
                        else:
                            outs.append((s, False))
                    if nxt is None:
                        return outs
                    cur = nxt
                return outs + [(cur, True)]
            if ident:
                return [(st, False)]
            if oa.kind == ob.kind == 'list':
                return self.seq_equal(st, Sq(oa.segs), Sq(ob.segs), fr, node)
            return [(st, False)]
        if isinstance(a, Sq) and isinstance(b, Sq):
            return self.seq_equal(st, a, b, fr, node)
        if isinstance(a, T) or isinstance(b, T):
            la, lb = self.intlin2(a), self.intlin2(b)
            if la is not None and lb is not None:
                return self.split_int(st, ('eq', la - lb))
            p, q = (a, b) if repr(a) <= repr(b) else (b, a)
            return self.split_term(st, ('eq', p, q), anyimp(a, b))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return [(st, a.path == b.path)]
        if isinstance(a, St) or isinstance(b, St):
            if is_str(a) and is_str(b):
                p, q = (a, b) if repr(a) <= repr(b) else (b, a)
                return self.split_term(st, ('eq', p, q), anyimp(a, b))
        return [(st, False)]

    def bytes_equal(self, st, a, b):
        n, m = a.length(), b.length()
        if not (n.is_const and m.is_const) or n != m or n.c > 8:
            return None
        outs = []
        cur = st
        x = bs_int(a, ZERO, n.c, False, '>', st.facts)
        y = bs_int(b, ZERO, n.c, False, '>', st.facts)
        if x is None or y is None:
            return None
        return self.split_int(st, ('eq', x - y))

    def seq_equal(self, st, a, b, fr, node):
        ia, ib = a.items(), b.items()
        if ia is None or ib is None:
            if st.facts.decide('eq', a.length() - b.length()) is False:
                return [(st, False)]
            p, q = (a, b) if repr(a) <= repr(b) else (b, a)
            return self.split_term(st, ('eq', p, q), anyimp(a, b))
        if len(ia) != len(ib):
            return [(st, False)]
        outs = []
        cur = [st]
        for x, y in zip(ia, ib):
            nxt = []
            for s in cur:
                for s2, r in self.equal(s, x, y, False, fr, node):
                    if isinstance(r, Exc) or not r:
                        outs.append((s2, r))
                    else:
                        nxt.append(s2)
            cur = nxt
        return outs + [(s, True) for s in cur]

    # ------------------------------------------------------------ text
    def fmt_part(self, st, spec, v):
        spec = spec.lstrip(':')
        if spec in ('s', 'd', 'i', '') and isinstance(v, N) and v.l.is_const:
            return (str(v.l.c),)
        if isinstance(v, N) and v.l.is_const and spec[-1:] in ('d', 'x', 'X', 'o'):
            try:
                return (('%' + spec) % v.l.c,)
            except (TypeError, ValueError):
                pass
        if spec in ('s', ''):
            if isinstance(v, K):
                return (str(v.v),)
            if is_str(v):
                return str_parts(v)
            if isinstance(v, N):
                return (('f', 'd', v),)
            return (('f', 's', self.str_value(st, v)),)
        if spec in ('d', 'i') and isinstance(v, N):
            return (('f', 'd', v),)
        return (('f', spec, v if isinstance(v, V) else unk()),)

    def str_value(self, st, v):
        if isinstance(v, Ref):
            return T('str', (v,), 'str')
        return v

    def percent(self, st, a, b, fr, node):
        fmt = kstr(a)
        if fmt is None:
            return [(st, T('strfmt', (a, b) if isinstance(b, V) else (a,), 'str', anyimp(a, b)))]
        if isinstance(b, Sq) and b.kind == 'tuple':
            args = b.items()
            if args is None:
                return [(st, T('strfmt', (a, b), 'str', anyimp(b)))]
        else:
            args = [b]
        parts = []
        i = 0
        k = 0
        err = False
        while i < len(fmt):
            c = fmt[i]
            if c != '%':
                parts.append(c)
                i += 1
                continue
            j = i + 1
            if j < len(fmt) and fmt[j] == '%':
                parts.append('%')
                i = j + 1
                continue
            if j < len(fmt) and fmt[j] == '(':
                return [(st, T('strfmt', (a,), 'str', True))]
            while j < len(fmt) and fmt[j] in '#0- +.123456789lhL':
                j += 1
            if j >= len(fmt):
                return [self.raise_(st, 'ValueError')]
            spec = fmt[i + 1:j + 1]
            if k >= len(args):
                return [self.raise_(st, 'TypeError', K('not enough arguments for format string'))]
            v = args[k]
            k += 1
            if spec[-1] in 'dixXo':
                if isinstance(v, K) and not isinstance(v.v, (bool, float)) or isinstance(v, (Bs, Sq, St)):
                    return [self.raise_(st, 'TypeError', K('%d format: a number is required'))]
                if isinstance(v, Ref) and st.get(v.oid).kind != 'inst':
                    return [self.raise_(st, 'TypeError')]
                if isinstance(v, T) and v.hint == 'str':
                    err = True
            parts.extend(self.fmt_part(st, spec, v))
            i = j + 1
        if k < len(args) and not (len(args) == 1 and k == 0 and isinstance(args[0], Ref)):
            return [self.raise_(st, 'TypeError', K('not all arguments converted'))]
        if err:
            return [self.raise_(st, 'TypeError')]
        return [(st, mkstr(parts))]

    def str_format(self, st, fmt, args, kw):
        parts = []
        i = 0
        auto = 0
        while i < len(fmt):
            c = fmt[i]
            if c in '{}' and i + 1 < len(fmt) and fmt[i + 1] == c:
                parts.append(c)
                i += 2
                continue
            if c != '{':
                parts.append(c)
                i += 1
                continue
            j = fmt.find('}', i)
            if j < 0:
                return [self.raise_(st, 'ValueError')]
            f = fmt[i + 1:j]
            name, _, spec = f.partition(':')
            name, _, conv = name.partition('!')
            v = None
            if name == '':
                name = str(auto)
                auto += 1
            if name.isdigit():
                if int(name) >= len(args):
                    return [self.raise_(st, 'IndexError')]
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                v = unk('fmtarg') if '.' in name or '[' in name else None
                if v is None:
                    return [self.raise_(st, 'KeyError')]
            parts.extend(self.fmt_part(st, spec or 's', v))
            i = j + 1
        return [(st, mkstr(parts))]

    def split_parts(self, parts, sep):
        """tokens of a string of parts split at the one-character separator"""
        toks = [[]]
        for p in parts:
            if isinstance(p, str):
                ps = p.split(sep)
                toks[-1].append(ps[0])
                for x in ps[1:]:
                    toks.append([x])
            elif p[0] == 'srep':
                return None
            else:
                toks[-1].append(p)
        return [mkstr(t) for t in toks]

    def text_cut(self, v, sep, most=None):
        """a formatted text split at sep, found in its literal parts only; None when a part may contain it"""
        if not sep or any(c.isdigit() or c == '-' for c in sep) or any(not isinstance(p, str) and (p[0] != 'f' or not isinstance(p[2], N)) for p in v.parts):
            return None
        toks, n = [[]], 0
        for p in v.parts:
            if not isinstance(p, str):
                toks[-1].append(p)
                continue
            ps = p.split(sep) if most is None else p.split(sep, most - n) if most > n else [p]
            n += len(ps) - 1
            toks[-1].append(ps[0])
            toks.extend([x] for x in ps[1:])
        return [mkstr(t) for t in toks]

    def text_slice(self, st, v, lo, hi):
        """v[lo:hi] with constant bounds in the literal text at its ends, or None"""
        parts = list(v.parts)
        if lo:
            if lo < 0 or not isinstance(parts[0], str) or len(parts[0]) < lo:
                return None
            parts[0] = parts[0][lo:]
        if hi is not None:
            if hi >= 0 or not isinstance(parts[-1], str) or len(parts[-1]) < -hi:
                return None
            parts[-1] = parts[-1][:hi]
        return mkstr(parts)

    def str_method(self, st, v, name, args, kw, fr, node):
        k = kstr(v)
        if name == 'format' and k is not None:
            if any(not isinstance(a, V) for a in args):
                return [(st, T('strfmt', (v,), 'str', True))]
            return self.str_format(st, k, args, kw)
        if name == 'join':
            outs = []
            for s, q in self.as_seq(st, args[0], fr, node):
                if isinstance(q, Exc):
                    outs.append((s, q))
                    continue
                items = q.items() if isinstance(q, Sq) else None
                if items is None:
                    if isinstance(q, Sq) and len(q.segs) == 1 and k == '' and all(kstr(x) is not None for x in q.segs[0][3]):
                        outs.append((s, mkstr((('rep', q.segs[0][2], ''.join(x.v for x in q.segs[0][3])),))))
                    else:
                        outs.append((s, T('join', (v, q), 'str', anyimp(q))))
                    continue
                parts = []
                bad = False
                for i, x in enumerate(items):
                    if not is_str(x) and not isinstance(x, T):
                        bad = True
                        break
                    if i:
                        parts.extend(str_parts(v))
                    parts.extend(str_parts(x))
                outs.append(self.raise_(s, 'TypeError') if bad else (s, mkstr(parts)))
            return outs
        if name == 'encode':
            if k is not None:
                return [(st, BL(k.encode('utf-8')))]
            t = self.text_bytes(v)
            return [(st, t if t is not None else T('enc', (v,), 'bytes', anyimp(v)))]
        cargs = []
        for a in args:
            if isinstance(a, K):
                cargs.append(a.v)
            elif isinstance(a, N) and a.l.is_const:
                cargs.append(a.l.c)
            else:
                cargs = None
                break
        if k is not None and cargs is not None and not kw and hasattr(k, name):
            try:
                r = getattr(k, name)(*cargs)
            except Exception as e:
                return [self.raise_(st, e.__class__.__name__ if ('B:' + e.__class__.__name__) in self.base else 'Exception')]
            return [(st, self.from_py(st, r))]
        if name in ('strip', 'rstrip', 'lstrip') and isinstance(v, St):
            parts = list(v.parts)
            ch = cargs[0] if cargs else None
            if name != 'rstrip' and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(ch)
            if name != 'lstrip' and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(ch)
            return [(st, mkstr(parts))]
        if name == 'split' and isinstance(v, St) and cargs and len(cargs) == 1 and isinstance(cargs[0], str) and len(cargs[0]) == 1:
            t = self.split_parts(v.parts, cargs[0])
            if t is not None:
                return [(st, st.new(ListO(tuple(('item', x) for x in t)), 'list'))]
        if name in ('split', 'rsplit', 'partition') and isinstance(v, St) and cargs and isinstance(cargs[0], str) and not kw and \
                (len(cargs) == 1 or name == 'split' and isinstance(cargs[1], int) and cargs[1] > 0):
            t = self.text_cut(v, cargs[0], 1 if name == 'partition' else cargs[1] if len(cargs) > 1 else None)
            if t is not None:
                if name == 'partition':
                    return [(st, Tup(*(t if len(t) == 1 else [t[0], K(cargs[0]), t[1]]) + ([K('')] * 2 if len(t) == 1 else [])))]
                return [(st, st.new(ListO(tuple(('item', x) for x in t)), 'list'))]
        if name == 'split' and isinstance(v, St) and not cargs:
            t = self.split_parts(v.parts, ' ')
            if t is not None:
                return [(st, st.new(ListO(tuple(('item', x) for x in t if x != K(''))), 'list'))]
        if name in ('split', 'rsplit', 'splitlines'):
            b = mkatom('bv', (0,), 0)
            key = (v, K(name)) + tuple(a for a in args if isinstance(a, V))
            n = lin(mkatom('nsplit', key, 0, None))
            segs = (('item', T('tok', key + (N(0),), 'str', anyimp(v))),
                    ('rep', b, n, (T('tok', key + (N(lin(b) + 1),), 'str', anyimp(v)),)))
            return [(st, st.new(ListO(segs), 'list'))]
        if name in ('find', 'index') and isinstance(v, St) and cargs and isinstance(v.parts[0], str) and isinstance(cargs[0], str):
            if v.parts[0].startswith(cargs[0]):
                return [(st, N(0))]
            n = len(v.parts[0])
            if cargs[0] not in v.parts[0] and not v.parts[0].startswith(cargs[0][:n]):
                # cannot be at 0; anywhere else is unknown
                return [(st, N(lin(mkatom('find', (v, K(cargs[0])), -1, None)))) if False else
                        (st, N(sym(fresh('find'), 1, None)))] if name == 'index' else self.find_unknown(st, v, cargs[0])
        if name == 'startswith' and isinstance(v, St) and cargs and isinstance(v.parts[0], str) and isinstance(cargs[0], str):
            p, c = v.parts[0], cargs[0]
            if p.startswith(c):
                return [(st, TRUE)]
            if not c.startswith(p) or len(p) >= len(c):
                return [(st, FALSE)]
        if name == 'endswith' and isinstance(v, St) and cargs and isinstance(cargs[0], str):
            p, c = v.parts[-1], cargs[0]
            if isinstance(p, str):
                if p.endswith(c):
                    return [(st, TRUE)]
                if not c.endswith(p) or len(p) >= len(c):
                    return [(st, FALSE)]
            elif p[0] == 'f' and isinstance(p[2], N) and p[1] in ('s', 'd') and c and not c[-1].isdigit():
                return [(st, FALSE)]
        if name in ('find', 'rfind', 'count'):
            return [(st, N(lin(mkatom('find', (v,) + tuple(a for a in args if isinstance(a, V)), -1, None))))]
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace'):
            return [(s, K(b)) for s, b in self.split_term(st, ('str' + name, v) + tuple(args), anyimp(v))]
        if name in ('partition', 'rpartition'):
            return [(st, Tup(*[T('part', (v, N(i)) + tuple(args), 'str', anyimp(v)) for i in range(3)]))]
        if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'format', 'decode', 'title', 'ljust', 'rjust', 'zfill'):
            return [(st, T('str.' + name, (v,) + tuple(a for a in args if isinstance(a, V)), 'str', anyimp(v)))]
        return [self.raise_(st, 'AttributeError', K(name))]

    def text_bytes(self, v):
        """the encoding of a formatted text: one piece per part"""
        if not isinstance(v, St):
            return None
        segs = []
        for p in v.parts:
            if isinstance(p, str):
                segs.append(('lit', p.encode('utf-8')))
            elif p[0] == 'f' and isinstance(p[2], (N, T)):
                name = 'txt:%r' % (p,)
                if not hasattr(self, '_texts'):
                    self._texts = {}
                self._texts[name] = p
                n = lin(mkatom('tlen', (K(repr(p)),), 1 if isinstance(p[2], N) else 0, None))
                segs.append(('u', name, n, ()))
            else:
                return None
        return Bs(segs)

    def bytes_text(self, b):
        """the text such bytes are the encoding of, or None"""
        parts = []
        t = getattr(self, '_texts', {})
        for g in b.segs:
            if g[0] == 'lit':
                parts.append(g[1].decode('latin-1'))
            elif g[0] == 'u' and g[1] in t:
                parts.append(t[g[1]])
            else:
                return None
        return mkstr(parts)

    def find_unknown(self, st, v, c):
        """position of c in a formatted text: not at 0"""
        a = lin(mkatom('find', (v, K(c)), -1, None))
        f = st.facts.add('ne', a)
        return [(st.with_facts(f) if f is not None else st, N(a))]

    def from_py(self, st, r):
        if isinstance(r, bool) or r is None or isinstance(r, (str, float)):
            return K(r)
        if isinstance(r, int):
            return N(r)
        if isinstance(r, bytes):
            return BL(r)
        if isinstance(r, list):
            return st.new(ListO(tuple(('item', self.from_py(st, x)) for x in r)), 'list')
        if isinstance(r, tuple):
            return mkseq([self.from_py(st, x) for x in r])
        return unk('py')

    # ------------------------------------------------------------ struct
    def parse_fmt(self, v):
        """(endian, [(count Lin, [codes])]) or None"""
        if isinstance(v, Bs) and v.const() is not None:
            v = K(v.const().decode('latin-1'))
        if isinstance(v, K) and isinstance(v.v, str):
            parts = (v.v,)
        elif isinstance(v, St):
            parts = v.parts
        else:
            return None
        endian = '<'
        groups = []
        pend = None
        first = True
        for p in parts:
            if isinstance(p, str):
                i = 0
                while i < len(p):
                    c = p[i]
                    i += 1
                    if first and c in '<>!=@':
                        endian = '>' if c in '>!' else '<'
                        first = False
                        continue
                    first = False
                    if c.isspace():
                        continue
                    if c.isdigit():
                        if isinstance(pend, Lin):
                            return None
                        pend = (pend or 0) * 10 + int(c)
                        continue
                    if c not in CODES and c not in FLOATS and c not in 'sxc':
                        return 'bad'
                    n = ONE if pend is None else lin(pend)
                    pend = None
                    groups.append((n, [c]))
            elif p[0] == 'rep':
                if any(c not in CODES for c in p[2]):
                    return None
                groups.append((p[1], list(p[2])))
                first = False
            elif p[0] == 'f' and isinstance(p[2], N) and pend is None:
                pend = p[2].l
                first = False
            else:
                return None
        if pend is not None:
            return 'bad'
        return endian, groups

    def fmt_size(self, f):
        n = ZERO
        for c, codes in f[1]:
            w = sum(1 if x in 'sxc' else CODES[x][0] if x in CODES else FLOATS[x] for x in codes)
            n = n + c.scale(w)
        return n

    def nonneg_counts(self, st, f):
        """[(state, ok)]: formats with a negative count are bad"""
        cur = st
        outs = []
        for c, _ in f[1]:
            if st.facts.entails_ge(c):
                continue
            nxt = None
            for s, ok in self.split_int(cur, ('ge', c)):
                if ok:
                    nxt = s
                else:
                    outs.append((s, False))
            if nxt is None:
                return outs
            cur = nxt
        return outs + [(cur, True)]

    def struct_size(self, st, fmt):
        """[(state, Lin | Exc)]"""
        f = self.parse_fmt(fmt)
        if f == 'bad':
            return [self.raise_(st, 'struct.error')]
        if f is None:
            if not isinstance(fmt, (T, St)):
                return [self.raise_(st, 'TypeError')]
            n = lin(mkatom('calcsize', (fmt,), 0, None, deps=depsx(fmt)))
            e = st.fork()
            e.facts = e.facts.add_raw(('bool', ('badfmt', fmt), True)) if e.facts.bools.get(('badfmt', fmt)) is None else e.facts
            if st.facts.bools.get(('badfmt', fmt)) is False:
                return [(st, n)]
            ok = st.assume(('bool', ('badfmt', fmt), False))
            return [(ok, n), (e, self.exc(e, 'struct.error'))]
        return [(s, self.fmt_size(f) if ok else self.exc(s, 'struct.error')) for s, ok in self.nonneg_counts(st, f)]

    def range_split(self, st, l, size, signed):
        """[(state, in range?)]"""
        n = 8 * size
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        outs = []
        for s, ok in self.split_int(st, ('ge', l - lo)):
            if not ok:
                outs.append((s, False))
                continue
            outs.extend(self.split_int(s, ('ge', Lin(hi) - l)))
        return outs

    def struct_pack(self, st, fmt, args, fr, node):
        f = self.parse_fmt(fmt)
        if f == 'bad':
            return [self.raise_(st, 'struct.error')]
        if f is None:
            outs = []
            for s, n in self.struct_size(st, fmt):
                if isinstance(n, Exc):
                    outs.append((s, n))
                    continue
                q = Sq(self.splat(args))
                e = s.fork()
                e.facts = e.facts.add_raw(('bool', ('packerr', fmt, q), True))
                outs.append((e, self.exc(e, 'struct.error')))
                ok = s.assume(('bool', ('packerr', fmt, q), False))
                if ok is not None:
                    outs.append((ok.fork(), Bs((('u', 'pack(%r,%r)' % (fmt, q), n, tuple(sorted(depsx(fmt) | depsx(q)))),))))
            return outs
        endian, groups = f
        q = Sq(self.splat(args))
        need = ZERO
        for c, codes in groups:
            need = need + (c.scale(len([x for x in codes if x != 'x'])) if codes[0] != 's' else ONE)
        outs = []
        for s0, ok0 in self.nonneg_counts(st, f):
            if not ok0:
                outs.append((s0, self.exc(s0, 'struct.error')))
                continue
            for s, ok in self.split_int(s0, ('eq', q.length() - need)):
                if not ok:
                    outs.append(self.raise_(s, 'struct.error'))
                    continue
                cur = [(s, ())]
                pos = ZERO
                for c, codes in groups:
                    nxt = []
                    for s2, segs in cur:
                        nxt.extend(self.pack_group(s2, segs, endian, c, codes, q, pos, fr, node))
                    cur = []
                    for s2, segs in nxt:
                        if isinstance(segs, Exc):
                            outs.append((s2, segs))
                        else:
                            cur.append((s2, segs))
                    pos = pos + (c.scale(len([x for x in codes if x != 'x'])) if codes[0] != 's' else ONE)
                outs.extend((s2, Bs(segs)) for s2, segs in cur)
        return outs

    def pack_group(self, st, segs, endian, c, codes, q, pos, fr, node):
        if codes[0] == 'x':
            return [(st, segs + (('rep', mkatom('bv', (0,), 0), c, (('lit', b'\0'),)),))]
        if codes[0] == 's':
            v = seq_elem(q, pos, st.facts)
            b = self.as_bytes(st, v) if v is not None else None
            if b is not None and b.length() == c:
                return [(st, segs + b.segs)]
            return [(st, segs + imp_bs((), c).segs)]
        if c.is_const and c.c * len(codes) <= 32:
            cur = [(st, segs)]
            i = 0
            for _ in range(c.c):
                for code in codes:
                    nxt = []
                    for s, sg in cur:
                        if isinstance(sg, Exc):
                            nxt.append((s, sg))
                            continue
                        v = seq_elem(q, pos + i, s.facts)
                        nxt.extend(self.pack_one(s, sg, endian, code, v))
                    cur = nxt
                    i += 1
            return cur
        # one repeated group of the arguments
        k = mkatom('pk', (fresh('pk'),), 0)
        kl = lin(k)
        f = st.facts.add_all([('ge', kl), ('ge', c - kl - 1)])
        if f is None:
            return [(st, segs)]
        inner = []
        bad = []
        for i, code in enumerate(codes):
            v = seq_elem(q, pos + kl.scale(len(codes)) + i, f)
            l = self.intlin(v) if v is not None else None
            if code not in CODES or l is None:
                return [(st, segs + imp_bs((), c.scale(sum(CODES.get(x, (1,))[0] for x in codes))).segs)]
            size, signed = CODES[code]
            n = 8 * size
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            if not (f.entails_ge(l - lo) and f.entails_ge(Lin(hi) - l)):
                bad.append((l, lo, hi))
            inner.append(('pk', size, endian, l))
        outs = []
        for l, lo, hi in bad:
            # some element out of range
            e = st.fork()
            f2 = e.facts.add_all([('ge', kl), ('ge', c - kl - 1)])
            for lit in (('ge', Lin(lo) - l - 1), ('ge', l - hi - 1)):
                f3 = f2.add_literal(lit)
                if f3 is not None:
                    e2 = st.fork()
                    e2.facts = f3
                    outs.append((e2, self.exc(e2, 'struct.error')))
        ok = st.fork() if bad else st
        outs.append((ok, segs + (('rep', k, c, tuple(inner)),)))
        return outs

    def pack_one(self, st, segs, endian, code, v):
        if v is None:
            return [(st, segs + imp_bs((), Lin(CODES[code][0] if code in CODES else FLOATS.get(code, 1))).segs)]
        if code in FLOATS or code == 'c':
            return [(st, segs + (('u', 'fl(%r)' % (v,), Lin(FLOATS.get(code, 1)), ()),))]
        if isinstance(v, (Bs, Sq, St)) or (isinstance(v, K) and not isinstance(v.v, bool)) or \
                (isinstance(v, T) and v.hint in ('str', 'float', 'bytes')) or isinstance(v, Ref):
            return [self.raise_(st, 'struct.error')]
        l = self.intlin(v)
        if l is None:
            return [self.raise_(st, 'struct.error')]
        size, signed = CODES[code]
        outs = []
        for s, ok in self.range_split(st, l, size, signed):
            if ok:
                outs.append((s, segs + (('pk', size, endian, l),)))
            else:
                outs.append(self.raise_(s, 'struct.error'))
        return outs

    def struct_unpack(self, st, fmt, data, fr, node, off=None):
        if isinstance(data, T) and data.hint is None:
            return [(st, T('unpack', (fmt, data), None, anyimp(fmt, data)))]
        b = self.as_bytes(st, data)
        if b is None:
            return [self.raise_(st, 'TypeError', K('a bytes-like object is required'))]
        f = self.parse_fmt(fmt)
        outs = []
        for s0, n in self.struct_size(st, fmt):
            if isinstance(n, Exc):
                outs.append((s0, n))
                continue
            if off is None:
                conds = self.split_int(s0, ('eq', b.length() - n))
            else:
                conds = self.split_int(s0, ('ge', b.length() - off - n))
            for s, ok in conds:
                if not ok:
                    outs.append(self.raise_(s, 'struct.error'))
                    continue
                if f is None:
                    outs.append((s, T('unpack', (fmt, b), 'tuple', anyimp(fmt, b))))
                    continue
                endian, groups = f
                pos = off if off is not None else ZERO
                segs = []
                for c, codes in groups:
                    w = sum(1 if x in 'sxc' else CODES[x][0] if x in CODES else FLOATS[x] for x in codes)
                    if codes[0] == 's':
                        segs.append(('item', bs_region(b, pos, pos + c, s.facts)))
                    elif codes[0] == 'x':
                        pass
                    elif c.is_const and c.c * len(codes) <= 32:
                        p = pos
                        for _ in range(c.c):
                            for code in codes:
                                segs.append(('item', self.unpack_one(s, b, p, endian, code)))
                                p = p + (CODES[code][0] if code in CODES else FLOATS.get(code, 1))
                    else:
                        k = mkatom('pk', (fresh('pk'),), 0)
                        kl = lin(k)
                        fa = s.facts.add_all([('ge', kl), ('ge', c - kl - 1)])
                        vals = []
                        if fa is not None:
                            s2 = s.with_facts(fa)
                            p = pos + kl.scale(w)
                            for code in codes:
                                vals.append(self.unpack_one(s2, b, p, endian, code))
                                p = p + (CODES[code][0] if code in CODES else FLOATS.get(code, 1))
                            segs.append(('rep', k, c, tuple(vals)))
                    pos = pos + c.scale(w)
                outs.append((s, Sq(segs)))
        return outs

    def unpack_one(self, s, b, p, endian, code):
        if code in FLOATS or code == 'c':
            return T('float', (b, N(p)), 'float', anyimp(b))
        size, signed = CODES[code]
        v = bs_int(b, p, size, signed, endian, s.facts)
        if v is None:
            n = 8 * size
            return N(sym(fresh('imp'), -(1 << (n - 1)) if signed else 0, (1 << (n - 1)) - 1 if signed else (1 << n) - 1))
        return N(v)

    # ------------------------------------------------------------ library names
    def ext_const(self, path):
        if path == 'sys.version_info':
            return Sq(tuple(('item', N(x)) for x in (3, 12, 3)) + (('item', K('final')), ('item', N(0))))
        if path == 'sys.version_info.major':
            return N(3)
        if path in ('os.name',):
            return K('posix')
        if path == 'sys.platform':
            return K('linux')
        if path == 'sys.byteorder':
            return K('little')
        e = EXC_ALIAS.get(path)
        if e:
            return Ref('B:' + e)
        return Ext(path)

    def ext_attr(self, st, o, ob, name, fr, node):
        if name == 'name' and ob.typ.startswith('serial'):
            return [(st, T('attr', (o, K(name)), 'str'))]
        if ob.typ == 'struct.Struct' and name == 'size':
            return [(s, n if isinstance(n, Exc) else N(n)) for s, n in self.struct_size(st, ob.args[0])]
        if ob.typ == 'serial' and name == 'in_waiting':
            if self.cfg.data.get('peer') is not None:
                r = self.cfg.data['peer'](self, st, o, name, (), {}, fr, node)
                if r is not None:
                    return r
            u = sym(fresh('waiting'), 0, None)
            self.emit(st, 'io', fr, node, op='in_waiting', recv=o, args=(), ret=N(u))
            return self.io_fault(st, [(st, N(u))], 'in_waiting', o, fr, node)
        if ob.typ == 'serial' and name in ('timeout', 'is_open', 'baudrate', 'inter_byte_timeout'):
            return [(st, T('attr', (o, K(name))))]
        return [(st, ExtM(o, name))]

    def term_attr(self, st, o, name, fr, node):
        return [(st, T('attr', (o, K(name)), None, o.imp) if o.hint not in ('socket', 'str', 'bytes', 'obj') else ExtM(o, name))]

    def io_fault(self, st, outs, op, recv, fr, node):
        """add a failing outcome when the configuration asks for input/output faults"""
        fl = self.cfg.faults
        if not ('io' in fl and op not in ('close', 'fileno', 'settimeout', 'setblocking', 'flushed') or ('io:' + op) in fl):
            return outs
        e = st.fork()
        x = self.any_exc(e, '$AnyIO')
        self.emit(e, 'iofail', fr, node, op=op, recv=recv, exc=x.v)
        return outs + [(e, x)]

    def io(self, st, op, recv, args, ret, fr, node):
        base = st.fork()
        s = st.fork()
        if self.cfg.data.get('deaf') and op in ('send', 'sendall', 'write'):
            s.setext(('sent',), K(True))
        self.emit(s, 'io', fr, node, op=op, recv=recv, args=tuple(self.snap(s, a) for a in args), ret=ret)
        return self.io_fault(base, [(s, ret)], op, recv, fr, node)

    # ------------------------------------------------------------ sockets and serial ports
    def stream_read(self, st, recv, n, fr, node, op, peek=False):
        """recv(n)/read(n): r bytes of the stream, 0 <= r <= n"""
        if self.cfg.data.get('deaf') and st.getext(('sent',)) is not None and not peek:
            # nothing is received any more once something has been sent
            s = st.fork()
            return [self.raise_(s, 'OSError')]
        key = ('pos', recv)
        pos = st.getext(key)
        p = pos.l if pos is not None else ZERO
        base = 'in(%r)' % (recv,)
        outs = []
        link = self.cfg.data.get('link')
        if link is not None:
            return self.link_read(st, recv, n, fr, node, op, peek, link.get(recv, link.get(None)), p, key, base)
        limit = self.cfg.data.get('silent')
        if limit is not None:
            # the link gives one byte at a time, limit bytes in all, and is closed or silent afterwards
            s = st.fork()
            got = p.is_const and p.c < limit
            if not got and self.cfg.data.get('mute') and op in ('recv', 'peek'):
                # a socket with a time limit
                x = self.exc(s, self.cfg.data['mute'])
                self.emit(s, 'iofail', fr, node, op=op, recv=recv, exc=x.v)
                return [(s, x)]
            r = Bs((('sl', base, p, ONE),)) if got else Bs()
            self.emit(s, 'io', fr, node, op=op, recv=recv, args=(N(n) if n is not None else NONE,), ret=r)
            if got and not peek:
                s.setext(key, N(p + 1))
            return [(s, r)]
        if n is not None and n == ONE:
            tok = self.rdtok(st, recv, peek)
            for s, got in self.split(st, ('bool', tok, True)):
                s = s.fork()
                r = Bs((('sl', base, p, ONE),)) if got else Bs()
                self.emit(s, 'io', fr, node, op=op, recv=recv, args=(N(n),), ret=r)
                if got and not peek:
                    s.setext(key, N(p + 1))
                outs.append((s, r))
        else:
            l = sym(fresh('nread'), 0, None)
            s = st.fork()
            s.facts = s.facts.add_raw(('ge', l))
            if n is not None:
                f = s.facts.add('ge', n - l)
                if f is not None:
                    s.facts = f
            r = Bs((('sl', base, p, l),))
            self.emit(s, 'io', fr, node, op=op, recv=recv, args=(N(n) if n is not None else NONE,), ret=r)
            if not peek:
                s.setext(key, N(p + l))
            outs.append((s, r))
        return self.io_fault(st.fork(), outs, op, recv, fr, node)

    def link_read(self, st, recv, n, fr, node, op, peek, how, p, key, base):
        """a scripted link: (bytes in all, bytes given by one read or None for all that is asked, what comes after them)"""
        if st.getext(('closed', recv)) is not None:
            return [self.raise_(st, 'OSError')]
        if op == 'read' and isinstance(recv, Ref) and dict(st.get(recv.oid).attrs).get('is_open') == FALSE:
            return [self.raise_(st, 'serial.SerialException')]
        limit, chunk, end = how
        avail = limit - p
        s = st.fork()
        hi = s.facts.interval(avail, 1 << 17)[1] if not avail.is_const else avail.c
        lo = s.facts.interval(avail, 1 << 17)[0] if not avail.is_const else avail.c
        if hi is not None and hi <= 0:
            if end == 'stall':
                e = s
                x = self.exc(e, 'TimeoutError' if op in ('recv', 'peek') else 'serial.SerialException')
                self.emit(e, 'iofail', fr, node, op=op, recv=recv, exc=x.v)
                return [(e, x)]
            r = Bs()
            self.emit(s, 'io', fr, node, op=op, recv=recv, args=(N(n) if n is not None else NONE,), ret=r)
            return [(s, r)]
        m = Lin(chunk) if chunk is not None else (n if n is not None else avail)
        if n is not None and chunk is not None and s.facts.decide_literal(('ge', n - m)) is not True:
            m = n
        if lo is None or not s.facts.entails_ge(avail - m):
            m = avail
        if not m.is_const:
            i = s.facts.interval(m, 1 << 17)
            if i[0] is not None and i[0] == i[1]:
                m = Lin(i[0])
        r = Bs((('sl', base, p, m),))
        self.emit(s, 'io', fr, node, op=op, recv=recv, args=(N(n) if n is not None else NONE,), ret=r)
        if not peek:
            s.setext(key, N(p + m))
        return self.io_fault(st.fork(), [(s, r)], op, recv, fr, node)

    def new_fd(self, s, r):
        """the lowest number that no open socket has"""
        used = [s.getext(x) for x in s.ext if isinstance(x, tuple) and x[0] == 'fd' and s.getext(('closed', x[1])) is None]
        k = 3
        while N(k) in used:
            k += 1
        s.setext(('fd', r), N(k))

    def rdtok(self, st, recv, peek):
        return ('got', recv, K(fresh('rd')))

    def sock_method(self, st, o, name, args, kw, fr, node):
        f = self.cfg.data.get('peer')
        if f is not None:
            r = f(self, st, o, name, args, kw, fr, node)
            if r is not None:
                return r
        if name == '__enter__':
            return [(st, o)]
        if name == '__exit__':
            name, args = 'close', ()
        if name == 'recv':
            n = num(args[0]) if args else None
            peek = len(args) > 1 and isinstance(args[1], Ext) and 'PEEK' in args[1].path
            return self.stream_read(st, o, n, fr, node, 'peek' if peek else 'recv', peek)
        if name == 'accept':
            outs = []
            s = st.fork()
            c = s.new(ExtO('socket.socket', {}, ()), 'client')
            self.new_fd(s, c)
            a = T(fresh('address'), ())
            self.emit(s, 'io', fr, node, op='accept', recv=o, args=(), ret=c)
            return self.io_fault(st.fork(), [(s, Tup(c, a))], 'accept', o, fr, node)
        if name == 'send':
            b = self.as_bytes(st, args[0]) if args else None
            if self.cfg.data.get('link') is not None and b is not None and b.length().is_const:
                # a part of it
                return self.io(st, 'send', o, args, N(min(b.length().c, 4)), fr, node)
            u = sym(fresh('sent'), 0, None)
            s = st.fork()
            if b is not None:
                f = s.facts.add_all([('ge', b.length() - u), ('ge', u)])
                if f is not None:
                    s.facts = f
            return self.io(s, 'send', o, args, N(u), fr, node)
        if name == 'close':
            s = st.fork()
            s.setext(('closed', o), TRUE)
            return self.io(s, 'close', o, args, NONE, fr, node)
        if name == 'fileno':
            fd = st.getext(('fd', o))
            if fd is not None:
                return [(st, N(-1) if st.getext(('closed', o)) is not None else fd)]
            return [(st, N(sym('fileno(%r)' % (o,), -1, None)))]
        if name in ('connect', 'connect_ex'):
            return self.io(st, 'connect', o, args, NONE, fr, node)
        if name in ('getpeername', 'getsockname'):
            return self.io(st, name, o, args, T(fresh('addr'), ()), fr, node)
        if name == 'makefile':
            return [(st, unk('file'))]
        return self.io(st, name, o, args, NONE, fr, node)

    def serial_method(self, st, o, name, args, kw, fr, node):
        ob = st.get(o.oid)
        f = self.cfg.data.get('peer')
        if f is not None:
            r = f(self, st, o, name, args, kw, fr, node)
            if r is not None:
                return r
        if name == 'read':
            a = args[0] if args else N(1)
            n = self.intlin(a)
            return self.stream_read(st, o, n, fr, node, 'read')
        if name in ('open', 'close'):
            outs = []
            for s, v in self.io(st, name, o, args, NONE, fr, node):
                if not isinstance(v, Exc):
                    x = s.get(o.oid)
                    d = dict(x.attrs)
                    d['is_open'] = K(name == 'open')
                    s.put(o.oid, x.set(attrs=d))
                outs.append((s, v))
            return outs
        if name == 'write':
            b = self.as_bytes(st, args[0]) if args else None
            if args and b is None and not isinstance(args[0], T):
                return [self.raise_(st, 'TypeError')]
            return self.io(st, 'write', o, args, N(b.length()) if b is not None else unk('n'), fr, node)
        if name == 'cancel_read' and self.cfg.data.get('switch'):
            outs = []
            for s, v in self.io(st, name, o, args, NONE, fr, node):
                outs.extend((x, v) for x in ([s] if isinstance(v, Exc) else self.switch(s.fork(), 'cancel_read')))
            return outs
        if name in ('isOpen',):
            return self.getattr_(st, o, 'is_open', fr, node)
        if name in ('inWaiting',):
            return self.getattr_(st, o, 'in_waiting', fr, node)
        return self.io(st, name, o, args, NONE, fr, node)

    # ------------------------------------------------------------ locks
    def lock_acquire(self, st, o, fr, node):
        ob = st.get(o.oid) if isinstance(o, Ref) else None
        s = st.fork()
        if ob is not None and ob.typ == 'threading.Lock' and o in s.locks:
            self.emit(s, 'deadlock', fr, node, lock=o)
        self.emit(s, 'lock', fr, node, lock=o, held=s.locks)
        s.locks = s.locks + (o,)
        return s

    def lock_release(self, st, o, fr, node):
        s = st.fork()
        self.emit(s, 'unlock', fr, node, lock=o)
        if o in s.locks:
            l = list(s.locks)
            for i in range(len(l) - 1, -1, -1):
                if l[i] == o:
                    del l[i]
                    break
            s.locks = tuple(l)
            return s, None
        return s, self.exc(s, 'RuntimeError')

    def is_lock(self, st, o):
        if isinstance(o, Ref):
            ob = st.get(o.oid)
            return ob.kind == 'ext' and ob.typ in ('threading.RLock', 'threading.Lock', 'threading.Condition', 'threading.Semaphore')
        return False

    def cm_enter(self, st, cm, fr, node):
        if self.is_lock(st, cm):
            return [(self.lock_acquire(st, cm, fr, node), TRUE)]
        if isinstance(cm, Ref):
            o = st.get(cm.oid)
            if o.kind == 'inst':
                ca = self.class_attr(st, o.cls, '__enter__')
                if ca is not None and isinstance(ca[0], Fn):
                    return self.call(st, BM(cm, ca[0]), [], {}, fr, node)
            if o.kind == 'ext':
                if o.typ == 'contextlib.closing':
                    return [(st, o.args[0])]
                if o.typ == 'contextlib.suppress':
                    return [(st, NONE)]
                if o.typ == '$gencm':
                    return self.gencm_enter(st, cm, o, fr, node)
        if not isinstance(cm, Ref):
            # what entering it does is not known
            st.flag('gencm')
        return [(st, cm)]

    def cm_exit(self, st, cm, o, fr, node):
        if self.is_lock(st, cm):
            s, e = self.lock_release(st, cm, fr, node)
            return [(s, o if e is None else ('exc', e.v))]
        if isinstance(cm, Ref):
            ob = st.get(cm.oid)
            if ob.kind == 'inst':
                ca = self.class_attr(st, ob.cls, '__exit__')
                if ca is not None and isinstance(ca[0], Fn):
                    isexc = isinstance(o, tuple) and o[0] == 'exc'
                    args = [unk('exctype'), o[1], unk('tb')] if isexc else [NONE, NONE, NONE]
                    outs = []
                    for s, v in self.call(st, BM(cm, ca[0]), args, {}, fr, node):
                        if isinstance(v, Exc):
                            outs.append((s, ('exc', v.v)))
                        elif isexc:
                            for s2, b in self.truth(s, v, fr, node):
                                outs.append((s2, None if b is True else o))
                        else:
                            outs.append((s, o))
                    return outs
            if ob.kind == 'ext':
                if ob.typ == 'contextlib.suppress' and isinstance(o, tuple) and o[0] == 'exc':
                    m = self.exc_match(st, o[1], mkseq(ob.args))
                    if m == 'yes':
                        return [(st, None)]
                    if m == 'maybe':
                        return [(st.fork(), None), (st.fork(), o)]
                    return [(st, o)]
                tgt = ob.args[0] if ob.typ == 'contextlib.closing' else cm if ob.typ == 'socket.socket' else None
                if tgt is not None:
                    outs = []
                    for s, v in self.call_method(st, tgt, 'close', [], {}, fr, node):
                        outs.append((s, ('exc', v.v) if isinstance(v, Exc) else o))
                    return outs
        return [(st, o)]

    def gencm_enter(self, st, cm, o, fr, node):
        st.flag('gencm')
        return [(st, unk('gencm'))]

    # ------------------------------------------------------------ calls of external functions
    def call_ext(self, st, path, args, kw, fr, node):
        p = path[9:] if path.startswith('builtins.') else path
        h = self.cfg.data.get('extcall')
        if h is not None:
            r = h(self, st, p, args, kw, fr, node)
            if r is not None:
                return r
        m = getattr(self, 'f_' + p.replace('.', '_').replace('$', '_'), None)
        if m is not None:
            return m(st, args, kw, fr, node)
        top = p.split('.')[0]
        if p in ('threading.RLock', 'threading.Lock', 'threading.Event', 'threading.Condition', 'threading.Semaphore', 'queue.Queue',
                 'queue.SimpleQueue', 'contextlib.closing', 'contextlib.suppress', 'struct.Struct', 'collections.deque'):
            if p == 'struct.Struct' and self.parse_fmt(args[0]) == 'bad':
                return [self.raise_(st, 'struct.error')]
            if p == 'collections.deque':
                return self.f_list(st, args[:1], {}, fr, node)
            return [(st, st.new(ExtO(p, {}, [a for a in args if isinstance(a, V)]), p.split('.')[-1]))]
        if p in ('threading.Thread', 'threading.Timer'):
            return [(st, st.new(ExtO(p, dict(('$' + k, v) for k, v in kw.items()), [a for a in args if isinstance(a, V)]), 'thread'))]
        if p == 'socket.socket' or p == 'socket.create_connection':
            s = st.fork()
            r = s.new(ExtO('socket.socket', {}, [a for a in args if isinstance(a, V)]), 'sock')
            self.new_fd(s, r)
            self.emit(s, 'io', fr, node, op=p.split('.')[-1], recv=r, args=tuple(a for a in args if isinstance(a, V)), ret=r)
            if self.cfg.data.get('peer') is not None and p.endswith('create_connection'):
                self.cfg.data['peer'](self, s, r, 'connect', args, kw, fr, node)
            return self.io_fault(st.fork(), [(s, r)], 'socket', r, fr, node)
        if p.startswith('logging.') and p[8:9].isupper() or p == 'logging.getLogger':
            return [(st, st.new(ExtO('logging', {}, ()), 'log'))]
        if p.startswith('serial.') and p[7:8].isupper():
            return [(st, st.new(ExtO('serial', {}, [a for a in args if isinstance(a, V)]), 'serial'))]
        if top in ('logging', 'warnings', 'print'):
            return [(st, NONE)]
        if p in ('sys.exit', 'exit', 'quit'):
            return [self.raise_(st, 'SystemExit')]
        if 'user' in self.cfg.faults:
            e = st.fork()
            return [(st, T(fresh(p), ())), (e, self.any_exc(e))]
        return [(st, T(fresh('ext:' + p), tuple(a for a in args if isinstance(a, V)), None, True))]

    # builtins ---------------------------------------------------
    def f_len(self, st, args, kw, fr, node):
        v = args[0]
        if isinstance(v, T) and v.op == '$view':
            v = self.view_seq(st, v, fr, node)
        if isinstance(v, Sq):
            return [(st, N(v.length()))]
        b = self.as_bytes(st, v)
        if b is not None:
            return [(st, N(b.length()))]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if o.kind == 'list':
                self.acc(st, v, 'len', fr, node)
                return [(st, N(Sq(at_segs(o.segs, v.idx)).length()))]
            if o.kind == 'cells':
                return [(st, N(at_idx(o.n, v.idx)))]
            if o.kind == 'dict':
                self.acc(st, v, 'len', fr, node)
                return [(st, N(self.dict_keys(st, v, o).length()))]
            if o.kind == 'set':
                return [(st, N(len(o.items)) if not o.open else N(sym(fresh('setlen'), len(o.items))))]
            if o.kind == 'inst':
                ca = self.class_attr(st, o.cls, '__len__')
                if ca is not None and isinstance(ca[0], Fn):
                    return self.call(st, BM(v, ca[0]), [], {}, fr, node)
                if not o.open:
                    return [self.raise_(st, 'TypeError')]
            return [(st, N(lin(mkatom('len', (v,), 0))))]
        if isinstance(v, K):
            if isinstance(v.v, str):
                return [(st, N(len(v.v)))]
            return [self.raise_(st, 'TypeError')]
        if isinstance(v, N):
            return [self.raise_(st, 'TypeError')]
        if isinstance(v, St):
            n = ZERO
            for i, p in enumerate(v.parts):
                if isinstance(p, str):
                    n = n + len(p)
                elif p[0] == 'rep':
                    n = n + p[1].scale(len(p[2]))
                else:
                    n = n + lin(mkatom('slen', (p,), 1 if p[1] == 'd' else 0, None))
            return [(st, N(n))]
        if isinstance(v, T):
            if v.hint in ('int', 'float'):
                return [self.raise_(st, 'TypeError')]
            return [(st, N(lin(mkatom('len', (v,), 0, None, deps=depsx(v) | (frozenset(['imp']) if v.imp else frozenset())))))]
        return [(st, impint())]

    def f_range(self, st, args, kw, fr, node):
        ls = []
        for a in args:
            l = self.intlin(a) if isinstance(a, V) else None
            if l is None:
                return [self.raise_(st, 'TypeError')]
            ls.append(l)
        lo, hi, step = (ZERO, ls[0], ONE) if len(ls) == 1 else (ls[0], ls[1], ONE) if len(ls) == 2 else tuple(ls)
        if not step.is_const or step.c == 0:
            return [(st, self.opaque_seq(unk('range')))]
        c = step.c
        d = hi - lo if c > 0 else lo - hi
        ac = abs(c)
        k = mkatom('bv', (0,), 0)
        outs = []
        for s, ok in self.split_int(st, ('ge', d - 1)):
            if not ok:
                outs.append((s, Sq((), 'range')))
            else:
                n = floordiv(d + (ac - 1), ac)
                if n.is_const and n.c <= 16:
                    outs.append((s, mkseq([N(lo + c * i) for i in range(n.c)], 'range')))
                else:
                    outs.append((s, Sq((('rep', k, n, (N(lo + lin(k).scale(c)),)),), 'range')))
        return outs
    f_xrange = f_range

    def f_isinstance(self, st, args, kw, fr, node):
        v, c = args[0], args[1]
        return [(s, K(r)) for s, r in self.inst_of(st, v, c)]

    def inst_of(self, st, v, c):
        if isinstance(c, Sq):
            outs = []
            cur = [st]
            for x in c.items() or []:
                nxt = []
                for s in cur:
                    for s2, r in self.inst_of(s, v, x):
                        if r:
                            outs.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(s, False) for s in cur]
        c = self.exc_class(c)
        name = c.path.replace('builtins.', '') if isinstance(c, Ext) else None
        if isinstance(v, T):
            h = v.hint
            if h in ('str', 'bytes', 'int', 'float', 'tuple', 'list') and name in ('str', 'bytes', 'int', 'float', 'tuple', 'list', 'bytearray', 'dict'):
                return [(st, h == name)]
            return self.split_term(st, ('isinstance', v, c), v.imp)
        if isinstance(c, Ref):
            cls = self.class_of(st, v)
            if cls is None:
                return [(st, False)]
            m = self.exc_match(st, v, c)
            if m == 'maybe':
                return [(st.fork(), True), (st.fork(), False)]
            return [(st, m == 'yes')]
        kinds = set()
        if isinstance(v, N):
            kinds = {'int', 'long', 'numbers.Integral', 'numbers.Number'}
        elif isinstance(v, K):
            kinds = {type(v.v).__name__}
            if isinstance(v.v, bool):
                kinds = {'bool', 'int'}
            if isinstance(v.v, str):
                kinds = {'str', 'basestring'}
        elif isinstance(v, St):
            kinds = {'str', 'basestring'}
        elif isinstance(v, Bs):
            kinds = {'bytes'}
        elif isinstance(v, Sq):
            kinds = {v.kind}
        elif isinstance(v, Ref):
            o = st.get(v.oid)
            kinds = {{'list': 'list', 'cells': 'list', 'dict': 'dict', 'ba': 'bytearray', 'set': 'set'}.get(o.kind, o.kind)}
            if o.kind == 'ext':
                kinds = {o.typ}
        kinds.add('object')
        return [(st, name in kinds)]

    def f_issubclass(self, st, args, kw, fr, node):
        if len(args) == 2 and isinstance(args[0], Ref) and isinstance(args[1], Ref) and all(
                st.get(a.oid).kind == 'cls' for a in args):
            m = self.mro(st, args[0])
            if args[1] in m or not any(isinstance(x, Ext) for x in m):
                return [(st, K(args[1] in m))]
        return [(s, K(b)) for s, b in self.split_term(st, ('issubclass',) + tuple(args), True)]

    def f_int(self, st, args, kw, fr, node):
        if not args:
            return [(st, N(0))]
        v = args[0]
        n = num(v)
        if n is not None:
            return [(st, N(n))]
        if isinstance(v, K):
            try:
                base = [a.l.c for a in args[1:] if isinstance(a, N)]
                return [(st, N(int(v.v, *base) if isinstance(v.v, str) else int(v.v)))]
            except (ValueError, TypeError) as e:
                return [self.raise_(st, e.__class__.__name__)]
        if isinstance(v, St) and len(v.parts) == 1 and v.parts[0][0] == 'f' and isinstance(v.parts[0][2], N):
            return [(st, v.parts[0][2])]
        if isinstance(v, (St, T)):
            if isinstance(v, T) and v.hint == 'int':
                return [(st, v)]
            l = lin(mkatom('int', (v,), deps=depsx(v) | (frozenset(['imp']) if anyimp(v) else frozenset())))
            outs = []
            for s, bad in self.split_term(st, ('notint', v), anyimp(v)):
                outs.append(self.raise_(s, 'ValueError') if bad else (s, N(l)))
            return outs
        return [self.raise_(st, 'TypeError')]
    f_long = f_int

    def f_bool(self, st, args, kw, fr, node):
        if not args:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Exc) else K(b)) for s, b in self.truth(st, args[0], fr, node)]

    def f_float(self, st, args, kw, fr, node):
        v = args[0] if args else N(0)
        c = self.cnum(v)
        if c is not None:
            return [(st, K(float(c)))]
        return [(st, T('float', (v,), 'float', anyimp(v)))]

    def f_str(self, st, args, kw, fr, node):
        if not args:
            return [(st, K(''))]
        v = args[0]
        if is_str(v):
            return [(st, v)]
        if len(args) > 1 or 'encoding' in kw:
            return self.call_method(st, v, 'decode', args[1:], kw, fr, node)
        if isinstance(v, Ref) and st.get(v.oid).kind == 'inst':
            o = st.get(v.oid)
            ca = self.class_attr(st, o.cls, '__str__')
            if ca is not None and isinstance(ca[0], Fn):
                return self.call(st, BM(v, ca[0]), [], {}, fr, node)
        return [(st, mkstr(self.fmt_part(st, 's', v)))]
    f_unicode = f_str

    def f_repr(self, st, args, kw, fr, node):
        return [(st, T('repr', tuple(args), 'str'))]

    def f_hex(self, st, args, kw, fr, node):
        return [(st, T('hex', tuple(args), 'str'))]
    f_format = f_repr

    def f_bytes(self, st, args, kw, fr, node, ba=False):
        def mk(s, b):
            if not ba:
                return s, b
            s = s.fork()
            return s, s.new(BAO(b), 'ba')
        if not args:
            return [mk(st, Bs())]
        v = args[0]
        b = self.as_bytes(st, v)
        if b is not None:
            return [mk(st, b)]
        if is_str(v):
            if len(args) < 2 and not kw:
                return [self.raise_(st, 'TypeError', K('string argument without an encoding'))]
            k = kstr(v)
            if k is not None:
                return [mk(st, BL(k.encode('utf-8')))]
            t = self.text_bytes(v)
            if t is not None:
                return [mk(st, t)]
            t = T('enc', (v,), 'bytes', anyimp(v))
            return [mk(st, self.as_bytes(st, t))] if ba else [(st, t)]
        l = num(v)
        if l is not None:
            outs = []
            for s, ok in self.split_int(st, ('ge', l)):
                outs.append(mk(s, Bs((('rep', mkatom('bv', (0,), 0), l, (('lit', b'\0'),)),))) if ok else self.raise_(s, 'ValueError'))
            return outs
        outs = []
        for s, q in self.as_seq(st, v, fr, node):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            if not isinstance(q, Sq):
                outs.append(mk(s, imp_bs(depsx(v))))
                continue
            segs = []
            bad = []
            for sg in q.segs:
                vals = (sg[1],) if sg[0] == 'item' else sg[3]
                ls = [self.intlin(x) for x in vals]
                if any(x is None for x in ls):
                    segs.append(imp_bs(depsx(v)).segs[0])
                    continue
                f = s.facts
                if sg[0] == 'rep':
                    f = f.add_all([('ge', lin(sg[1])), ('ge', sg[2] - lin(sg[1]) - 1)]) or f
                for x in ls:
                    if not (f.entails_ge(x) and f.entails_ge(Lin(255) - x)):
                        bad.append((f, x))
                inner = tuple(('pk', 1, '>', x) for x in ls)
                segs.append(inner[0] if sg[0] == 'item' else ('rep', sg[1], sg[2], inner))
            for f, x in bad:
                for lit in (('ge', -x - 1), ('ge', x - 256)):
                    f2 = f.add_literal(lit)
                    if f2 is not None:
                        e = s.fork()
                        e.facts = f2
                        outs.append((e, self.exc(e, 'ValueError')))
            ok = s.fork()
            for f, x in bad:
                if f is s.facts:
                    f3 = ok.facts.add_all([('ge', x), ('ge', Lin(255) - x)])
                    if f3 is not None:
                        ok.facts = f3
            outs.append(mk(ok, Bs(segs)))
        return outs

    def f_bytearray(self, st, args, kw, fr, node):
        return self.f_bytes(st, args, kw, fr, node, True)

    def f_memoryview(self, st, args, kw, fr, node):
        return [(st, args[0])]

    def f_ord(self, st, args, kw, fr, node):
        v = args[0]
        if kstr(v) is not None and len(v.v) == 1:
            return [(st, N(ord(v.v)))]
        b = self.as_bytes(st, v)
        if b is not None and b.length() == ONE:
            x = bs_byte(b, ZERO, st.facts)
            return [(st, N(x) if x is not None else self.imp_byte())]
        if isinstance(v, N):
            return [self.raise_(st, 'TypeError')]
        return [(st, self.imp_byte())]

    def f_chr(self, st, args, kw, fr, node):
        n = num(args[0])
        if n is not None and n.is_const and 0 <= n.c < 0x110000:
            return [(st, K(chr(n.c)))]
        return [(st, T('chr', tuple(args), 'str'))]

    def f_abs(self, st, args, kw, fr, node):
        n = num(args[0])
        if n is None:
            return [(st, T('abs', tuple(args), getattr(args[0], 'hint', None), anyimp(args[0])))]
        return [(s, N(n if ok else -n)) for s, ok in self.split_int(st, ('ge', n))]

    def f_pow(self, st, args, kw, fr, node):
        if len(args) == 2:
            return self.binop(st, ast.Pow(), args[0], args[1], fr, node)
        return [(st, impint())]

    def f_divmod(self, st, args, kw, fr, node):
        outs = []
        for s, q in self.binop(st, ast.FloorDiv(), args[0], args[1], fr, node):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            for s2, r in self.binop(s, ast.Mod(), args[0], args[1], fr, node):
                outs.append((s2, r if isinstance(r, Exc) else Tup(q, r)))
        return outs

    def minmax_(self, op, st, args, kw, fr, node):
        if kw:
            return [(st, unk(op))]
        if len(args) == 1:
            outs = []
            for s, q in self.as_seq(st, args[0], fr, node):
                if isinstance(q, Exc):
                    outs.append((s, q))
                elif isinstance(q, Sq) and q.items():
                    outs.extend(self.minmax_(op, s, q.items(), {}, fr, node) if len(q.items()) > 1 else [(s, q.items()[0])])
                elif isinstance(q, Sq) and q.items() == []:
                    outs.append(self.raise_(s, 'ValueError'))
                else:
                    outs.append((s, impint()))
            return outs
        ls = [self.intlin2(a) if isinstance(a, V) else None for a in args]
        cs = [self.cnum(a) if isinstance(a, V) else None for a in args]
        if all(c is not None for c in cs):
            r = (min if op == 'min' else max)(cs)
            return [(st, N(r) if isinstance(r, int) else K(float(r)))]
        if any(l is None for l in ls):
            return [(st, T(op, tuple(args), 'float', anyimp(*args)))]
        r = ls[0]
        for l in ls[1:]:
            d = st.facts.decide('ge', r - l)
            if d is not None:
                r = (l if d else r) if op == 'min' else (r if d else l)
            else:
                r = minmax(op, r, l)
        return [(st, N(r))]

    def f_min(self, st, args, kw, fr, node):
        return self.minmax_('min', st, args, kw, fr, node)

    def f_max(self, st, args, kw, fr, node):
        return self.minmax_('max', st, args, kw, fr, node)

    def f_sum(self, st, args, kw, fr, node):
        outs = []
        for s, q in self.as_seq(st, args[0], fr, node):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            items = q.items() if isinstance(q, Sq) else None
            acc = num(args[1]) if len(args) > 1 else ZERO
            if isinstance(q, Sq) and acc is not None:
                ok = True
                for sg in q.segs:
                    vals = (sg[1],) if sg[0] == 'item' else sg[3]
                    for v in vals:
                        l = num(v)
                        if l is None:
                            ok = False
                        elif sg[0] == 'item':
                            acc = acc + l
                        elif sg[1].id not in l.free_atoms() and l.is_const:
                            acc = acc + sg[2].scale(l.c)
                        else:
                            acc = acc + lin(mkatom('sum', (sg[1], sg[2], l), 0 if l.bounds()[0] is not None and l.bounds()[0] >= 0 else None))
                if ok:
                    outs.append((s, N(acc)))
                    continue
            outs.append((s, N(lin(mkatom('tv', (T('sum', tuple(a for a in args if isinstance(a, V))),))))))
        return outs

    def f_any(self, st, args, kw, fr, node, isall=False):
        v = args[0]
        if isinstance(v, Gen) and v.kind == 'genexp':
            def on(s, x):
                r = []
                for s2, b in self.truth(s, x, fr, node):
                    if isinstance(b, Exc):
                        r.append((s2, ('exc', b.v)))
                    elif b != isall:
                        r.append((s2, ('ret', K(not isall))))
                    else:
                        r.append((s2, None))
                return r
            return self.gen_search(st, v, fr, node, on, K(isall))
        outs = []
        for s, q in self.as_seq(st, v, fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue

            def step(s2, x):
                r = []
                for s3, b in self.truth(s2, x, fr, node):
                    if isinstance(b, Exc):
                        r.append((s3, ('exc', b.v)))
                    elif b != isall:
                        r.append((s3, ('ret', K(not isall))))
                    else:
                        r.append((s3, None))
                return r
            for s2, o in self.run_seq(s, q, step):
                if o is None:
                    outs.append((s2, K(isall)))
                else:
                    outs.append((s2, Exc(o[1]) if o[0] == 'exc' else o[1]))
        return outs

    def f_all(self, st, args, kw, fr, node):
        return self.f_any(st, args, kw, fr, node, True)

    def f_next(self, st, args, kw, fr, node):
        v = args[0]
        if isinstance(v, Gen) and v.kind == 'genexp':
            def on(s, x):
                return [(s, ('ret', Tup(x)))]
            outs = []
            for s, r in self.gen_search(st, v, fr, node, on, K('$none')):
                if isinstance(r, Exc):
                    outs.append((s, r))
                elif r == K('$none'):
                    outs.append((s, args[1]) if len(args) > 1 else self.raise_(s, 'StopIteration'))
                else:
                    outs.append((s, r.items()[0]))
            return outs
        if isinstance(v, Ref) and st.get(v.oid).kind == 'iter':
            o = st.get(v.oid)
            outs = []
            for s, ok in self.split_int(st, ('ge', o.seq.length() - o.pos - 1)):
                s = s.fork()
                if not ok:
                    outs.append((s, args[1]) if len(args) > 1 else self.raise_(s, 'StopIteration'))
                    continue
                x = seq_elem(o.seq, o.pos, s.facts)
                s.put(v.oid, o.set(pos=o.pos + 1))
                outs.append((s, x if x is not None else unk('next')))
            return outs
        return [(st, T('next', (v,), None, True))]

    def f_iter(self, st, args, kw, fr, node):
        outs = []
        if len(args) == 2:
            st.flag('iter2')
            return [(st, self.opaque_seq(unk('iter')))]
        for s, q in self.as_seq(st, args[0], fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            s = s.fork()
            outs.append((s, s.new(IterO(q), 'iter')))
        return outs

    def conv_seq(self, st, args, fr, node, mk):
        if not args:
            s = st.fork()
            return [(s, mk(s, ()))]
        outs = []
        for s, q in self.as_seq(st, args[0], fr, node):
            if isinstance(q, Exc):
                outs.append((s, q))
            elif not isinstance(q, Sq):
                s = s.fork()
                if isinstance(q, T) and q.hint == 'tuple':
                    outs.append((s, q))
                else:
                    outs.append((s, mk(s, self.opaque_seq(q).segs)))
            else:
                s = s.fork()
                outs.append((s, mk(s, q.segs)))
        return outs

    def f_list(self, st, args, kw, fr, node):
        return self.conv_seq(st, args, fr, node, lambda s, g: s.new(ListO(g), 'list'))

    def f_tuple(self, st, args, kw, fr, node):
        return self.conv_seq(st, args, fr, node, lambda s, g: Sq(g))

    def f_set(self, st, args, kw, fr, node):
        def mk(s, g):
            if all(x[0] == 'item' for x in g):
                return s.new(SetO([x[1] for x in g]), 'set')
            return s.new(SetO((), True), 'set')
        return self.conv_seq(st, args, fr, node, mk)
    f_frozenset = f_set

    def f_sorted(self, st, args, kw, fr, node):
        def mk(s, g):
            items = [x[1] for x in g] if all(x[0] == 'item' for x in g) else None
            if items is not None and not kw and all(self.cnum(x) is not None for x in items):
                return s.new(ListO(tuple(('item', x) for x in sorted(items, key=self.cnum))), 'list')
            if len(g) == 1 and g[0][0] == 'rep' and len(g[0][3]) == 1:
                # a permutation of the same elements: any element, the index is renamed
                k = g[0][1]
                perm = lin(mkatom('perm', (K(fresh('perm')), lin(k)), 0, None))
                return s.new(ListO((('rep', k, g[0][2], tuple(v.subst({k.id: perm}) for v in g[0][3])),)), 'list')
            if len(g) <= 1:
                return s.new(ListO(g), 'list')
            s.flag('order of a sorted list')
            return s.new(ListO(self.opaque_seq(unk('sorted')).segs), 'list')
        return self.conv_seq(st, args, fr, node, mk)

    def f_reversed(self, st, args, kw, fr, node):
        def mk(s, g):
            out = []
            for x in reversed(g):
                if x[0] == 'item':
                    out.append(x)
                else:
                    k = x[1]
                    out.append(('rep', k, x[2], tuple(v.subst({k.id: x[2] - 1 - lin(k)}) for v in reversed(x[3]))))
            return Sq(out, 'iter')
        return self.conv_seq(st, args, fr, node, mk)

    def f_enumerate(self, st, args, kw, fr, node):
        start = num(args[1]) if len(args) > 1 else num(kw['start']) if 'start' in kw else ZERO

        def mk(s, g):
            out = []
            p = start
            for x in g:
                if x[0] == 'item':
                    out.append(('item', Tup(N(p), x[1])))
                    p = p + 1
                else:
                    k, c = x[1], len(x[3])
                    out.append(('rep', k, x[2], tuple(Tup(N(p + lin(k).scale(c) + i), v) for i, v in enumerate(x[3]))))
                    p = p + x[2].scale(c)
            return Sq(out, 'iter')
        return self.conv_seq(st, args, fr, node, mk)

    def f_zip(self, st, args, kw, fr, node):
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s, qs in cur:
                if isinstance(qs, Exc):
                    nxt.append((s, qs))
                    continue
                for s2, q in self.as_seq(s, a, fr, node, live=True):
                    nxt.append((s2, q if isinstance(q, Exc) else qs + [q]))
            cur = nxt
        outs = []
        for s, qs in cur:
            if isinstance(qs, Exc) or not qs:
                outs.append((s, qs if isinstance(qs, Exc) else Sq((), 'iter')))
                continue
            items = [q.items() for q in qs]
            if all(i is not None for i in items):
                outs.append((s, mkseq([Tup(*t) for t in zip(*items)], 'iter')))
                continue
            n = qs[0].length()
            for q in qs[1:]:
                m = q.length()
                d = s.facts.decide('ge', n - m)
                n = m if d is True else n if d is False else minmax('min', n, m)
            k = mkatom('bv', (0,), 0)
            kk = mkatom('pk', (fresh('zip'),), 0)
            f = s.facts.add_all([('ge', lin(kk)), ('ge', n - lin(kk) - 1)])
            if f is None:
                outs.append((s, Sq((), 'iter')))
                continue
            vals = [seq_elem(q, lin(kk), f) for q in qs]
            vals = [v if v is not None else T('elem', (q, N(lin(kk))), None, True) for v, q in zip(vals, qs)]
            outs.append((s, Sq((('rep', kk, n, (Tup(*vals),)),), 'iter')))
        return outs

    def f_map(self, st, args, kw, fr, node):
        if len(args) == 2:
            if isinstance(args[0], K) and args[0].v is None:
                # a map over None fails when it is consumed
                st.flag('mapNone')
                return [(st, Gen(args[0], fr, args[1], 'map'))]
            return self.map_seq(st, args[0], args[1], fr, node)
        outs = []
        for s, z in self.f_zip(st, args[1:], {}, fr, node):
            if isinstance(z, Exc):
                outs.append((s, z))
                continue
            f = args[0]
            lst = s.new(ListO(), 'map')

            def step(s2, v):
                r = []
                for s3, x in self.call(s2, f, list(v.items()), {}, fr, node):
                    if isinstance(x, Exc):
                        r.append((s3, ('exc', x.v)))
                    else:
                        o = s3.get(lst.oid)
                        s3.put(lst.oid, ListO(o.segs + (('item', x),)))
                        r.append((s3, None))
                return r
            for s2, o in self.run_seq(s, z, step):
                outs.append((s2, Exc(o[1]) if isinstance(o, tuple) else Sq(s2.get(lst.oid).segs, 'gen')))
        return outs

    def f_filter(self, st, args, kw, fr, node):
        f = args[0]
        if isinstance(f, K) and f.v is None:
            f = Ext('builtins.bool')
        return self.map_seq(st, f, args[1], fr, node, True)

    def f_dict(self, st, args, kw, fr, node):
        es = [(K(k), v) for k, v in kw.items() if k != '**']
        if not args:
            return [(st, st.new(DictO(es), 'dict'))]
        v = args[0]
        if isinstance(v, Ref) and st.get(v.oid).kind == 'dict':
            o = st.get(v.oid)
            self.acc(st, v, 'iter', fr, node)
            d = [(k, x) for k, x in o.entries if k not in [e[0] for e in es]] + es
            return [(st, st.new(DictO(d, o.gone, o.tmpl, o.ver), 'dict'))]
        outs = []
        for s, q in self.as_seq(st, v, fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            s = s.fork()
            d = s.new(DictO(), 'dict')
            cur = [(s, None)]
            if q.items() is None:
                s.put(d.oid, DictO((), (), (None, None, unk('dv')), fresh('ver')))
                outs.append((s, d))
                continue
            for it in q.items():
                nxt = []
                for s2, o in cur:
                    if o is not None:
                        nxt.append((s2, o))
                        continue
                    kv = it.items() if isinstance(it, Sq) else None
                    if not kv or len(kv) != 2:
                        s2.flag('dict')
                        nxt.append((s2, None))
                        continue
                    for s3, r in self.dict_set(s2, d, kv[0], kv[1], fr, node):
                        nxt.append((s3, r if isinstance(r, Exc) else None))
                cur = nxt
            for s2, o in cur:
                outs.append((s2, o if o is not None else d))
        return outs

    def f_getattr(self, st, args, kw, fr, node):
        name = kstr(args[1])
        if name is None:
            return [(st, T('attr', tuple(args[:2]), None, True))]
        outs = []
        for s, v in self.getattr_(st, args[0], name, fr, node):
            if isinstance(v, Exc) and len(args) > 2 and self.exc_match(s, v.v, Ref('B:AttributeError')) == 'yes':
                v = args[2]
            outs.append((s, v))
        return outs

    def f_hasattr(self, st, args, kw, fr, node):
        name = kstr(args[1])
        if name is None or isinstance(args[0], T):
            return [(s, K(b)) for s, b in self.split_term(st, ('hasattr',) + tuple(args), True)]
        return [(s, K(not isinstance(v, Exc))) for s, v in self.getattr_(st, args[0], name, fr, node)]

    def f_setattr(self, st, args, kw, fr, node):
        name = kstr(args[1])
        if name is None:
            st.flag('setattr')
            return [(st, NONE)]
        return [(s, Exc(o[1]) if o is not None else NONE) for s, o in self.setattr_(st, args[0], name, args[2], fr, node)]

    def f_callable(self, st, args, kw, fr, node):
        v = args[0]
        if isinstance(v, T):
            return [(s, K(b)) for s, b in self.split_term(st, ('callable', v), v.imp)]
        return [(st, K(isinstance(v, (Fn, BM, ExtM, Ext, Wrap))))]

    def f_type(self, st, args, kw, fr, node):
        v = args[0]
        if isinstance(v, Ref) and st.get(v.oid).kind == 'inst':
            return [(st, st.get(v.oid).cls)]
        if isinstance(v, N):
            return [(st, Ext('builtins.int'))]
        if isinstance(v, K) and v.v is not None:
            return [(st, Ext('builtins.' + type(v.v).__name__))]
        if isinstance(v, Bs):
            return [(st, Ext('builtins.bytes'))]
        if isinstance(v, Sq):
            return [(st, Ext('builtins.tuple'))]
        if isinstance(v, Ref):
            return [(st, Ext('builtins.' + {'list': 'list', 'dict': 'dict', 'ba': 'bytearray', 'set': 'set', 'cells': 'list'}.get(st.get(v.oid).kind, 'object')))]
        return [(st, T('type', (v,), None, anyimp(v)))]

    def f_id(self, st, args, kw, fr, node):
        return [(st, N(lin(mkatom('id', (args[0],)))))]

    def f_hash(self, st, args, kw, fr, node):
        return [(st, impint())]

    def f_print(self, st, args, kw, fr, node):
        if 'print' in self.cfg.faults:
            e = st.fork()
            return [(st, NONE), (e, self.any_exc(e))]
        return [(st, NONE)]

    def f_object(self, st, args, kw, fr, node):
        return [(st, T(fresh('object'), (), 'obj'))]

    def f_slice(self, st, args, kw, fr, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0]]
        while len(a) < 3:
            a.append(NONE)
        return [(st, Sl(*a))]

    def f_round(self, st, args, kw, fr, node):
        n = num(args[0])
        return [(st, N(n) if n is not None else T('round', tuple(args), 'float', anyimp(*args)))]

    def f_staticmethod(self, st, args, kw, fr, node):
        return [(st, Wrap('static', args[0]))]

    def f_classmethod(self, st, args, kw, fr, node):
        return [(st, Wrap('classm', args[0]))]

    def f_property(self, st, args, kw, fr, node):
        return [(st, Wrap('property', args[0]))] if args else [(st, unk('prop'))]

    def f_functools_partial(self, st, args, kw, fr, node):
        return [(st, Wrap('partial', (args[0], tuple(args[1:]), tuple(sorted(kw.items())))))]

    def f_functools_wraps(self, st, args, kw, fr, node):
        return [(st, Ext('$identity'))]

    def f__identity(self, st, args, kw, fr, node):
        return [(st, args[0])]

    def f_functools_lru_cache(self, st, args, kw, fr, node):
        return [(st, args[0] if args and isinstance(args[0], Fn) else Ext('$identity'))]

    def f_functools_reduce(self, st, args, kw, fr, node):
        outs = []
        for s, q in self.as_seq(st, args[1], fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            items = q.items()
            if items is None:
                lst = None
                acc0 = args[2] if len(args) > 2 else None
                if acc0 is None:
                    outs.append((s, T('reduce', (q,), None, True)))
                    continue
                cell = s.new(ExtO('$cell', {'v': acc0}), 'cell')

                def step(s2, v):
                    r = []
                    a = s2.get(cell.oid).attrs['v']
                    for s3, x in self.call(s2, args[0], [a, v], {}, fr, node):
                        if isinstance(x, Exc):
                            r.append((s3, ('exc', x.v)))
                        else:
                            s3.put(cell.oid, s3.get(cell.oid).set(attrs={'v': x}))
                            r.append((s3, None))
                    return r
                for s2, o in self.run_seq(s, q, step):
                    outs.append((s2, Exc(o[1]) if isinstance(o, tuple) else s2.get(cell.oid).attrs['v']))
                continue
            if len(args) > 2:
                items = [args[2]] + items
            if not items:
                outs.append(self.raise_(s, 'TypeError'))
                continue
            cur = [(s, items[0])]
            for v in items[1:]:
                nxt = []
                for s2, a in cur:
                    if isinstance(a, Exc):
                        nxt.append((s2, a))
                    else:
                        nxt.extend(self.call(s2, args[0], [a, v], {}, fr, node))
                cur = nxt
            outs.extend(cur)
        return outs
    f_reduce = f_functools_reduce

    # struct -----------------------------------------------------
    def f_struct_pack(self, st, args, kw, fr, node):
        return self.struct_pack(st, args[0], args[1:], fr, node)

    def f_struct_unpack(self, st, args, kw, fr, node):
        return self.struct_unpack(st, args[0], args[1], fr, node)

    def f_struct_unpack_from(self, st, args, kw, fr, node):
        off = num(args[2]) if len(args) > 2 else num(kw['offset']) if 'offset' in kw else ZERO
        return self.struct_unpack(st, args[0], args[1], fr, node, off if off is not None else sym(fresh('imp'), 0))

    def f_struct_calcsize(self, st, args, kw, fr, node):
        return [(s, n if isinstance(n, Exc) else N(n)) for s, n in self.struct_size(st, args[0])]

    def f_dict_fromkeys(self, st, args, kw, fr, node):
        outs = []
        v = args[1] if len(args) > 1 else NONE
        for s, q in self.as_seq(st, args[0], fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            s = s.fork()
            if q.items() is None:
                outs.append((s, s.new(DictO((), (), (None, None, v), fresh('ver')), 'dict')))
                continue
            es = []
            for k in q.items():
                if all(self.key_eq(s, k, x) is not True for x, _ in es):
                    es.append((k, v))
            outs.append((s, s.new(DictO(es), 'dict')))
        return outs

    def f_int_from_bytes(self, st, args, kw, fr, node):
        b = self.as_bytes(st, args[0])
        order = kstr(args[1]) if len(args) > 1 else kstr(kw['byteorder']) if 'byteorder' in kw else 'big'
        signed = kw.get('signed') == TRUE
        if b is None or order is None:
            return [(st, impint())]
        n = b.length()
        iv = st.facts.interval(n, 16)
        if iv[0] is not None and iv[0] == iv[1] and iv[0] <= 8:
            if iv[0] == 0:
                return [(st, N(0))]
            v = bs_int(b, ZERO, iv[0], signed, '>' if order == 'big' else '<', st.facts)
            if v is not None:
                return [(st, N(v))]
        # short slices: enumerate the possible lengths
        if iv[0] is not None and iv[1] is not None and iv[1] <= 4:
            outs = []
            for i in range(iv[0], iv[1] + 1):
                s = st.assume(('eq', n - i))
                if s is not None:
                    s = s.fork()
                    v = bs_int(b, ZERO, i, signed, '>' if order == 'big' else '<', s.facts) if i else ZERO
                    outs.append((s, N(v) if v is not None else impint()))
            return outs
        return [(st, impint())]

    def f_int_to_bytes(self, st, args, kw, fr, node):
        return self.to_bytes(st, args[0], args[1:], kw)

    def to_bytes(self, st, v, args, kw):
        n = num(args[0]) if args else num(kw['length']) if 'length' in kw else ONE
        order = kstr(args[1]) if len(args) > 1 else kstr(kw['byteorder']) if 'byteorder' in kw else 'big'
        l = num(v)
        if n is None or not n.is_const or order is None or l is None:
            return [(st, imp_bs())]
        outs = []
        for s, ok in self.range_split(st, l, n.c, kw.get('signed') == TRUE):
            outs.append((s, Bs((('pk', n.c, '>' if order == 'big' else '<', l),))) if ok else self.raise_(s, 'OverflowError'))
        return outs

    def f_bytes_fromhex(self, st, args, kw, fr, node):
        k = kstr(args[0])
        return [(st, BL(bytes.fromhex(k)) if k is not None else imp_bs())]

    def f_operator_itemgetter(self, st, args, kw, fr, node):
        return [(st, unk('getter'))]

    # time, select -------------------------------------------------
    def f_time_time(self, st, args, kw, fr, node):
        return [(st, T(fresh('time'), (), 'float'))]
    f_time_monotonic = f_time_time
    f_time_perf_counter = f_time_time

    def f_time_sleep(self, st, args, kw, fr, node):
        self.emit(st, 'sleep', fr, node, args=tuple(args))
        return [(st, NONE)]

    def f_select_select(self, st, args, kw, fr, node):
        outs = []
        base = st.fork()
        for s, q in self.as_seq(st, args[0], fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, q))
                continue
            self.emit(s, 'io', fr, node, op='select', recv=args[0], args=tuple(args), ret=NONE)
            items = q.items()
            u = fresh('sel')
            ready = self.cfg.data.get('ready')
            if ready is not None and items is not None:
                if any(s.getext(('closed', x)) is not None for x in items):
                    self.emit(s, 'badselect', fr, node, items=tuple(items))
                    outs.append(self.raise_(s, 'ValueError'))
                    continue
                s2 = s.fork()
                pick = ready(self, s2, items) if callable(ready) else [x for x in ready if x in items]
                r = s2.new(ListO(tuple(('item', x) for x in pick)), 'list')
                outs.append((s2, Tup(r, s2.new(ListO(()), 'list'), s2.new(ListO(()), 'list'))))
            elif items is not None and len(items) <= 1:
                for n in range(len(items) + 1):
                    s2 = s.fork()
                    s2.facts = s2.facts.add_raw(('bool', ('ready', K(u)), n == 1))
                    r = s2.new(ListO(tuple(('item', x) for x in items[:n])), 'list')
                    outs.append((s2, Tup(r, unk('w', None, False), unk('x', None, False))))
            else:
                k = mkatom('bv', (0,), 0)
                s2 = s.fork()
                r = s2.new(ListO((('rep', k, sym('n' + u, 0, None), (T('ready', (K(u), N(lin(k))), 'socket'),)),)), 'list')
                outs.append((s2, Tup(r, unk('w', None, False), unk('x', None, False))))
        return self.io_fault(base, outs, 'select', args[0], fr, node)

    # ------------------------------------------------------------ methods
    def call_method(self, st, recv, name, args, kw, fr, node):
        if name in ('__getitem__',):
            return self.getitem(st, recv, args[0], fr, node)
        if name in ('__setitem__',):
            return self.setitem(st, recv, args[0], args[1], fr, node)
        if name in ('__delitem__',):
            return self.delitem(st, recv, args[0], fr, node)
        if name == '__contains__':
            return [(s, r if isinstance(r, Exc) else K(r)) for s, r in self.contains(st, recv, args[0], fr, node)]
        if name == '__len__':
            return self.f_len(st, [recv], {}, fr, node)
        if name == '__iter__':
            return self.f_iter(st, [recv], {}, fr, node)
        if isinstance(recv, Ref):
            o = st.get(recv.oid)
            k = o.kind
            if k == 'list':
                return self.list_method(st, recv, o, name, args, kw, fr, node)
            if k == 'dict':
                return self.dict_method(st, recv, o, name, args, kw, fr, node)
            if k == 'set':
                return self.set_method(st, recv, o, name, args, fr, node)
            if k == 'ba':
                return self.ba_method(st, recv, o, name, args, kw, fr, node)
            if k == 'cells':
                return self.cells_method(st, recv, o, name, args, fr, node)
            if k == 'ext':
                return self.extobj_method(st, recv, o, name, args, kw, fr, node)
            if k in ('inst', 'cls'):
                return self.inst_method(st, recv, o, name, args, kw, fr, node)
        if is_str(recv):
            return self.str_method(st, recv, name, args, kw, fr, node)
        b = self.as_bytes(st, recv)
        if b is not None:
            return self.bytes_method(st, recv, b, name, args, kw, fr, node)
        if isinstance(recv, Sq):
            if name == 'index' or name == 'count':
                items = recv.items()
                if items is not None and name == 'index' and args[0] in items:
                    return [(st, N(items.index(args[0])))]
                return [(st, impint())]
            return [self.raise_(st, 'AttributeError', K(name))]
        if isinstance(recv, N) and name == 'to_bytes':
            return self.to_bytes(st, recv, args, kw)
        if isinstance(recv, N) and name == 'bit_length':
            return [(st, impint())]
        if isinstance(recv, T) and (recv.hint == 'socket' or (recv.hint is None and name in SOCK_METHODS)):
            return self.sock_method(st, recv, name, args, kw, fr, node)
        if isinstance(recv, T):
            return self.term_method(st, recv, name, args, kw, fr, node)
        if isinstance(recv, Ext):
            # method of an external base class called through the class
            return [(st, NONE)]
        if isinstance(recv, (N, K)):
            return [self.raise_(st, 'AttributeError', K(name))]
        return [(st, unk('mcall'))]

    def term_method(self, st, recv, name, args, kw, fr, node):
        self.emit(st, 'mcall', fr, node, recv=recv, name=name, args=tuple(a for a in args if isinstance(a, V)))
        ret = T('ret', (recv, K(name), K(fresh('m'))), None, recv.imp)
        outs = [(st, ret)]
        if 'user' in self.cfg.faults:
            e = st.fork()
            outs.append((e, self.any_exc(e)))
        return outs

    def call_term(self, st, f, args, kw, fr, node):
        if f.op == 'attr':
            return self.call_method(st, f.args[0], f.args[1].v, args, kw, fr, node)
        if f.op == 'wraps':
            return [(st, args[0])]
        base = st.fork()
        st = st.fork()
        self.emit(st, 'ucall', fr, node, fn=f, args=tuple(('star', a[1]) if isinstance(a, tuple) else a for a in args), kw=tuple(sorted(kw.items())))
        uf = self.cfg.data.get('ufn')
        if uf is not None:
            r = uf(self, st, f, args, kw, fr, node)
            if r is not None:
                return r
        outs = [(st, T('ret', (f, K(fresh('c'))), 'opt', f.imp))]
        if 'user' in self.cfg.faults:
            e = base.fork()
            self.emit(e, 'ucall', fr, node, fn=f, args=tuple(('star', a[1]) if isinstance(a, tuple) else a for a in args), kw=tuple(sorted(kw.items())))
            outs.append((e, self.any_exc(e)))
        return outs

    def inst_method(self, st, recv, o, name, args, kw, fr, node):
        if name in ('__init__', '__del__', '__enter__', '__exit__'):
            if name == '__init__' and o.kind == 'inst' and self.is_exc_cls(st, o.cls):
                d = dict(o.attrs)
                d['args'] = mkseq([a for a in args if isinstance(a, V)])
                st.put(recv.oid, o.set(attrs=d))
            elif name == '__init__' and o.kind == 'cls' and args and isinstance(args[0], Ref) and self.is_exc_cls(st, recv):
                i = st.get(args[0].oid)
                if i.kind == 'inst':
                    d = dict(i.attrs)
                    d['args'] = mkseq([a for a in args[1:] if isinstance(a, V)])
                    st.put(args[0].oid, i.set(attrs=d))
            return [(st, NONE)]
        if name in ('__str__', '__repr__'):
            return [(st, T('str', (recv,), 'str'))]
        if name in ('with_traceback',):
            return [(st, recv)]
        if name in ('args', 'errno', 'message', 'strerror'):
            return [(st, unk('excattr'))]
        self.emit(st, 'mcall', fr, node, recv=recv, name=name, args=tuple(a for a in args if isinstance(a, V)))
        if 'mcall:' + name in self.cfg.faults:
            e = st.fork()
            return [(st, T('ret', (recv, K(name), K(fresh('m'))), 'opt')), (e, self.any_exc(e))]
        if name in ('is_alive', 'isAlive', 'is_set', 'isSet'):
            return [(st, T(fresh(name), ()))]
        return [(st, T('ret', (recv, K(name), K(fresh('m'))), 'opt'))]

    def list_method(self, st, ref, o, name, args, kw, fr, node):
        q = Sq(at_segs(o.segs, ref.idx), 'list')
        n = q.length()
        self.acc(st, ref, name, fr, node)

        def upd(s, segs, **d):
            s.put(ref.oid, ListO(segs))
            self.emit(s, 'lmut', fr, node, obj=ref, op=name, args=tuple(a for a in args if isinstance(a, V)), **d)
        if name == 'append':
            st = st.fork()
            upd(st, o.segs + (('item', args[0]),))
            return [(st, NONE)]
        if name in ('extend', '__iadd__'):
            outs = []
            for s, w in self.as_seq(st, args[0], fr, node, live=True):
                if isinstance(w, Exc):
                    outs.append((s, w))
                    continue
                s = s.fork()
                upd(s, s.get(ref.oid).segs + w.segs)
                outs.append((s, NONE))
            return outs
        if name == 'insert':
            i = self.intlin(args[0])
            outs = []
            for s, lo in self.clamp(st, N(i) if i is not None else NONE, n, ZERO):
                s = s.fork()
                a, z = seq_region(q, ZERO, lo, s.facts), seq_region(q, lo, n, s.facts)
                if a is None or z is None:
                    s.flag('insert')
                    upd(s, o.segs + (('item', args[1]),), pos=lo)
                else:
                    upd(s, a + (('item', args[1]),) + z, pos=lo)
                outs.append((s, NONE))
            return outs
        if name == 'remove':
            return self.list_remove(st, ref, q, args[0], fr, node, upd)
        if name == 'pop':
            i = self.intlin(args[0]) if args else Lin(-1)
            outs = []
            for s, j in self.index_split(st, i, n):
                s = s.fork()
                if j is None:
                    outs.append((s, self.exc(s, 'IndexError')))
                    continue
                v = seq_elem(q, j, s.facts)
                a, z = seq_region(q, ZERO, j, s.facts), seq_region(q, j + 1, n, s.facts)
                if a is None or z is None:
                    s.flag('pop')
                else:
                    upd(s, a + z)
                outs.append((s, v if v is not None else unk('pop')))
            return outs
        if name == 'clear':
            st = st.fork()
            upd(st, ())
            return [(st, NONE)]
        if name == 'copy':
            return [(st, st.new(ListO(q.segs), 'list'))]
        if name == 'index':
            items = q.items()
            outs = []
            cur = st
            if len(q.segs) == 1 and q.segs[0][0] == 'rep' and isinstance(args[0], Ref) and len(args[0].idx) == 1 and len(args) == 1:
                k, vals = q.segs[0][1], q.segs[0][3]
                if len(vals) == 1 and isinstance(vals[0], Ref) and vals[0].oid == args[0].oid and vals[0].idx == (lin(k),):
                    j = args[0].idx[0]
                    for s, ok in self.split(st, ('ge', j)):
                        for s2, ok2 in self.split(s, ('ge', n - j - 1)) if ok else [(s, False)]:
                            outs.append((s2, N(j)) if ok2 else self.raise_(s2, 'ValueError'))
                    return outs
            for i, seg in enumerate(q.segs):
                if seg[0] != 'item':
                    u = sym(fresh('index'), 0, None)
                    s = cur.fork()
                    s.facts = s.facts.add('ge', n - u - 1) or s.facts
                    outs.append((s, N(u)))
                    outs.append(self.raise_(cur, 'ValueError'))
                    return outs
                r = self.key_eq(cur, seg[1], args[0])
                if r is True:
                    return outs + [(cur, N(i))]
                if r is False:
                    continue
                nxt = None
                for s, b in self.split(cur, r):
                    if b:
                        outs.append((s, N(i)))
                    else:
                        nxt = s
                if nxt is None:
                    return outs
                cur = nxt
            return outs + [self.raise_(cur, 'ValueError')]
        if name in ('sort', 'reverse'):
            st = st.fork()
            if name == 'sort':
                for s, r in self.f_sorted(st, [ref], kw, fr, node):
                    upd(s, s.get(r.oid).segs, sort=True, key=kw.get('key'))
                    return [(s, NONE)]
            for s, r in self.f_reversed(st, [ref], {}, fr, node):
                upd(s, r.segs)
                return [(s, NONE)]
        if name == 'count':
            return [(st, N(sym(fresh('count'), 0, None)))]
        if name in ('popleft',):
            return self.list_method(st, ref, o, 'pop', [N(0)], kw, fr, node)
        return [self.raise_(st, 'AttributeError', K(name))]

    def list_remove(self, st, ref, q, x, fr, node, upd):
        outs = []
        cur = st
        segs = list(q.segs)
        for i, seg in enumerate(segs):
            if seg[0] == 'item':
                r = self.key_eq(cur, seg[1], x)
                if r is False:
                    continue
                pairs = [(cur, True)] if r is True else self.split(cur, r)
                nxt = None
                for s, b in pairs:
                    if b:
                        s = s.fork()
                        upd(s, tuple(segs[:i] + segs[i + 1:]))
                        outs.append((s, NONE))
                    else:
                        nxt = s
                if nxt is None:
                    return outs
                cur = nxt
                continue
            # x is a member of this family?
            k, n, vals = seg[1], seg[2], seg[3]
            if len(vals) == 1 and isinstance(vals[0], Ref) and isinstance(x, Ref) and vals[0].oid == x.oid and \
                    vals[0].idx == (lin(k),):
                j = x.idx[0]
                own = self.class_attr(cur, cur.get(x.oid).cls, '__eq__') if cur.get(x.oid).kind == 'inst' else None
                if own is not None and isinstance(own[0], Fn):
                    # an earlier member that is equal to x is removed in its place
                    w = sym(fresh('equal'), 0, None)
                    s = cur.fork()
                    for l in (('ge', n - j - 1), ('ge', j - w - 1)):
                        s = s.assume(l) if s is not None else None
                    for s2, r in self.equal(s, Ref(x.oid, (w,)), x, False, fr, node) if s is not None else ():
                        if isinstance(r, Exc):
                            outs.append((s2, r))
                        elif r:
                            s2 = s2.fork()
                            b = ('rep', k, w, vals)
                            a = ('rep', k, n - w - 1, tuple(v.subst({k.id: lin(k) + w + 1}) for v in vals))
                            upd(s2, tuple(segs[:i] + [b, a] + segs[i + 1:]), removed=Ref(x.oid, (w,)))
                            outs.append((s2, NONE))
                for s, ok in self.split(cur, ('ge', j)):
                    if not ok:
                        outs.append(self.raise_(s, 'ValueError'))
                        continue
                    for s2, ok2 in self.split(s, ('ge', n - j - 1)):
                        s2 = s2.fork()
                        if not ok2:
                            outs.append((s2, self.exc(s2, 'ValueError')))
                            continue
                        b = ('rep', k, j, vals)
                        a = ('rep', k, n - j - 1, tuple(v.subst({k.id: lin(k) + j + 1}) for v in vals))
                        upd(s2, tuple(segs[:i] + [b, a] + segs[i + 1:]), removed=x)
                        outs.append((s2, NONE))
                return outs
            if all(isinstance(v, Ref) for v in vals) and isinstance(x, Ref) and all(v.oid != x.oid for v in vals):
                continue
            for s, b in self.split_term(cur, ('in', x, Sq((seg,))), False):
                s = s.fork()
                if b:
                    u = sym(fresh('n'), 0, None)
                    upd(s, tuple(segs[:i] + [('rep', k, n - 1, tuple(T('left', (v,), getattr(v, 'hint', None)) for v in vals))] + segs[i + 1:]),
                        removed=x)
                    outs.append((s, NONE))
                else:
                    cur = s
            if not any(True for _ in [0]):
                return outs
        outs.append(self.raise_(cur, 'ValueError'))
        return outs

    def cells_method(self, st, ref, o, name, args, fr, node):
        if name == 'copy':
            return [(st, st.new(ListO(self.cells_segs(st, ref, o, ZERO, at_idx(o.n, ref.idx))), 'list'))]
        if name in ('append', 'insert', 'extend', 'pop', 'clear', 'remove', 'sort', 'reverse'):
            self.emit(st, 'wr', fr, node, obj=ref, lo=ZERO, n=ZERO, value=NONE, slice=True, resize=sym(fresh('imp')), alo=None, ahi=None)
            return [(st, NONE)]
        return [(st, impint())]

    def dict_method(self, st, ref, o, name, args, kw, fr, node):
        if name in ('get', 'setdefault'):
            self.acc(st, ref, name, fr, node)
            outs = []
            for s, v in self.dict_find(st, ref, o, args[0]):
                if v is not None:
                    outs.append((s, v))
                    continue
                d = args[1] if len(args) > 1 else NONE
                if name == 'setdefault':
                    for s2, r in self.dict_set(s, ref, args[0], d, fr, node):
                        outs.append((s2, d))
                else:
                    outs.append((s, d))
            return outs
        if name == 'pop':
            return self.dict_pop(st, ref, args, fr, node)
        if name in ('has_key',):
            return [(s, r if isinstance(r, Exc) else K(r)) for s, r in self.contains(st, ref, args[0], fr, node)]
        if name in ('keys', 'iterkeys', 'values', 'itervalues', 'items', 'iteritems', '__iter__'):
            return [(st, T('$view', (ref, K(name)), 'view'))]
        if name == 'clear':
            st = st.fork()
            self.acc(st, ref, 'clear', fr, node)
            st.put(ref.oid, DictO((), (), None, fresh('ver')))
            self.emit(st, 'dmut', fr, node, obj=ref, op='clear', key=NONE, value=NONE, old=NONE)
            return [(st, NONE)]
        if name == 'copy':
            self.acc(st, ref, 'iter', fr, node)
            return [(st, st.new(DictO(o.entries, o.gone, o.tmpl, o.ver), 'dict'))]
        if name == 'update':
            cur = [(st, None)]
            pairs = [(K(k), v) for k, v in kw.items()]
            if args:
                a = args[0]
                if isinstance(a, Ref) and st.get(a.oid).kind == 'dict' and st.get(a.oid).tmpl is None:
                    pairs = list(st.get(a.oid).entries) + pairs
                else:
                    st.flag('update')
            for k, v in pairs:
                nxt = []
                for s, e in cur:
                    if e is not None:
                        nxt.append((s, e))
                        continue
                    for s2, r in self.dict_set(s, ref, k, v, fr, node):
                        nxt.append((s2, r if isinstance(r, Exc) else None))
                cur = nxt
            return [(s, e if e is not None else NONE) for s, e in cur]
        if name == 'popitem':
            st.flag('popitem')
            return [(st, Tup(unk('k'), unk('v')))]
        return [self.raise_(st, 'AttributeError', K(name))]

    def set_method(self, st, ref, o, name, args, fr, node):
        if name == 'add':
            st = st.fork()
            if args[0] not in o.items:
                st.put(ref.oid, o.set(items=o.items + (args[0],)))
            return [(st, NONE)]
        if name in ('discard', 'remove'):
            st = st.fork()
            st.put(ref.oid, o.set(items=tuple(i for i in o.items if i != args[0])))
            return [(st, NONE)]
        if name == 'clear':
            st = st.fork()
            st.put(ref.oid, SetO())
            return [(st, NONE)]
        if name == 'copy':
            return [(st, st.new(o.set(), 'set'))]
        return [(st, unk('set.' + name))]

    def ba_method(self, st, ref, o, name, args, kw, fr, node):
        if name in ('append', 'extend'):
            st = st.fork()
            if name == 'append':
                l = self.intlin(args[0])
                if l is None:
                    return [self.raise_(st, 'TypeError')]
                outs = []
                for s, ok in self.range_split(st, l, 1, False):
                    if not ok:
                        outs.append(self.raise_(s, 'ValueError'))
                        continue
                    s = s.fork()
                    s.put(ref.oid, BAO(Bs(o.bs.segs + (('pk', 1, '>', l),))))
                    outs.append((s, NONE))
                return outs
            b = self.as_bytes(st, args[0])
            if b is not None:
                st.put(ref.oid, BAO(Bs(o.bs.segs + b.segs)))
                return [(st, NONE)]
            outs = []
            for s, r in self.f_bytes(st, args, {}, fr, node):
                if not isinstance(r, Exc):
                    s = s.fork()
                    s.put(ref.oid, BAO(Bs(o.bs.segs + r.segs)))
                    r = NONE
                outs.append((s, r))
            return outs
        if name == 'clear':
            st.put(ref.oid, BAO(Bs()))
            return [(st, NONE)]
        if name == 'copy':
            return [(st, st.new(BAO(o.bs), 'ba'))]
        return self.bytes_method(st, ref, o.bs, name, args, kw, fr, node)

    def bytes_method(self, st, v, b, name, args, kw, fr, node):
        if name == 'join':
            outs = []
            for s, q in self.as_seq(st, args[0], fr, node):
                if isinstance(q, Exc):
                    outs.append((s, q))
                    continue
                if not isinstance(q, Sq):
                    outs.append((s, imp_bs(depsx(q))))
                    continue
                segs = []
                err = False
                for i, sg in enumerate(q.segs):
                    if i and b.segs:
                        segs.extend(b.segs)
                    vals = (sg[1],) if sg[0] == 'item' else sg[3]
                    inner = []
                    for x in vals:
                        xb = self.as_bytes(s, x)
                        if xb is None:
                            if not isinstance(x, T):
                                err = True
                            xb = imp_bs(depsx(x))
                        inner.extend(xb.segs)
                    if sg[0] == 'item':
                        segs.extend(inner)
                    elif b.segs:
                        segs.extend(imp_bs().segs)
                    else:
                        segs.append(('rep', sg[1], sg[2], tuple(inner)))
                outs.append(self.raise_(s, 'TypeError') if err else (s, Bs(segs)))
            return outs
        if name == 'decode':
            if isinstance(v, T) and v.op == 'enc':
                return [(st, v.args[0])]
            if len(b.segs) == 1 and b.segs[0][0] == 'u':
                t = getattr(self, '_enc', {}).get(b.segs[0][1])
                if t is not None:
                    return [(st, t)]
            c = b.const()
            if c is not None:
                enc = args[0] if args else kw.get('encoding', K('utf-8'))
                err = args[1] if len(args) > 1 else kw.get('errors', K('strict'))
                if isinstance(enc, K) and isinstance(err, K):
                    try:
                        return [(st, K(c.decode(enc.v, err.v)))]
                    except UnicodeDecodeError:
                        return [self.raise_(st.fork(), 'UnicodeDecodeError')]
                    except Exception:
                        pass
                return [(st, K(c.decode('latin-1')))]
            t = self.bytes_text(b)
            if t is not None:
                return [(st, t)]
            t = T('dec', (b,), 'str', anyimp(b))
            outs = [(st, t)]
            if 'decode' in self.cfg.faults:
                e = st.fork()
                outs.append((e, self.exc(e, 'UnicodeDecodeError')))
            return outs
        txt = self.bytes_text(b) if name in ('startswith', 'endswith', 'strip', 'rstrip', 'lstrip', 'split', 'find') else None
        if txt is not None:
            cs = []
            for a in args:
                c = self.as_bytes(st, a)
                cs.append(K(c.const().decode('latin-1')) if c is not None and c.const() is not None else a if num(a) is not None else None)
            if None not in cs and isinstance(txt, (K, St)):
                outs = []
                for s, r in self.str_method(st, txt, name, cs, {}, fr, node):
                    if is_str(r):
                        r = BL(r.v.encode('latin-1')) if isinstance(r, K) else self.text_bytes(r)
                    elif isinstance(r, Ref):
                        q = s.get(r.oid)
                        r = s.new(ListO(tuple(('item', BL(x[1].v.encode('latin-1')) if isinstance(x[1], K) else self.text_bytes(x[1])) for x in q.segs)), 'list') \
                            if all(x[0] == 'item' and isinstance(x[1], (K, St)) for x in q.segs) else unk('split')
                    outs.append((s, r))
                return outs
        if name in ('startswith', 'endswith'):
            return [(s, K(r)) for s, r in self.split_term(st, (name, b) + tuple(args), anyimp(b))]
        if name in ('find', 'index', 'count'):
            return [(st, impint())]
        if name == 'hex':
            return [(st, T('hex', (b,), 'str'))]
        if name in ('strip', 'rstrip', 'lstrip', 'replace'):
            for a in args:
                if is_str(a):
                    return [self.raise_(st, 'TypeError')]
            if isinstance(v, T) and v.op == 'enc' and name in ('strip', 'rstrip', 'lstrip'):
                cs = []
                for a in args:
                    c = self.as_bytes(st, a)
                    cs.append(K(c.const().decode('latin-1')) if c is not None and c.const() is not None else unk('chars'))
                return [(s, r if isinstance(r, Exc) else T('enc', (r,), 'bytes', anyimp(r)))
                        for s, r in self.str_method(st, v.args[0], name, cs, {}, fr, node)]
            return [(st, T('b' + name, (b,), 'bytes', anyimp(b)))]
        if name == 'split':
            return [(st, st.new(ListO(self.opaque_seq(T('bsplit', (b,), None, True)).segs), 'list'))]
        if name in ('tobytes', '__bytes__'):
            return [(st, b)]
        return [self.raise_(st, 'AttributeError', K(name))]

    def extobj_method(self, st, ref, o, name, args, kw, fr, node):
        t = o.typ
        if t == '$cell':
            return [(st, NONE)]
        if self.is_lock(st, ref):
            if name in ('acquire', '__enter__'):
                if (args and args[0] == FALSE) or kw.get('blocking') == FALSE or 'timeout' in kw:
                    s = st.fork()
                    return [(self.lock_acquire(st, ref, fr, node), TRUE), (s, FALSE)]
                return [(self.lock_acquire(st, ref, fr, node), TRUE)]
            if name in ('release', '__exit__'):
                s, e = self.lock_release(st, ref, fr, node)
                return [(s, e if e is not None else NONE)]
            return [(st, unk('lock'))]
        if t == 'socket.socket':
            return self.sock_method(st, ref, name, args, kw, fr, node)
        if t == 'serial':
            return self.serial_method(st, ref, name, args, kw, fr, node)
        if t == 'logging':
            if self.cfg.data.get('logs'):
                st = st.fork()
                self.emit(st, 'log', fr, node, op=name, args=tuple(a for a in args if isinstance(a, V)))
            return [(st, NONE)]
        if t == 'struct.Struct':
            if name == 'pack':
                return self.struct_pack(st, o.args[0], args, fr, node)
            if name == 'unpack':
                return self.struct_unpack(st, o.args[0], args[0], fr, node)
            if name == 'unpack_from':
                off = num(args[1]) if len(args) > 1 else ZERO
                return self.struct_unpack(st, o.args[0], args[0], fr, node, off if off is not None else sym(fresh('imp'), 0))
        if t in ('threading.Event',):
            self.emit(st, 'event', fr, node, obj=ref, op=name)
            k = self.cfg.data.get('events')
            if k is not None:
                s = st.fork()
                if name in ('set', 'clear'):
                    s.setext(('set', ref), K(name == 'set'))
                    return [(x, NONE) for x in self.switch(s, name)]
                if name in ('isSet', 'is_set', 'wait'):
                    # stopped by another thread after k tests
                    c = s.getext(('tests', ref))
                    c = c.l.c if c is not None else 0
                    s.setext(('tests', ref), N(c + 1))
                    return [(s, K(s.getext(('set', ref)) == TRUE and c < k))]
            if name in ('isSet', 'is_set', 'wait'):
                return [(st, T(fresh('isset'), (ref,)))]
            return [(st, NONE)]
        if t in ('threading.Thread', 'threading.Timer'):
            self.emit(st, 'thread', fr, node, obj=ref, op=name, args=tuple(a for a in list(args) + list(kw.values()) if isinstance(a, V)))
            if self.cfg.data.get('events') is not None:
                s = st.fork()
                if name == 'start':
                    if s.getext(('started', ref)) is not None:
                        return [self.raise_(s, 'RuntimeError')]
                    s.setext(('started', ref), TRUE)
                    return [(s, NONE)]
                if name == 'join' and s.getext(('started', ref)) is None:
                    return [self.raise_(s, 'RuntimeError')]
                if name == 'join':
                    return [(x, NONE) for x in self.switch(s, 'join')]
                if name in ('is_alive', 'isAlive'):
                    r = K(s.getext(('started', ref)) is not None and bool(self.cfg.data.get('alive')))
                    return [(x, r) for x in self.switch(s, 'alive')]
            if name in ('is_alive', 'isAlive'):
                return [(st, T(fresh('alive'), (ref,)))]
            return [(st, NONE)]
        if t.startswith('queue.'):
            st = st.fork()
            f = self.cfg.data.get('queues')
            if f is not None:
                return self.fifo(st, f, ref, name, args, kw, fr, node)
            self.emit(st, 'queue', fr, node, obj=ref, op=name, args=tuple(a for a in args if isinstance(a, V)))
            if name in ('get', 'get_nowait'):
                hint = self.cfg.data.get('queue_hint')
                r = T(fresh('got'), (ref,), hint)
                outs = [(st, r)]
                if (args or kw or name == 'get_nowait') and 'queue' in self.cfg.faults:
                    e = st.fork()
                    outs.append((e, self.exc(e, 'queue.Empty')))
                return outs
            if name in ('empty', 'qsize', 'full'):
                return [(st, T(fresh('q'), (ref,)))]
            return [(st, NONE)]
        self.emit(st, 'mcall', fr, node, recv=ref, name=name, args=tuple(a for a in args if isinstance(a, V)))
        return [(st, T('ret', (ref, K(name), K(fresh('m'))), 'opt'))]

    def fifo(self, st, empty, ref, name, args, kw, fr, node):
        """a queue that keeps what is put; empty(I, state, ref, timed) decides on a get when nothing is there"""
        q = st.getext(('fifo', ref))
        q = q.items() if q is not None else []
        if name in ('put', 'put_nowait'):
            v = args[0] if args else kw.get('item')
            self.emit(st, 'put', fr, node, obj=ref, value=v)
            st.setext(('fifo', ref), mkseq(q + [v]))
            return [(st, NONE)]
        if name in ('get', 'get_nowait'):
            if not q:
                timed = name == 'get_nowait' or 'timeout' in kw or len(args) > 1 or kw.get('block') == FALSE or (bool(args) and args[0] == FALSE)
                if name == 'get_nowait' or kw.get('block') == FALSE or (bool(args) and args[0] == FALSE):
                    timed = 'nowait'
                return empty(self, st, ref, timed)
            st.setext(('fifo', ref), mkseq(q[1:]))
            self.emit(st, 'got', fr, node, obj=ref, value=q[0])
            return [(st, q[0])]
        if name == 'empty':
            return [(st, K(not q))]
        if name == 'qsize':
            return [(st, N(len(q)))]
        if name == 'full':
            return [(st, FALSE)]
        return [(st, NONE)]

    def switch(self, s, point):
        """what another thread does at this point"""
        f = self.cfg.data.get('switch', {}).get(point)
        if f is None or s.getext(('switched', point)) is not None:
            return [s]
        if point != 'cancel_read':
            s.setext(('switched', point), TRUE)
        return f(self, s)

    # ------------------------------------------------------------ stubs of package functions
    def stub_call_hooks(self, st, args, kw, fr, node):
        name = kstr(args[0]) if args else None
        if name is None:
            name = kstr(kw.get('name')) if 'name' in kw else None
        a = args[1] if len(args) > 1 else kw.get('args')
        if name is None:
            st = st.fork()
            self.emit(st, 'hook', fr, node, name='?', args=a, out='none')
            return [(st, NONE)]
        outs = []
        conf = self.cfg.hooks
        modes = conf.get(name, conf.get('*', ('none',)))
        for m in modes:
            s = st.fork()
            if m == 'none':
                v = NONE
            elif m == 'ret':
                v = self.hook_value(s, name)
            elif m.startswith('exc:'):
                s, v = self.cfg.data['hookexc'](self, s, name, m[4:])
            else:
                v = self.any_exc(s)
            snap = a
            if isinstance(a, Sq) and a.items() is not None:
                snap = mkseq([self.snap(s, x) for x in a.items()])
            self.emit(s, 'hook', fr, node, name=name, args=a, snap=snap, out=m, val=v.v if isinstance(v, Exc) else v)
            if len(modes) > 1:
                s.facts = s.facts.add_raw(('bool', ('hook', K(name), K(m), K(fresh('h'))), True))
            outs.append((s, v))
        return outs

    def snap(self, st, v):
        """the bytes a bytearray holds at this point"""
        if isinstance(v, Ref) and not v.idx and st.get(v.oid).kind == 'ba':
            return st.get(v.oid).bs
        return v

    def hook_value(self, st, name):
        f = self.cfg.data.get('hookval')
        if f is not None:
            return f(self, st, name)
        return Bs((('sl', 'hook(%s)' % name, ZERO, sym('len(hook(%s))' % name, 0, None)),))

    def stub_crc(self, st, args, kw, fr, node):
        b = self.as_bytes(st, args[0])
        if b is None:
            return [(st, impint())]
        return [(st, N(crc_atom(b)))]

    def stub_logbuf(self, st, args, kw, fr, node):
        return [(st, T('logbuf', (), 'str'))]

    STUBS = {
        'modbus_tk.hooks.call_hooks': lambda I, st, a, k, fr, n: I.stub_call_hooks(st, a, k, fr, n),
        'modbus_tk.utils.calculate_crc': lambda I, st, a, k, fr, n: I.stub_crc(st, a, k, fr, n),
        'modbus_tk.utils.get_log_buffer': lambda I, st, a, k, fr, n: I.stub_logbuf(st, a, k, fr, n),
    }


def crc_atom(b):
    return lin(mkatom('crc', (b,), 0, 65535))


def at_segs(segs, idx):
    if not idx:
        return segs
    return substx(segs, dict((PH[i].id, v) for i, v in enumerate(idx)))
