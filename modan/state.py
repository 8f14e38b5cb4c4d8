"""Abstract heap, events and states."""
from .lin import Lin, lin, mkatom, Facts, fresh, literal_subst, choose, literal_not, complementary, ZERO
from .values import *
from .values import substx, freex


class Obj(object):
    kind = '?'
    __slots__ = ()
    F = ()

    def set(self, **kw):
        o = self.__class__.__new__(self.__class__)
        for f in self.F:
            setattr(o, f, kw[f] if f in kw else getattr(self, f))
        return o

    def __eq__(self, o):
        if self is o:
            return True
        if self.__class__ is not o.__class__:
            return False
        return all(getattr(self, f) == getattr(o, f) for f in self.F)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def subst(self, amap):
        kw = {}
        for f in self.F:
            v = getattr(self, f)
            if isinstance(v, dict):
                kw[f] = dict((k, substx(x, amap)) for k, x in v.items())
            else:
                kw[f] = substx(v, amap)
        return self.set(**kw)


class InstO(Obj):
    """instance of an analysed class; open: unknown attributes may exist"""
    kind = 'inst'
    F = ('cls', 'attrs', 'open')
    __slots__ = F

    def __init__(self, cls, attrs=None, open=False):
        self.cls, self.attrs, self.open = cls, attrs or {}, open


class ClsO(Obj):
    kind = 'cls'
    F = ('name', 'bases', 'attrs', 'mod', 'env')
    __slots__ = F

    def __init__(self, name, bases, attrs, mod, env=None):
        self.name, self.bases, self.attrs, self.mod, self.env = name, bases, attrs, mod, env


class ListO(Obj):
    kind = 'list'
    F = ('segs',)
    __slots__ = F

    def __init__(self, segs=()):
        self.segs = Sq(segs).segs


class CellsO(Obj):
    """the stored values of one block: length n, content read as cell atoms"""
    kind = 'cells'
    F = ('n', 'lo', 'hi')
    __slots__ = F

    def __init__(self, n, lo=None, hi=None):
        self.n, self.lo, self.hi = n, lo, hi


class DictO(Obj):
    """entries: ((key, value), ...) known; gone: keys known absent; tmpl: (placeholder atom, key kind, value) of unknown entries"""
    kind = 'dict'
    F = ('entries', 'gone', 'tmpl', 'ver')
    __slots__ = F

    def __init__(self, entries=(), gone=(), tmpl=None, ver=0):
        self.entries, self.gone, self.tmpl, self.ver = tuple(entries), tuple(gone), tmpl, ver


class SetO(Obj):
    kind = 'set'
    F = ('items', 'open')
    __slots__ = F

    def __init__(self, items=(), open=False):
        self.items, self.open = tuple(items), open


class BAO(Obj):
    kind = 'ba'
    F = ('bs',)
    __slots__ = F

    def __init__(self, bs):
        self.bs = bs


class EnvO(Obj):
    kind = 'env'
    F = ('vars', 'parent', 'locals', 'captured')
    __slots__ = F

    def __init__(self, vars=None, parent=None, locals=frozenset(), captured=False):
        self.vars, self.parent, self.locals, self.captured = vars or {}, parent, locals, captured


class ExtO(Obj):
    """instance of an external class (socket, lock, thread, event, queue, serial port ...)"""
    kind = 'ext'
    F = ('typ', 'attrs', 'args')
    __slots__ = F

    def __init__(self, typ, attrs=None, args=()):
        self.typ, self.attrs, self.args = typ, attrs or {}, tuple(args)


class IterO(Obj):
    kind = 'iter'
    F = ('seq', 'pos')
    __slots__ = F

    def __init__(self, seq, pos=ZERO):
        self.seq, self.pos = seq, pos


class Ev(object):
    """one event of the trace"""
    __slots__ = ('kind', 'd', 'loc', 'facts', 'locks', 'fn', 'stack')

    def __init__(self, kind, d, loc, facts, locks, fn, stack=()):
        self.kind, self.d, self.loc, self.facts, self.locks, self.fn = kind, d, loc, facts, locks, fn
        self.stack = stack

    def __repr__(self):
        return '%s%r@%s:%s' % (self.kind, self.d, self.loc[0], self.loc[1])

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)


class State(object):
    __slots__ = ('heap', 'base', 'own', 'facts', 'trace', 'ntrace', 'locks', 'ext', 'flags', 'pend')

    def __init__(self, base=None):
        self.heap, self.base, self.own = {}, base or {}, True
        self.facts = Facts()
        self.trace, self.ntrace = None, 0
        self.locks = ()
        self.ext = {}
        self.flags = frozenset()
        self.pend = None          # exception being handled (for bare raise)

    def fork(self):
        s = State.__new__(State)
        s.heap, s.base = self.heap, self.base
        s.own = False
        self.own = False
        s.facts, s.trace, s.ntrace = self.facts, self.trace, self.ntrace
        s.locks, s.ext, s.flags, s.pend = self.locks, self.ext, self.flags, self.pend
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.base[oid]
        return o

    def has(self, oid):
        return oid in self.heap or oid in self.base

    def put(self, oid, obj):
        if not self.own:
            self.heap = dict(self.heap)
            self.own = True
        self.heap[oid] = obj

    def drop(self, oid):
        if oid in self.heap:
            if not self.own:
                self.heap = dict(self.heap)
                self.own = True
            del self.heap[oid]

    def new(self, obj, label='o'):
        oid = fresh(label)
        self.put(oid, obj)
        return Ref(oid)

    def setext(self, k, v):
        e = dict(self.ext)
        e[k] = v
        self.ext = e

    def getext(self, k, default=None):
        return self.ext.get(k, default)

    def flag(self, f):
        self.flags = self.flags | frozenset([f])

    def with_facts(self, f):
        if f is self.facts:
            return self
        s = self.fork()
        s.facts = f
        return s

    def assume(self, lit):
        """new state or None"""
        f = self.facts.add_literal(lit)
        if f is None:
            return None
        return self.with_facts(f)

    def same(self, o):
        """nothing that o knows is different in this state (the trace apart)"""
        if self.facts is not o.facts and self.facts.log != o.facts.log:
            return False
        if self.ext != o.ext or self.flags != o.flags or self.locks != o.locks:
            return False
        return all(self.has(k) and self.get(k) == x for k, x in o.heap.items())

    def emit(self, ev):
        self.trace = (self.trace, ev)
        self.ntrace += 1

    def events(self, since=0):
        out = []
        t = self.trace
        n = self.ntrace
        while t is not None and n > since:
            out.append(t[1])
            t = t[0]
            n -= 1
        out.reverse()
        return out


PH = [mkatom('ph', (i,), None, None) for i in range(4)]


def at_idx(x, idx):
    """instantiate a family member"""
    if not idx:
        return x
    return substx(x, dict((PH[i].id, v) for i, v in enumerate(idx)))


def key_lin(v):
    n = num(v)
    if n is not None:
        return n
    return lin(mkatom('id', (v,)))
