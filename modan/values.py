"""Abstract values: immutable, structurally comparable."""
from .lin import Lin, Atom, lin, fld, mkatom, fresh, subst_lin, merge_bytes, mod, ZERO, ONE, sym


class V(object):
    __slots__ = ('_k', '_h')

    def key(self):
        k = getattr(self, '_k', None)
        if k is None:
            k = self._mk()
            self._k = k
            self._h = hash(k)
        return k

    def __hash__(self):
        self.key()
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return self.__class__ is o.__class__ and hash(self) == hash(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def subst(self, amap):
        return self

    @property
    def deps(self):
        return frozenset()

    def free_atoms(self):
        return frozenset()


class K(V):
    """constant: None, bool, str, float, Ellipsis, NotImplemented"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _mk(self):
        return ('K', type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class N(V):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = lin(l)

    def _mk(self):
        return ('N', self.l)

    def __repr__(self):
        return '<%r>' % self.l

    def subst(self, amap):
        return N(subst_lin(self.l, amap))

    @property
    def deps(self):
        return self.l.deps

    def free_atoms(self):
        return self.l.free_atoms()


def substx(x, amap):
    if isinstance(x, Lin):
        return subst_lin(x, amap)
    if isinstance(x, tuple):
        return tuple(substx(y, amap) for y in x)
    if isinstance(x, V):
        return x.subst(amap)
    return x


def depsx(x):
    if isinstance(x, (Lin, V)):
        return x.deps
    if isinstance(x, Atom):
        return x.deps
    if isinstance(x, (tuple, list)):
        r = frozenset()
        for y in x:
            r |= depsx(y)
        return r
    return frozenset()


def freex(x):
    if isinstance(x, (Lin, V)):
        return x.free_atoms()
    if isinstance(x, Atom):
        return x.free
    if isinstance(x, (tuple, list)):
        r = frozenset()
        for y in x:
            r |= freex(y)
        return r
    return frozenset()


class T(V):
    """uninterpreted term; imp: its value depends on something the analysis does not model"""
    __slots__ = ('op', 'args', 'hint', 'imp')

    def __init__(self, op, args=(), hint=None, imp=False):
        self.op, self.args, self.hint, self.imp = op, tuple(args), hint, imp

    def _mk(self):
        return ('T', self.op, self.args, self.hint, self.imp)

    def __repr__(self):
        return '%s%s' % (self.op, '(%s)' % ','.join(map(repr, self.args)) if self.args else '')

    def subst(self, amap):
        return T(self.op, substx(self.args, amap), self.hint, self.imp)

    @property
    def deps(self):
        return depsx(self.args) | (frozenset([self.op]) if not self.args else frozenset())

    def free_atoms(self):
        return freex(self.args)


def unk(prefix='u', hint=None, imp=True):
    return T(fresh(prefix), (), hint, imp)


def anyimp(*xs):
    for x in xs:
        if isinstance(x, T):
            if x.imp or anyimp(*x.args):
                return True
        elif isinstance(x, (tuple, list)):
            if anyimp(*x):
                return True
        elif isinstance(x, Sq):
            if anyimp(*x.segs):
                return True
        elif isinstance(x, St):
            if anyimp(*x.parts):
                return True
        elif isinstance(x, Bs):
            for s in x.segs:
                if s[0] == 'u' and s[1].startswith(('imp', 'h#')):
                    return True
                if s[0] == 'pk' and lin_imp(s[3]):
                    return True
        elif isinstance(x, N):
            if lin_imp(x.l):
                return True
    return False


def lin_imp(L):
    for a, _ in L.t:
        for d in a.deps:
            if d.startswith('imp') or d.startswith('h#'):      # h#: what a loop summary left open
                return True
    return False


def impint(*args):
    """unknown integer derived from something not modelled"""
    return N(sym(fresh('imp')))


class Ref(V):
    """reference to heap object oid; idx: the element of a family of objects"""
    __slots__ = ('oid', 'idx')

    def __init__(self, oid, idx=()):
        self.oid, self.idx = oid, tuple(idx)

    def _mk(self):
        return ('R', self.oid, self.idx)

    def __repr__(self):
        return '@%s%s' % (self.oid, list(self.idx) if self.idx else '')

    def subst(self, amap):
        if not self.idx:
            return self
        return Ref(self.oid, substx(self.idx, amap))

    def free_atoms(self):
        return freex(self.idx)

    @property
    def deps(self):
        return depsx(self.idx)


class Fn(V):
    __slots__ = ('node', 'mod', 'env', 'qual', 'defs', 'kwdefs', 'cls')

    def __init__(self, node, mod, env, qual, defs=(), kwdefs=None, cls=None):
        self.node, self.mod, self.env, self.qual = node, mod, env, qual
        self.defs, self.kwdefs, self.cls = tuple(defs), kwdefs or {}, cls

    def _mk(self):
        return ('Fn', id(self.node), self.env)

    def __repr__(self):
        return 'fn:%s' % self.qual


class BM(V):
    __slots__ = ('recv', 'fn')

    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn

    def _mk(self):
        return ('BM', self.recv, self.fn)

    def __repr__(self):
        return '%r.%r' % (self.recv, self.fn)


class Wrap(V):
    """staticmethod / classmethod / property marker, functools.partial"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    def _mk(self):
        return ('W', self.kind, self.val)

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.val)


class Ext(V):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def _mk(self):
        return ('E', self.path)

    def __repr__(self):
        return 'ext:' + self.path


class ExtM(V):
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def _mk(self):
        return ('EM', self.recv, self.name)

    def __repr__(self):
        return '%r.%s' % (self.recv, self.name)

    def subst(self, amap):
        return ExtM(self.recv.subst(amap), self.name)


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _mk(self):
        return ('Mod', self.name)

    def __repr__(self):
        return 'module:' + self.name


class Sl(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def _mk(self):
        return ('Sl', self.lo, self.hi, self.step)

    def __repr__(self):
        return '[%r:%r]' % (self.lo, self.hi)

    def subst(self, amap):
        return Sl(self.lo.subst(amap), self.hi.subst(amap), self.step.subst(amap))


class Sup(V):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def _mk(self):
        return ('Sup', self.cls, self.obj)


class Gen(V):
    """generator expression / lazy map, not yet consumed"""
    __slots__ = ('node', 'fr', 'first', 'kind')

    def __init__(self, node, fr, first, kind='genexp'):
        self.node, self.fr, self.first, self.kind = node, fr, first, kind

    def _mk(self):
        return ('Gen', id(self.node), id(self.fr), self.first, self.kind)


# ------------------------------------------------------------------ bytes
class Bs(V):
    """byte string as a concatenation of segments
    ('lit', bytes) ('pk', size, endian, Lin) ('sl', base, lo, n) ('rep', k, n, segs) ('u', uid, n, deps)"""
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = canon_segs(segs)

    def _mk(self):
        return ('Bs', self.segs)

    def __repr__(self):
        return 'b<%s>' % ' '.join(seg_repr(s) for s in self.segs)

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + seg_len(s)
        return n

    def subst(self, amap):
        return Bs(tuple(subst_seg(s, amap) for s in self.segs))

    @property
    def deps(self):
        r = frozenset()
        for s in self.segs:
            r |= seg_deps(s)
        return r

    def free_atoms(self):
        return freex(self.segs)

    def const(self):
        if all(s[0] == 'lit' for s in self.segs):
            return b''.join(s[1] for s in self.segs)
        return None


def seg_deps(s):
    if s[0] == 'lit':
        return frozenset()
    if s[0] == 'sl':
        return frozenset([s[1]]) | s[2].deps | s[3].deps
    if s[0] == 'u':
        return frozenset([s[1]]) | s[2].deps | frozenset(s[3])
    if s[0] == 'rep':
        r = s[2].deps
        for x in s[3]:
            r |= seg_deps(x)
        return r
    return depsx(s)


def seg_repr(s):
    if s[0] == 'lit':
        return s[1].hex()
    if s[0] == 'pk':
        return '%s%d(%r)' % (s[2], s[1], s[3])
    if s[0] == 'sl':
        return '%s[%r:+%r]' % (s[1], s[2], s[3])
    if s[0] == 'rep':
        return 'rep(%r<%r:%s)' % (s[1], s[2], ' '.join(seg_repr(x) for x in s[3]))
    return '%s:%r' % (s[1], s[2])


def segs_len(segs):
    n = ZERO
    for s in segs:
        n = n + seg_len(s)
    return n


def seg_len(s):
    if s[0] == 'lit':
        return Lin(len(s[1]))
    if s[0] == 'pk':
        return Lin(s[1])
    if s[0] == 'sl':
        return s[3]
    if s[0] == 'u':
        return s[2]
    c = segs_len(s[3])
    if c.is_const:
        return s[2].scale(c.c)
    if s[2].is_const:
        return c.scale(s[2].c)
    return lin(mkatom('sumlen', (s[2], c), 0, None))


def subst_seg(s, amap):
    if s[0] == 'lit':
        return s
    if s[0] == 'rep':
        if s[1].id in amap:
            amap = dict(amap)
            del amap[s[1].id]
        return ('rep', s[1], subst_lin(s[2], amap), tuple(subst_seg(x, amap) for x in s[3]))
    return tuple(subst_lin(x, amap) if isinstance(x, Lin) else x for x in s)


def canon_segs(segs):
    out = []
    for s in segs:
        s = canon_seg(s)
        if s is None:
            continue
        if s[0] == 'many':
            for x in s[1]:
                _push(out, x)
        else:
            _push(out, s)
    return tuple(out)


def _push(out, s):
    if out:
        p = out[-1]
        if p[0] == 'lit' and s[0] == 'lit':
            out[-1] = ('lit', p[1] + s[1])
            return
        if p[0] == 'sl' and s[0] == 'sl' and p[1] == s[1] and p[2] + p[3] == s[2]:
            out[-1] = ('sl', p[1], p[2], p[3] + s[3])
            return
        if p[0] == 'rep' and len(p[3]) == 1 and p[3][0][0] == 'pk' and s[0] == 'pk' and len(p[3]) == 1 \
                and subst_seg(p[3][0], {p[1].id: p[2]}) == s and s[3].free_atoms():
            out[-1] = ('rep', p[1], p[2] + 1, p[3])
            return
    out.append(s)


def canon_seg(s):
    if s[0] == 'lit':
        return s if s[1] else None
    if s[0] == 'pk':
        size, endian, v = s[1], s[2], s[3]
        if v.is_const:
            return ('lit', (v.c % (1 << (8 * size))).to_bytes(size, 'big' if endian == '>' else 'little'))
        if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            a = v.t[0][0]
            if a.op == 'fld' and a.args[2] == size and (a.args[4] == endian or size == 1):
                return ('sl', a.args[0], a.args[1], Lin(size))
        return s
    if s[0] == 'sl':
        return None if s[3] == ZERO else s
    if s[0] == 'u':
        return None if s[2] == ZERO else s
    # rep
    k, n, inner = s[1], s[2], canon_segs(s[3])
    if n == ZERO or not inner:
        return None
    if n.is_const and 0 < n.c <= 16:
        res = []
        for i in range(n.c):
            res.extend(subst_seg(x, {k.id: Lin(i)}) for x in inner)
        return ('many', canon_segs(res))
    if len(inner) == 1 and inner[0][0] == 'sl':
        x = inner[0]
        if k.id not in x[3].free_atoms():
            step = None
            for a, c in x[2].t:
                if a is k:
                    step = c
            rest = x[2] - lin(k).scale(step or 0)
            if step is not None and x[3] == Lin(step) and k.id not in rest.free_atoms():
                return ('sl', x[1], rest, n.scale(step))
    # canonical bound variable
    kk = mkatom('bv', (_depth(inner),), 0)
    if k is not kk:
        inner = tuple(subst_seg(x, {k.id: lin(kk)}) for x in inner)
        return canon_seg(('rep', kk, n, inner)) if False else ('rep', kk, n, inner)
    return ('rep', kk, n, inner)


def _depth(x):
    d = 0
    if isinstance(x, tuple):
        if x and x[0] == 'rep':
            d = 1
        for y in x:
            if isinstance(y, tuple):
                d = max(d, (1 if x and x[0] == 'rep' else 0) + _depth(y))
            elif isinstance(y, Sq):
                d = max(d, (1 if x and x[0] == 'rep' else 0) + _depth(y.segs))
            elif isinstance(y, Lin):
                for a in y.free_atoms():
                    pass
    return d


def BL(b):
    return Bs((('lit', bytes(b)),))


def base_bytes(name, n=None):
    if n is None:
        n = sym('len(%s)' % name, 0, None, deps=frozenset([name]))
    return Bs((('sl', name, ZERO, n),))


# ------------------------------------------------------------------ text
class St(V):
    """text: parts are str or ('f', spec, V) or ('rep', Lin, str)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def _mk(self):
        return ('St', self.parts)

    def __repr__(self):
        return 'str<%s>' % ' '.join(repr(p) for p in self.parts)

    def subst(self, amap):
        return mkstr(substx(self.parts, amap))

    @property
    def deps(self):
        return depsx(self.parts)

    def free_atoms(self):
        return freex(self.parts)


def mkstr(parts):
    s = St(parts)
    if not s.parts:
        return K('')
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return K(s.parts[0])
    if len(s.parts) == 1 and s.parts[0][0] == 'f' and s.parts[0][1] == 's' and is_str(s.parts[0][2]):
        return s.parts[0][2]
    return s


def is_str(v):
    return (isinstance(v, K) and isinstance(v.v, str)) or isinstance(v, St) or (isinstance(v, T) and v.hint == 'str')


def str_parts(v):
    if isinstance(v, K):
        return (v.v,)
    if isinstance(v, St):
        return v.parts
    return (('f', 's', v),)


# ------------------------------------------------------------------ sequences
class Sq(V):
    """immutable sequence: segments ('item', V) and ('rep', k, n, (V, ...))"""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs=(), kind='tuple'):
        out = []
        for s in segs:
            if s[0] == 'rep':
                if s[2] == ZERO or not s[3]:
                    continue
                if s[2].is_const and 0 < s[2].c * len(s[3]) <= 16:
                    for i in range(s[2].c):
                        out.extend(('item', v.subst({s[1].id: Lin(i)})) for v in s[3])
                    continue
                kk = mkatom('bv', (_depth(s[3]),), 0)
                if s[1] is not kk:
                    s = ('rep', kk, s[2], tuple(v.subst({s[1].id: lin(kk)}) for v in s[3]))
            out.append(s)
        self.segs = tuple(out)
        self.kind = kind

    def _mk(self):
        return ('Sq', self.segs, self.kind)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join(
            repr(s[1]) if s[0] == 'item' else 'rep(%r<%r:%s)' % (s[1], s[2], s[3]) for s in self.segs))

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + (ONE if s[0] == 'item' else s[2].scale(len(s[3])))
        return n

    def items(self):
        """list of values when the length is a known constant, else None"""
        if all(s[0] == 'item' for s in self.segs):
            return [s[1] for s in self.segs]
        return None

    def subst(self, amap):
        return Sq(tuple(subst_sseg(s, amap) for s in self.segs), self.kind)

    @property
    def deps(self):
        return depsx(self.segs)

    def free_atoms(self):
        return freex(self.segs)


def subst_sseg(s, amap):
    if s[0] == 'item':
        return ('item', s[1].subst(amap))
    if s[1].id in amap:
        amap = dict(amap)
        del amap[s[1].id]
    return ('rep', s[1], subst_lin(s[2], amap), tuple(v.subst(amap) for v in s[3]))


def Tup(*vals):
    return Sq(tuple(('item', v) for v in vals))


def mkseq(vals, kind='tuple'):
    return Sq(tuple(('item', v) for v in vals), kind)


def num(v):
    """Lin of an integer-like value, or None"""
    if isinstance(v, N):
        return v.l
    if isinstance(v, K) and isinstance(v.v, bool):
        return Lin(int(v.v))
    return None


class Exc(object):
    """exceptional result of an evaluation"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'EXC(%r)' % self.v
