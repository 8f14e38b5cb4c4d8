"""Linear integer forms over named atoms, and conjunctions of facts about them.

Atoms are interned terms (an input field, a length, the quotient of a form by a
constant, a bit of a form ...).  A Facts object is a conjunction of linear
inequalities, disequalities and boolean facts; entailment is decided by
Fourier-Motzkin elimination with integer tightening (no external solver).
"""
from math import gcd

_ATOMS = {}
_BYID = []


class Atom(object):
    __slots__ = ('id', 'op', 'args', 'lo', 'hi', 'deps', 'free', 'name')

    def __repr__(self):
        return self.name


def _free_of(x):
    if isinstance(x, Lin):
        r = frozenset()
        for a, _ in x.t:
            r |= a.free
        return r
    if isinstance(x, Atom):
        return x.free
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _free_of(y)
        return r
    f = getattr(x, 'free_atoms', None)
    if f is not None:
        return f()
    return frozenset()


def _deps_of(x):
    if isinstance(x, Lin):
        r = frozenset()
        for a, _ in x.t:
            r |= a.deps
        return r
    if isinstance(x, Atom):
        return x.deps
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _deps_of(y)
        return r
    d = getattr(x, 'deps', None)
    if isinstance(d, frozenset):
        return d
    return frozenset()


def mkatom(op, args, lo=None, hi=None, deps=None):
    key = (op, args)
    a = _ATOMS.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_BYID)
    a.op, a.args, a.lo, a.hi = op, args, lo, hi
    fr = _free_of(args)
    a.free = fr | frozenset([a.id])
    if deps is None:
        deps = _deps_of(args)
        if op == 'sym':
            deps = frozenset([args[0]])
    a.deps = deps
    if op == 'sym':
        a.name = args[0]
    else:
        a.name = '%s(%s)' % (op, ','.join(str(x) for x in args))
    _ATOMS[key] = a
    _BYID.append(a)
    return a


_FRESH = [0]


def fresh(prefix):
    _FRESH[0] += 1
    return '%s#%d' % (prefix, _FRESH[0])


def _bounds(L):
    lo = hi = L.c
    for a, k in L.t:
        alo, ahi = a.lo, a.hi
        if k < 0:
            alo, ahi = ahi, alo
        lo = None if lo is None or alo is None else lo + k * alo
        hi = None if hi is None or ahi is None else hi + k * ahi
    return lo, hi


class Lin(object):
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((a.id, k) for a, k in self.t)))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = {}
        for a, k in self.t:
            d[a.id] = k
        for a, k in o.t:
            d[a.id] = d.get(a.id, 0) + k
        return Lin(self.c + o.c, tuple((_BYID[i], d[i]) for i in sorted(d) if d[i]))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    @property
    def is_const(self):
        return not self.t

    @property
    def deps(self):
        return _deps_of(self)

    def free_atoms(self):
        return _free_of(self)

    def bounds(self):
        lo, hi = _bounds(self)
        if len(self.t) > 1:
            # x - c*(x // c) lies in [0, c-1]
            for a, k in self.t:
                if a.op == 'fdiv' and k % a.args[1] == 0:
                    m = -k // a.args[1]
                    rest = self - (a.args[0] - lin(a).scale(a.args[1])).scale(m)
                    if len(rest.t) < len(self.t):
                        l, h = rest.bounds()
                        w = m * (a.args[1] - 1)
                        l = None if l is None else l + min(0, w)
                        h = None if h is None else h + max(0, w)
                        if l is not None and (lo is None or l > lo):
                            lo = l
                        if h is not None and (hi is None or h < hi):
                            hi = h
        return lo, hi

    def __repr__(self):
        s = []
        for a, k in self.t:
            if k == 1:
                s.append('+%s' % a)
            elif k == -1:
                s.append('-%s' % a)
            else:
                s.append('%+d*%s' % (k, a))
        if self.c or not s:
            s.append('%+d' % self.c)
        r = ''.join(s)
        return r[1:] if r.startswith('+') else r


ZERO = Lin(0)
ONE = Lin(1)


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Atom):
        return Lin(0, ((x, 1),))
    return Lin(int(x))


def sym(name, lo=None, hi=None, deps=None):
    return lin(mkatom('sym', (name,), lo, hi, deps))


# ---------------------------------------------------------------- operations
def floordiv(L, c):
    """floor(L / c), c a positive constant"""
    assert c > 0
    if c == 1:
        return L
    if L.is_const:
        return Lin(L.c // c)
    # split into the part divisible by c and the rest
    div = [(a, k // c) for a, k in L.t if k % c == 0]
    rest = [(a, k) for a, k in L.t if k % c]
    q, r = divmod(L.c, c)
    R = Lin(r, tuple(rest))
    out = Lin(q, tuple(div))
    if not rest:
        return out
    lo, hi = R.bounds()
    if lo is not None and hi is not None and lo // c == hi // c:
        return out + (lo // c)
    # nested quotients
    if len(rest) == 1 and rest[0][1] == 1 and rest[0][0].op == 'fdiv':
        inner, c2 = rest[0][0].args
        return out + floordiv(inner + Lin(r * c2), c * c2)
    qlo = None if lo is None else lo // c
    qhi = None if hi is None else hi // c
    return out + lin(mkatom('fdiv', (R, c), qlo, qhi))


def mod(L, c):
    if c == 2:
        b = as_bit(L)
        if b is not None:
            return b
    return L - floordiv(L, c).scale(c)


def as_bit(L):
    """L % 2 as a bit of some form, when L is x, x // 2**j or x >> j"""
    if L.is_const:
        return Lin(L.c % 2)
    lo, hi = L.bounds()
    if lo is not None and hi is not None and lo >= 0 and hi <= 1:
        return L
    if L.c == 0 and len(L.t) == 1 and L.t[0][1] == 1:
        a = L.t[0][0]
        if a.op == 'fdiv' and (a.args[1] & (a.args[1] - 1)) == 0:
            return mkbit(a.args[0], Lin(a.args[1].bit_length() - 1))
        if a.op == 'shr':
            return mkbit(a.args[0], a.args[1])
        return mkbit(L, ZERO)
    return None


def mkbit(x, j):
    """bit j of x"""
    if x.is_const and j.is_const:
        return Lin((x.c >> j.c) & 1)
    # bits of a signed field are the bits of the unsigned one
    if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        a = x.t[0][0]
        if a.op == 'fld' and a.args[3]:
            x = fld(a.args[0], a.args[1], a.args[2], False, a.args[4])
        elif a.op == 'fdiv' and (a.args[1] & (a.args[1] - 1)) == 0:
            return mkbit(a.args[0], j + (a.args[1].bit_length() - 1))
        elif a.op == 'shr':
            return mkbit(a.args[0], j + a.args[1])
    # bit j of sum of 2**i * bit_i
    if j.is_const and x.t:
        lo, hi = x.bounds()
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << j.c):
            return ZERO
        parts = decompose_bits(x)
        if parts is not None:
            return parts.get(j.c, ZERO)
    return lin(mkatom('bit', (x, j), 0, 1))


def decompose_bits(x):
    """{weight index: 0/1 form} when x is a sum of distinct powers of two times 0/1 atoms"""
    out = {}
    if x.c < 0:
        return None
    for i in range(x.c.bit_length()):
        if (x.c >> i) & 1:
            out[i] = ONE
    for a, k in x.t:
        if a.lo != 0 or a.hi != 1 or k <= 0 or k & (k - 1):
            return None
        i = k.bit_length() - 1
        if i in out:
            return None
        out[i] = lin(a)
    return out


def fld(base, off, size, signed, endian):
    if size == 1:
        endian = '>'
    n = 8 * size
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    return lin(mkatom('fld', (base, off, size, signed, endian), lo, hi, deps=frozenset([str(base)]) | off.deps))


def shl(x, n):
    if n.is_const and n.c >= 0:
        return x.scale(1 << n.c)
    if x.is_const and x.c != 0:
        nlo, nhi = n.bounds()
        lo = hi = None
        if nlo is not None and nlo >= 0:
            lo = 1 << nlo
            if nhi is not None and nhi < 64:
                hi = 1 << nhi
        return lin(mkatom('shl', (ONE, n), lo, hi)).scale(x.c)
    if x.is_const:
        return ZERO
    return lin(mkatom('shl', (x, n)))


def shr(x, n):
    if n.is_const and n.c >= 0:
        return floordiv(x, 1 << n.c)
    lo, hi = x.bounds()
    if lo is not None and lo >= 0:
        return lin(mkatom('shr', (x, n), 0, hi))
    return lin(mkatom('shr', (x, n)))


def _pow2_atom(L):
    """(scale, n) when L is 2**n, n a form"""
    if L.is_const and L.c > 0 and (L.c & (L.c - 1)) == 0:
        return Lin(L.c.bit_length() - 1)
    if L.c == 0 and len(L.t) == 1 and L.t[0][1] == 1 and L.t[0][0].op == 'shl' and L.t[0][0].args[0] == ONE:
        return L.t[0][0].args[1]
    return None


def band(x, y):
    if x.is_const and y.is_const:
        return Lin(x.c & y.c)
    for p, q in ((x, y), (y, x)):
        if q.is_const and q.c >= 0 and (q.c & (q.c + 1)) == 0:
            return mod(p, q.c + 1) if q.c else ZERO
        n = _pow2_atom(q)
        if n is not None:
            b = mkbit(p, n)
            if n.is_const:
                return b.scale(1 << n.c)
            if len(b.t) == 1 and b.c == 0:
                return lin(mkatom('mul', (b, q) if b.t[0][0].id < q.t[0][0].id else (q, b), 0, q.bounds()[1]))
    lo = hi = None
    for q in (x, y):
        l, h = q.bounds()
        if l is not None and l >= 0:
            lo = 0
            hi = h if hi is None or (h is not None and h < hi) else hi
    return lin(mkatom('band', _sorted2(x, y), lo, hi))


def _sorted2(x, y):
    return (x, y) if repr(x) <= repr(y) else (y, x)


def bor(x, y):
    if x.is_const and y.is_const:
        return Lin(x.c | y.c)
    for p, q in ((x, y), (y, x)):
        if q == ZERO:
            return p
        # disjoint bits: p a multiple of 2**n, 0 <= q < 2**n
        l, h = q.bounds()
        if l is not None and h is not None and l >= 0:
            n = 1 << h.bit_length()
            if p.c % n == 0 and all(k % n == 0 for _, k in p.t):
                return merge_bytes(p + q)
    # disjoint single bits
    dx, dy = decompose_bits(x), decompose_bits(y)
    if dx is not None and dy is not None and not set(dx) & set(dy):
        return x + y
    lo = hi = None
    bx, by = x.bounds(), y.bounds()
    if bx[0] is not None and by[0] is not None and bx[0] >= 0 and by[0] >= 0:
        lo = 0
        if bx[1] is not None and by[1] is not None:
            hi = (1 << max(bx[1].bit_length(), by[1].bit_length())) - 1
    return lin(mkatom('bor', _sorted2(x, y), lo, hi))


def bxor(x, y):
    if x.is_const and y.is_const:
        return Lin(x.c ^ y.c)
    for p, q in ((x, y), (y, x)):
        if q == ZERO:
            return p
        if q == Lin(-1):
            return -p - 1
    lo = hi = None
    bx, by = x.bounds(), y.bounds()
    if bx[0] is not None and by[0] is not None and bx[0] >= 0 and by[0] >= 0:
        lo = 0
        if bx[1] is not None and by[1] is not None:
            hi = (1 << max(bx[1].bit_length(), by[1].bit_length())) - 1
    return lin(mkatom('bxor', _sorted2(x, y), lo, hi))


def merge_bytes(L):
    """256*b[o] + b[o+1] of one input -> the 16-bit field"""
    for a, k in L.t:
        if k == 256 and a.op == 'fld' and a.args[2] == 1:
            for b, m in L.t:
                if m == 1 and b.op == 'fld' and b.args[2] == 1 and not b.args[3] and a.args[0] == b.args[0]:
                    if b.args[1] - a.args[1] == ONE:
                        rest = L - lin(a).scale(256) - lin(b)
                        return merge_bytes(rest + fld(a.args[0], a.args[1], 2, a.args[3], '>'))
                    if a.args[1] - b.args[1] == ONE:
                        rest = L - lin(a).scale(256) - lin(b)
                        return merge_bytes(rest + fld(a.args[0], b.args[1], 2, a.args[3], '<'))
    return L


def mul(x, y):
    if x.is_const:
        return y.scale(x.c)
    if y.is_const:
        return x.scale(y.c)
    bx, by = x.bounds(), y.bounds()
    lo = hi = None
    if None not in bx and None not in by:
        ps = [p * q for p in bx for q in by]
        lo, hi = min(ps), max(ps)
    elif bx[0] is not None and by[0] is not None and bx[0] >= 0 and by[0] >= 0:
        lo = bx[0] * by[0]
    return lin(mkatom('mul', _sorted2(x, y), lo, hi))


def minmax(op, x, y):
    d = x - y
    lo, hi = d.bounds()
    if lo is not None and lo >= 0:
        return y if op == 'min' else x
    if hi is not None and hi <= 0:
        return x if op == 'min' else y
    bx, by = x.bounds(), y.bounds()
    f = min if op == 'min' else max
    if op == 'min':
        hi2 = [v for v in (bx[1], by[1]) if v is not None]
        r = (None if None in (bx[0], by[0]) else min(bx[0], by[0]), min(hi2) if hi2 else None)
    else:
        lo2 = [v for v in (bx[0], by[0]) if v is not None]
        r = (max(lo2) if lo2 else None, None if None in (bx[1], by[1]) else max(bx[1], by[1]))
    return lin(mkatom(op, _sorted2(x, y), r[0], r[1]))


# ---------------------------------------------------------------- substitution
def subst_lin(L, amap):
    """amap: {atom id: Lin}"""
    ids = frozenset(amap)
    if not (L.free_atoms() & ids):
        return L
    out = Lin(L.c)
    for a, k in L.t:
        out = out + subst_atom(a, amap, ids).scale(k)
    return out


def _subst_any(x, amap, ids):
    if isinstance(x, Lin):
        return subst_lin(x, amap)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, amap, ids) for y in x)
    s = getattr(x, 'subst', None)
    if s is not None:
        return s(amap)
    return x


def subst_atom(a, amap, ids):
    if a.id in amap:
        return amap[a.id]
    if not (a.free & ids):
        return lin(a)
    args = tuple(_subst_any(x, amap, ids) for x in a.args)
    op = a.op
    if op == 'fdiv':
        return floordiv(args[0], args[1])
    if op == 'bit':
        return mkbit(args[0], args[1])
    if op == 'fld':
        return fld(*args)
    if op == 'shl':
        return shl(*args)
    if op == 'shr':
        return shr(*args)
    if op == 'band':
        return band(*args)
    if op == 'bor':
        return bor(*args)
    if op == 'bxor':
        return bxor(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'bmul':
        return bmul(*args)
    if op == 'b':
        c = args[0]
        return indicator(('bool', c[1], True) if c[0] == 'bool' else c)
    if op in ('min', 'max'):
        return minmax(op, *args)
    return lin(mkatom(op, args, a.lo, a.hi))


# ---------------------------------------------------------------- facts
def _norm(L):
    """normalise L >= 0 with integer tightening; None if trivially true, False if impossible"""
    if not L.t:
        return None if L.c >= 0 else False
    g = 0
    for _, k in L.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
    return L


def _atom_axioms(a):
    out = []
    if a.lo is not None:
        out.append(Lin(-a.lo, ((a, 1),)))
    if a.hi is not None:
        out.append(Lin(a.hi, ((a, -1),)))
    if a.op == 'fdiv':
        L, c = a.args
        out.append(L - lin(a).scale(c))
        out.append(lin(a).scale(c) + (c - 1) - L)
    elif a.op == 'b':
        # 0/1 indicator of a linear condition with bounded form
        cond = a.args[0]
        if isinstance(cond, tuple) and cond and cond[0] == 'ge':
            L = cond[1]
            lo, hi = L.bounds()
            b = lin(a)
            if lo is not None:      # L >= lo*(1-b)
                out.append(L - (ONE - b).scale(lo))
            if hi is not None:      # L <= hi*b - (1-b)
                out.append(b.scale(hi) - (ONE - b) - L)
    elif a.op == 'bmul':
        bb, x = a.args
        xl, xh = x.bounds()
        p = lin(a)
        # p = bb * x with 0 <= bb <= 1
        if xl is not None:
            out.append(p - bb.scale(xl))
            out.append(x - p - (ONE - bb).scale(xl))
        if xh is not None:
            out.append(bb.scale(xh) - p)
            out.append((ONE - bb).scale(xh) - x + p)
    elif a.op == 'min':
        x, y = a.args
        out.append(x - lin(a))
        out.append(y - lin(a))
    elif a.op == 'max':
        x, y = a.args
        out.append(lin(a) - x)
        out.append(lin(a) - y)
    return out


def unsat(cons):
    """True when the conjunction of (L >= 0) has no integer solution as far as FM can tell"""
    work = []
    seen = set()
    atoms = {}

    def add(L):
        n = _norm(L)
        if n is None:
            return True
        if n is False:
            return False
        if n not in seen:
            seen.add(n)
            work.append(n)
        return True
    pend = list(cons)
    done = set()
    while pend:
        L = pend.pop()
        if not add(L):
            return True
        for a, _ in L.t:
            if a.id not in done:
                done.add(a.id)
                pend.extend(_atom_axioms(a))
    cons = work
    # keep the best constant per coefficient vector
    def reduce(cs):
        best = {}
        for L in cs:
            key = tuple((a.id, k) for a, k in L.t)
            if key not in best or L.c < best[key].c:
                best[key] = L
        return list(best.values())
    cons = reduce(cons)
    # equalities with a unit coefficient: substitute
    for _ in range(40):
        have = set(cons)
        pick = None
        for L in cons:
            if -L in have:
                for a, k in L.t:
                    if k == 1 or k == -1:
                        pick = (L, a, k)
                        break
                if pick:
                    break
        if pick is None:
            break
        L, a, k = pick
        neg = -L
        # k*a + rest == 0  ->  a == -k*rest
        repl = (L - lin(a).scale(k)).scale(-k)
        new = []
        for M in cons:
            if M == L or M == neg:
                continue
            c = 0
            for b, m in M.t:
                if b is a:
                    c = m
                    break
            if c:
                M = _norm(M - lin(a).scale(c) + repl.scale(c))
                if M is None:
                    continue
                if M is False:
                    return True
            new.append(M)
        cons = reduce(new)
    # direct contradictions L and -L
    for _ in range(60):
        byvar = {}
        for L in cons:
            for a, k in L.t:
                p = byvar.setdefault(a.id, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not byvar:
            return False
        v = min(byvar, key=lambda i: (byvar[i][0] * byvar[i][1] - byvar[i][0] - byvar[i][1], i))
        pos, neg, rest = [], [], []
        for L in cons:
            k = 0
            for a, kk in L.t:
                if a.id == v:
                    k = kk
                    break
            (pos if k > 0 else neg if k < 0 else rest).append((L, k) if k else L)
        new = rest
        for L, k in pos:
            for M, m in neg:
                g = gcd(k, -m)
                R = L.scale(-m // g) + M.scale(k // g)
                n = _norm(R)
                if n is None:
                    continue
                if n is False:
                    return True
                new.append(n)
        cons = reduce(new)
        if not cons:
            return False
        if len(cons) > 1200:
            return False
    return False


def literal_not(l):
    if l[0] == 'ge':
        return ('ge', -l[1] - 1)
    if l[0] == 'eq':
        return ('ne', l[1])
    if l[0] == 'ne':
        return ('eq', l[1])
    if l[0] == 'bool':
        return ('bool', l[1], not l[2])
    return None


def complementary(a, b):
    if a[0] == 'bool' or b[0] == 'bool':
        return a[0] == b[0] and a[1] == b[1] and a[2] != b[2]
    if a[0] == 'unk' or b[0] == 'unk':
        return False
    n = literal_not(a)
    if n == b:
        return True
    return n[0] == b[0] and n[0] in ('eq', 'ne') and n[1] == -b[1]


def indicator(l):
    """0/1 form equal to the truth of a literal"""
    if l[0] == 'bool':
        b = lin(mkatom('b', (('bool', l[1]),), 0, 1))
        return b if l[2] else ONE - b
    L = l[1]
    g = 0
    for _, k in L.t:
        g = gcd(g, k)
    if l[0] == 'ge':
        if g > 1:
            L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
        lo, hi = L.bounds()
        if lo is not None and lo >= 0:
            return ONE
        if hi is not None and hi < 0:
            return ZERO
        if lo == -1 and hi == 0:
            return L + 1
        if L.t[0][1] < 0:
            return ONE - lin(mkatom('b', (('ge', -L - 1),), 0, 1))
        return lin(mkatom('b', (('ge', L),), 0, 1))
    if g > 1:
        if L.c % g:
            return ZERO if l[0] == 'eq' else ONE
        L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
    if not L.t:
        r = L.c == 0
        return ONE if r == (l[0] == 'eq') else ZERO
    if L.t[0][1] < 0:
        L = -L
    lo, hi = L.bounds()
    if lo == 0 and hi == 1:
        b = ONE - L
    elif lo == -1 and hi == 0:
        b = L + 1
    elif lo is not None and lo == 0:
        b = indicator(('ge', -L))
    else:
        b = lin(mkatom('b', (('eq', L),), 0, 1))
    return b if l[0] == 'eq' else ONE - b


def bmul(b, x):
    """b * x for a 0/1 form b"""
    if b == ONE:
        return x
    if b == ZERO or x == ZERO:
        return ZERO
    if x.is_const:
        return b.scale(x.c)
    if b.c == 1 and len(b.t) == 1 and b.t[0][1] == -1:
        return x - bmul(lin(b.t[0][0]), x)
    out = ZERO
    if b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1:
        for a, k in x.t:
            if a is b.t[0][0]:
                out = out + lin(a).scale(k)
            else:
                out = out + _bm(b, lin(a)).scale(k)
        return out + b.scale(x.c)
    return _bm(b, x)


def _bm(b, x):
    lo, hi = x.bounds()
    p = (b, x)
    if lo == 0 and hi == 1:
        p = _sorted2(b, x)
    return lin(mkatom('bmul', p, None if lo is None else min(0, lo), None if hi is None else max(0, hi)))


def choose(l, x, y):
    """x when literal l holds, else y"""
    if x == y:
        return x
    return y + bmul(indicator(l), x - y)


class Facts(object):
    """immutable conjunction of facts; log keeps the literals in the order they were added"""
    __slots__ = ('lins', 'nes', 'bools', 'unk', 'log', 'cache')

    def __init__(self, lins=(), nes=(), bools=None, unk=frozenset(), log=()):
        self.lins = lins          # tuple of Lin, each >= 0
        self.nes = nes            # tuple of Lin, each != 0
        self.bools = bools or {}  # key -> bool
        self.unk = unk            # deps of undecidable conditions met on this partition
        self.log = log
        self.cache = {}

    def _close(self, extra):
        ids = set()
        for L in extra:
            ids |= L.free_atoms()
        chosen = []
        rest = self.lins
        changed = True
        while changed:
            changed = False
            keep = []
            for M in rest:
                fr = M.free_atoms()
                if fr & ids:
                    chosen.append(M)
                    ids |= fr
                    changed = True
                else:
                    keep.append(M)
            rest = keep
        return chosen, ids

    def infeasible_with(self, extra):
        """extra: list of Lin >= 0"""
        key = tuple(extra)
        r = self.cache.get(key)
        if r is None:
            chosen, ids = self._close(extra)
            sysc = list(extra) + chosen
            r = unsat(sysc)
            if not r and self.nes:
                # disequalities: if the system forces M >= 0 (or <= 0) then M >= 1 (or <= -1)
                for _ in range(3):
                    again = False
                    for M in self.nes:
                        if not (M.free_atoms() & ids):
                            continue
                        if unsat(sysc + [-M - 1]):
                            sysc.append(M - 1)
                            again = True
                        elif unsat(sysc + [M - 1]):
                            sysc.append(-M - 1)
                            again = True
                    if again and unsat(sysc):
                        r = True
                        break
                    if not again:
                        break
            self.cache[key] = r
        return r

    def entails_ge(self, L):
        if L.is_const:
            return L.c >= 0
        lo, _ = L.bounds()
        if lo is not None and lo >= 0:
            return True
        if L in self.lins:
            return True
        return self.infeasible_with([-L - 1])

    def entails_eq(self, L):
        if L.is_const:
            return L.c == 0
        return self.entails_ge(L) and self.entails_ge(-L)

    def entails_ne(self, L):
        if L.is_const:
            return L.c != 0
        if L in self.nes or -L in self.nes:
            return True
        return self.infeasible_with([L, -L])

    def decide(self, rel, L):
        """True / False / None"""
        if rel == 'ge':
            if self.entails_ge(L):
                return True
            if self.entails_ge(-L - 1):
                return False
            return None
        if rel == 'eq':
            if self.entails_ne(L):
                return False
            if self.entails_eq(L):
                return True
            return None
        r = self.decide('eq', L)
        return None if r is None else not r

    def decide_literal(self, l):
        if l[0] == 'bool':
            v = self.bools.get(l[1])
            return None if v is None else v == l[2]
        if l[0] == 'unk':
            return None
        return self.decide(l[0], l[1])

    def feasible(self):
        """re-check the whole conjunction"""
        if unsat(list(self.lins)):
            return False
        for M in self.nes:
            if self.entails_eq(M):
                return False
        return True

    def add_raw(self, l):
        """add a literal without deciding it"""
        rel = l[0]
        if rel == 'bool':
            b = dict(self.bools)
            b[l[1]] = l[2]
            return Facts(self.lins, self.nes, b, self.unk, self.log + (l,))
        if rel == 'unk':
            return Facts(self.lins, self.nes, self.bools, self.unk | l[1], self.log + (l,))
        L = l[1]
        if rel == 'ge':
            return Facts(self.lins + (L,), self.nes, self.bools, self.unk, self.log + (l,))
        if rel == 'eq':
            return Facts(self.lins + (L, -L), self.nes, self.bools, self.unk, self.log + (l,))
        if self.entails_ge(L):
            return Facts(self.lins + (L - 1,), self.nes, self.bools, self.unk, self.log + (l,))
        if self.entails_ge(-L):
            return Facts(self.lins + (-L - 1,), self.nes, self.bools, self.unk, self.log + (l,))
        return Facts(self.lins, self.nes + (L,), self.bools, self.unk, self.log + (l,))

    def add(self, rel, L):
        """new Facts, or None when infeasible"""
        d = self.decide(rel, L)
        if d is True:
            return self
        if d is False:
            return None
        return self.add_raw((rel, L))

    def add_literal(self, l):
        if l[0] == 'bool':
            return self.add_bool(l[1], l[2])
        if l[0] == 'unk':
            return self.add_unk(l[1])
        return self.add(l[0], l[1])

    def add_all(self, lits):
        f = self
        for l in lits:
            f = f.add_literal(l)
            if f is None:
                return None
        return f

    def add_bool(self, key, val):
        cur = self.bools.get(key)
        if cur is not None:
            return self if cur == val else None
        return self.add_raw(('bool', key, val))

    def add_unk(self, deps):
        u = self.unk | frozenset(deps) | frozenset(['?'])
        if u == self.unk:
            return self
        return Facts(self.lins, self.nes, self.bools, u, self.log + (('unk', u),))

    def since(self, base):
        """literals added after base"""
        n = len(base.log)
        if self.log[:n] == base.log:
            return self.log[n:]
        return tuple(l for l in self.log if l not in base.log)

    @staticmethod
    def replay(log):
        f = Facts()
        for l in log:
            f = f.add_raw(l)
        return f

    def interval(self, L, lim=1 << 34):
        """tightest [lo,hi] found by bisection on entailment; None for unbounded"""
        def bound(M):
            b = M.bounds()[0]
            l, h = -lim, lim
            if b is not None:
                l = max(l, b)
            if not self.entails_ge(M - l):
                return None
            if self.entails_ge(M - h):
                return h
            while l < h:
                m = (l + h + 1) // 2
                if self.entails_ge(M - m):
                    l = m
                else:
                    h = m - 1
            return l
        a = bound(L)
        b = bound(-L)
        return a, (None if b is None else -b)

    def simplify(self, L):
        """replace 0/1 indicators decided by the facts"""
        for _ in range(4):
            amap = {}
            for a, _k in L.t:
                for x in ((a,) if a.op != 'bmul' else _inner_bs(a)):
                    if x.op == 'b' and x.id not in amap:
                        d = self.decide_literal(('bool', x.args[0][1], True) if x.args[0][0] == 'bool' else x.args[0])
                        if d is not None:
                            amap[x.id] = ONE if d else ZERO
            for a, _k in L.t:
                if a.op in ('bit', 'fld', 'fdiv', 'cell', 'shl') and a.id not in amap and a.lo is not None and a.lo == 0 and a.hi == 1:
                    if self.entails_eq(lin(a)):
                        amap[a.id] = ZERO
                    elif self.entails_eq(lin(a) - 1):
                        amap[a.id] = ONE
            if not amap:
                return L
            L = subst_lin(L, amap)
        return L

    def equal(self, A, B):
        D = A - B
        if D == ZERO:
            return True
        D = self.simplify(D)
        return self.entails_eq(D)

    def describe(self):
        out = []
        for l in self.log:
            if l[0] == 'bool':
                out.append('%s%s' % ('' if l[2] else 'not ', l[1]))
            elif l[0] == 'unk':
                out.append('undecided on %s' % sorted(l[1]))
            else:
                out.append('%r %s 0' % (l[1], {'ge': '>=', 'eq': '==', 'ne': '!='}[l[0]]))
        return out


def _inner_bs(a):
    r = []
    for x in a.args:
        for b, _ in x.t:
            if b.op == 'bmul':
                r.extend(_inner_bs(b))
            else:
                r.append(b)
    return r


def literal_subst(l, amap, substx):
    if l[0] == 'bool':
        return ('bool', substx(l[1], amap), l[2])
    if l[0] == 'unk':
        return l
    return (l[0], subst_lin(l[1], amap))
