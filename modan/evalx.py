"""Concrete evaluation of symbolic forms: turns "could not be proved equal" into a definite witness.

No code of the analysed package is run: the forms are terms of this analysis, evaluated under an assignment of
their leaves (bytes of the request, stored cells, lengths, addresses) that satisfies the facts of the partition.
"""
import random
from .lin import Lin, lin, mkatom, Facts, subst_lin, ZERO, ONE
from .values import *
from .values import subst_seg

LEAF = ('sym', 'cell', 'k', 'bv', 'h', 'hl', 'bstart', 'bsize', 'bidx', 'crc', 'ubyte', 'opq')


class Stuck(Exception):
    pass


class Asg(object):
    """assignment of leaves; unknown ones are drawn at random inside their bounds"""

    def __init__(self, seed=0, style=0):
        self.r = random.Random(seed)
        self.style = style
        self.vals = {}          # atom id -> int (whole atoms)
        self.bytes = {}         # (base, offset) -> byte
        self.terms = {}         # (op, evaluated args) -> int
        self.bools = {}

    def draw(self, lo, hi):
        r = self.r
        if lo is None and hi is None:
            lo, hi = (0, 40) if self.style == 0 else (-5, 70000)
        elif lo is None:
            lo = hi - 40
        elif hi is None:
            hi = lo + (40 if self.style == 0 else 70000)
        if self.style == 2:
            return r.choice((lo, hi, min(hi, lo + 1), max(lo, hi - 1)))
        if self.style == 0 and hi - lo > 300:
            hi = lo + 300
        return r.randint(lo, hi)

    def byte(self, base, off):
        k = (base, off)
        v = self.bytes.get(k)
        if v is None:
            v = self.bytes[k] = self.r.choice((0, 1, 0x7f, 0x80, 0xff)) if self.style == 2 else self.r.randint(0, 255)
        return v

    def set_fld(self, base, off, size, endian, v):
        b = (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'big' if endian == '>' else 'little')
        for i in range(size):
            self.bytes[(base, off + i)] = b[i]

    def key(self, x):
        """args of a leaf with inner forms evaluated"""
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, N):
            return self.lin(x.l)
        if isinstance(x, Bs):
            return self.bs(x)
        return x

    def bs(self, x):
        """concrete bytes of a symbolic byte string"""
        out = []
        for g in x.segs:
            if g[0] == 'lit':
                out.extend(g[1])
            elif g[0] == 'pk':
                out.extend((self.lin(g[3]) & ((1 << (8 * g[1])) - 1)).to_bytes(g[1], 'big' if g[2] == '>' else 'little'))
            elif g[0] == 'sl':
                off, n = self.lin(g[2]), self.lin(g[3])
                if n > 3000:
                    raise Stuck('long')
                out.extend(self.byte(str(g[1]), off + i) for i in range(n))
            elif g[0] == 'rep':
                n = self.lin(g[2])
                if n > 3000:
                    raise Stuck('long')
                for i in range(n):
                    out.extend(self.bs(Bs(tuple(subst_seg(y, {g[1].id: Lin(i)}) for y in g[3]))))
            else:
                raise Stuck('opaque bytes')
        return bytes(out)

    def lin(self, L):
        v = L.c
        for a, k in L.t:
            v += k * self.atom(a)
        return v

    def atom(self, a):
        v = self.vals.get(a.id)
        if v is not None:
            return v
        op, g = a.op, a.args
        if op == 'fld':
            off = self.lin(g[1])
            b = bytes(self.byte(str(g[0]), off + i) for i in range(g[2]))
            return int.from_bytes(b, 'big' if g[4] == '>' else 'little', signed=g[3])
        if op == 'fdiv':
            return self.lin(g[0]) // g[1]
        if op == 'bit':
            j = self.lin(g[1])
            if j < 0:
                raise Stuck('negative shift')
            return (self.lin(g[0]) >> j) & 1
        if op == 'shl':
            j = self.lin(g[1])
            if j < 0 or j > 100:
                raise Stuck('shift')
            return self.lin(g[0]) << j
        if op == 'shr':
            j = self.lin(g[1])
            if j < 0:
                raise Stuck('negative shift')
            return self.lin(g[0]) >> j
        if op == 'band':
            return self.lin(g[0]) & self.lin(g[1])
        if op == 'bor':
            return self.lin(g[0]) | self.lin(g[1])
        if op == 'bxor':
            return self.lin(g[0]) ^ self.lin(g[1])
        if op in ('mul', 'bmul'):
            return self.lin(g[0]) * self.lin(g[1])
        if op == 'min':
            return min(self.lin(g[0]), self.lin(g[1]))
        if op == 'max':
            return max(self.lin(g[0]), self.lin(g[1]))
        if op == 'tab':
            j = self.lin(g[1])
            if not 0 <= j < len(g[0]):
                raise Stuck('index')
            return g[0][j]
        if op == 'b':
            return 1 if self.literal(g[0]) else 0
        try:
            k = (op, self.key(g))
            v = self.terms.get(k)
        except TypeError:
            raise Stuck(op)
        if v is None:
            v = self.terms[k] = self.draw(a.lo, a.hi)
        return v

    def literal(self, l):
        if l[0] == 'bool':
            if len(l) == 3 and isinstance(l[1], tuple) and len(l[1]) == 3 and l[1][0] == 'eq' and isinstance(l[1][1], Sq) and isinstance(l[1][2], Sq):
                # two tuples of numbers
                p, q = l[1][1].items(), l[1][2].items()
                if p is not None and q is not None and len(p) == len(q) and all(
                        x == y or isinstance(x, N) and isinstance(y, N) for x, y in zip(p, q)):
                    return all(x == y or self.lin(x.l) == self.lin(y.l) for x, y in zip(p, q)) == l[2]
            k = self.key(l[1])
            v = self.bools.get(k)
            if v is None:
                v = self.bools[k] = bool(self.r.randint(0, 1)) if len(l) < 3 else l[2]
            return v if len(l) < 3 else v == l[2]
        if l[0] == 'unk':
            return True
        v = self.lin(l[1])
        return v >= 0 if l[0] == 'ge' else (v == 0 if l[0] == 'eq' else v != 0)


def leaves(x, out, seen):
    """leaf atoms below a form, inner ones first"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            leaves(a, out, seen)
        return
    if isinstance(x, (tuple, list)):
        for y in x:
            leaves(y, out, seen)
        return
    if isinstance(x, N):
        leaves(x.l, out, seen)
        return
    if isinstance(x, Bs):
        for g in x.segs:
            if g[0] == 'pk':
                leaves(g[3], out, seen)
            elif g[0] == 'sl':
                leaves(g[2], out, seen)
                leaves(g[3], out, seen)
            elif g[0] == 'rep':
                leaves(g[2], out, seen)
        return
    if hasattr(x, 'op') and hasattr(x, 'args') and hasattr(x, 'lo'):
        if x.id in seen:
            return
        seen.add(x.id)
        leaves(x.args, out, seen)
        if x.op == 'fld' or x.op not in ('fdiv', 'bit', 'shl', 'shr', 'band', 'bor', 'bxor', 'mul', 'bmul', 'min', 'max', 'b', 'tab'):
            out.append(x)


def inner(x, out, seen, ops):
    """atoms of the given kinds below a form"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            inner(a, out, seen, ops)
    elif isinstance(x, (tuple, list)):
        for y in x:
            inner(y, out, seen, ops)
    elif isinstance(x, N):
        inner(x.l, out, seen, ops)
    elif hasattr(x, 'op') and hasattr(x, 'args') and hasattr(x, 'lo'):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op in ops:
            out.append(x)
        inner(x.args, out, seen, ops)


def assignments(facts, forms, n=40, seed=1):
    """assignments that satisfy every fact (at most n tries)"""
    ats, seen = [], set()
    for L in forms:
        leaves(L, ats, seen)
    for l in facts.log:
        if l[0] in ('ge', 'eq', 'ne'):
            leaves(l[1], ats, seen)
    base = [l for l in facts.log if l[0] in ('ge', 'eq', 'ne')]
    for t in range(n):
        asg = Asg(seed * 1000 + t, t % 3)
        ok = True
        am = {}
        lits = base
        f = None
        try:
            for a in ats:
                L = subst_lin(subst_lin(lin(a), am), am) if am else lin(a)
                cur = None
                if L.is_const:
                    v = L.c
                else:
                    if len(L.t) == 1 and L.t[0][1] == 1 and L.c == 0:
                        cur = L.t[0][0]
                    u = cur is None or any(cur.id in l[1].free_atoms() for l in lits)
                    lo, hi = None, None
                    if u:
                        if f is None:
                            f = Facts.replay(lits)
                        guess = None
                        if t % 3 != 2:
                            guess = asg.draw(a.lo, a.hi)
                            if f.add('eq', L - guess) is None:
                                guess = None
                        if guess is not None:
                            lo = hi = guess
                        else:
                            lo, hi = f.interval(L, 1 << 20)
                    if a.lo is not None and (lo is None or lo < a.lo):
                        lo = a.lo
                    if a.hi is not None and (hi is None or hi > a.hi):
                        hi = a.hi
                    if lo is not None and hi is not None and lo > hi:
                        ok = False
                        break
                    # a value already implied by the bytes chosen
                    if a.op == 'fld':
                        off = asg.lin(a.args[1])
                        have = [asg.bytes.get((str(a.args[0]), off + i)) for i in range(a.args[2])]
                        if any(h is not None for h in have):
                            v = asg.atom(a)
                        else:
                            v = asg.draw(lo, hi)
                            asg.set_fld(str(a.args[0]), off, a.args[2], a.args[4], v)
                    else:
                        k = (a.op, asg.key(a.args))
                        v = asg.terms.get(k)
                        if v is None:
                            v = asg.terms[k] = asg.draw(lo, hi)
                am[a.id] = Lin(v)
                step = {a.id: Lin(v)}
                if cur is not None:
                    am[cur.id] = Lin(v)
                    step[cur.id] = Lin(v)
                nl = []
                same = True
                for l in lits:
                    fr = l[1].free_atoms()
                    if not (a.id in fr or (cur is not None and cur.id in fr)):
                        nl.append(l)
                        continue
                    same = False
                    m = (l[0], subst_lin(l[1], step))
                    if m[1].is_const:
                        c = m[1].c
                        if not (c >= 0 if m[0] == 'ge' else c == 0 if m[0] == 'eq' else c != 0):
                            ok = False
                            break
                    else:
                        nl.append(m)
                if not ok:
                    break
                if not same:
                    lits = nl
                    f = None
            if ok and all(asg.literal(l) for l in facts.log if l[0] != 'unk'):
                yield asg
        except (Stuck, TypeError):
            continue


def differs(facts, A, B, n=40):
    """True with certainty when some assignment satisfying the facts gives A != B; False: equal on all that were
    found; None: no assignment found"""
    found = None
    for asg in assignments(facts, [A, B], n):
        try:
            if asg.lin(A) != asg.lin(B):
                return True
        except Stuck:
            continue
        found = False
    return found
