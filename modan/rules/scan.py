"""Reasoning about scans over the blocks of a table: what a completed or stopped scan says about every block.

A scan is a summarised loop whose continuation conditions speak about block k.  For all j < count the conditions hold
at j.  Claims about "some block w" are decided by instantiating that at every block mentioned; a claim is only
reported as violated on a ground case, in which every scanned block is mentioned.
"""
from .base import *
from ..lin import literal_not

LIMIT = 400


class Scan(object):
    def __init__(self, k, n, conts, exact, off=ZERO):
        self.k, self.n, self.conts, self.exact, self.off = k, n, conts, exact, off
        self.tabs = set(a.args[0] for ls in conts for l in ls for a in blocks_in(l[1]) if k.id in freex(a.args[1]))


def scans(s):
    """(scans, everything understood)"""
    out, fine = [], True
    for e in s.events():
        if e.kind != 'loop':
            continue
        k, n = e.d['k'], e.d['count']
        conts = []
        offs = set()
        for c in e.body['conts']:
            ls = [l for l in c[0] if l[0] in ('ge', 'eq', 'ne')]
            for l in ls:
                for a in blocks_in(l[1]):
                    if k.id in freex(a.args[1]):
                        offs.add(a.args[1] - lin(k))
            conts.append(ls)
            for x in c[1]:
                if x.kind == 'loop' and any(list(blocks_in(l[1])) for cc in x.body['conts'] for l in cc[0] if l[0] in ('ge', 'eq', 'ne')):
                    fine = False
        if not offs:
            continue
        off = list(offs)[0]
        if len(offs) > 1 or k.id in freex(off):
            fine = False
            continue
        if e.d.get('p', 1) != 1 or lin(e.d.get('base') or 0) != ZERO:
            fine = False
            continue
        unk_ = any(l[0] == 'unk' for c in e.body['conts'] for l in c[0])
        if unk_:
            fine = False
        out.append(Scan(k, lin(n), conts, not unk_, off))
    return out, fine


def blocks_in(x, seen=None):
    """bstart/bsize atoms below a form"""
    out = []
    _walk(x, out, set())
    return out


def _walk(x, out, seen):
    if isinstance(x, Lin):
        for a, _ in x.t:
            _walk(a, out, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _walk(y, out, seen)
    elif hasattr(x, 'op') and hasattr(x, 'args') and hasattr(x, 'lo'):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op in ('bstart', 'bsize'):
            out.append(x)
        _walk(x.args, out, seen)


def mentioned(f, lits=()):
    out = []
    for l in list(f.log) + list(lits):
        if l[0] in ('ge', 'eq', 'ne'):
            for a in blocks_in(l[1]):
                p = (a.args[0], a.args[1])
                if p not in out:
                    out.append(p)
    return out


class Know(object):
    """invariants of the stored blocks used in a decision"""

    def __init__(self, E, sorted_=None, disjoint=True):
        self.E, self.sorted, self.disjoint = E, sorted_, disjoint

    def pair(self, f, t, x, y):
        """cases of f for two blocks of one table"""
        E = self.E
        sx, sy, zx, zy = E.start(t, x), E.start(t, y), E.size(t, x), E.size(t, y)
        out = []
        g = f.add_all([('eq', x - y), ('eq', sx - sy), ('eq', zx - zy)])
        if g is not None and g.feasible():
            out.append(g)
        for a, b, sa, sb, za, zb in ((x, y, sx, sy, zx, zy), (y, x, sy, sx, zy, zx)):
            g = f.add('ge', b - a - 1)
            if g is None or not g.feasible():
                continue
            alts = [[]]
            if self.disjoint:
                alts = [[('ge', sb - sa - za)]]
                if self.sorted is not True:
                    alts.append([('ge', sa - sb - zb)])
            for ls in alts:
                h = g.add_all(ls)
                if h is not None and h.feasible():
                    out.append(h)
        return out

    def inside(self, f, t, x):
        return f.add_all([('ge', x), ('ge', self.E.fam[t]['n'] - x - 1)])


def instantiate(f, sc, x, know_pass=False):
    """cases of f for what the scan says about index x (passed, or not reached)"""
    out = []
    x = x - sc.off
    g = f.add('ge', sc.n - x - 1)
    g = g.add('ge', x) if g is not None else None
    if g is not None and g.feasible():
        alts = sc.conts or []
        for ls in alts:
            h = g
            for l in ls:
                h = h.add_literal(literal_subst(l, {sc.k.id: x}, substx))
                if h is None:
                    break
            if h is not None and h.feasible():
                out.append(h)
    g = f.add('ge', x - sc.n)
    if g is not None and g.feasible():
        out.append(g)
    g = f.add('ge', -x - 1)
    if g is not None and g.feasible():
        out.append(g)
    return out


def close(know, f, sc, idx):
    cases = [f]
    for t, x in idx:
        nxt = []
        for g in cases:
            g = know.inside(g, t, x)
            if g is not None and g.feasible():
                nxt.append(g)
        cases = nxt
    for i, (t, x) in enumerate(idx):
        for t2, y in idx[:i]:
            if t2 != t:
                continue
            cases = [h for g in cases for h in know.pair(g, t, x, y)]
            if len(cases) > LIMIT:
                return None
    for s in sc:
        for t, x in idx:
            if t in s.tabs:
                cases = [h for g in cases for h in instantiate(g, s, x)]
                if len(cases) > LIMIT:
                    return None
    return cases


def decide(know, s, lits=(), idx=(), f=None):
    """can the outcome s happen together with lits?  'no' | ('yes', witness) | '?'"""
    f = (f or s.facts).add_all(lits)
    if f is None or not f.feasible():
        return 'no'
    sc, fine = scans(s)
    ment = mentioned(f)
    for p in idx:
        if p not in ment:
            ment.append(p)
    cases = close(know, f, sc, ment)
    if cases is not None and not cases:
        return 'no'
    if s.flags or f.unk or not fine:
        return '?'
    # ground cases: every scan met at most two blocks
    import itertools
    for counts in itertools.product((0, 1, 2), repeat=len(sc)):
        if sum(counts) > 3:
            continue
        g = f
        extra = list(ment)
        for c, x in zip(counts, sc):
            g = g.add('eq', x.n - c) if g is not None else None
            if g is None:
                break
            for j in range(c):
                for t in x.tabs:
                    if (t, x.off + j) not in extra:
                        extra.append((t, x.off + j))
        if g is None or not g.feasible():
            continue
        cs = close(know, g, sc, extra)
        for h in cs or ():
            r, w = refute(h)
            if r == 'yes':
                return ('yes', w)
    return '?'


def impossible(rep, rule, know, s, lits, idx, construct, loc, msg, f=None):
    r = decide(know, s, lits, idx, f)
    if r == 'no':
        rep.ok(rule)
        return True
    if r == '?':
        rep.und(rule, '%s: %s (%s)' % (construct, msg, vague(s) or 'no ground witness'))
        return None
    rep.bad(rule, construct, loc, msg, r[1])
    return False
