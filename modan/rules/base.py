"""Report of one check: findings, proved obligations, obligations left open (never an alarm)."""
import re
from ..lin import Lin, lin, mkatom, sym, fresh, Facts, ZERO, ONE, literal_not
from ..values import *
from ..values import anyimp
from .. import evalx
from ..bytesops import bs_int, bs_byte, bs_region
from ..values import seg_len


class Finding(object):
    def __init__(self, rule, construct, loc, msg, witness=''):
        self.rule, self.construct, self.loc, self.msg, self.witness = rule, construct, loc, msg, witness

    @property
    def key(self):
        return '%s@%s' % (self.rule, self.construct)

    def text(self):
        where = '%s:%s' % (self.loc[0], self.loc[1]) if self.loc and self.loc[0] else ''
        return '%s [%s] %s %s%s' % (self.key, where, self.construct, self.msg,
                                    ' (e.g. %s)' % self.witness if self.witness else '')


class Report(object):
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.findings = []
        self.proved = {}        # rule -> number of obligations shown
        self.open = {}          # rule -> [why]
        self.analysed = set()   # functions
        self.paths = 0
        self.notes = []

    def ok(self, rule, n=1):
        self.proved[rule] = self.proved.get(rule, 0) + n

    def und(self, rule, why):
        self.open.setdefault(rule, [])
        if why not in self.open[rule]:
            self.open[rule].append(str(why)[:300])

    def bad(self, rule, construct, loc, msg, witness=''):
        f = Finding(rule, construct, loc, msg, witness)
        if not any(x.key == f.key and x.msg == f.msg for x in self.findings):
            self.findings.append(f)


# ------------------------------------------------------------------ deciding one obligation
def vague(s, *vals):
    """why the facts of a partition are not exact, or '' """
    if s.flags:
        return 'flags %s' % ','.join(sorted(map(str, s.flags)))
    if s.facts.unk:
        return 'undecided condition on %s' % ','.join(sorted(map(str, s.facts.unk)))[:200]
    for v in vals:
        if v is not None and anyimp(v):
            return 'value not tracked: %s' % str(v)[:160]
    return ''


def show(asg, facts):
    """readable part of an assignment"""
    out = []
    fields = {}
    for (b, o), v in sorted(asg.bytes.items(), key=lambda x: (x[0][0], x[0][1])):
        fields.setdefault(b, []).append('[%d]=%02x' % (o, v))
    for b, xs in fields.items():
        out.append('%s bytes %s' % (b, ' '.join(xs[:14])))
    for (op, k), v in list(asg.terms.items())[:14]:
        if op == 'sym':
            out.append('%s=%d' % (k[0], v))
        elif op in ('bstart', 'bsize'):
            out.append('%s(%s)=%d' % (op, ','.join(map(str, k)), v))
    return '; '.join(out)[:500]


def refute(facts, lits=(), forms=(), n=45):
    """('no', '') when facts and lits exclude each other; ('yes', witness) with a concrete assignment; ('?', '')"""
    f = facts
    for l in lits:
        f = f.add_literal(l)
        if f is None:
            return 'no', ''
    if not f.feasible():
        return 'no', ''
    fs = [l[1] for l in f.log if l[0] in ('ge', 'eq', 'ne')]
    for asg in evalx.assignments(f, list(forms) + fs, n):
        return 'yes', show(asg, f)
    return '?', ''


def must_not(rep, rule, s, lits, construct, loc, msg, vals=(), n=45):
    """the partition together with lits must be impossible"""
    r, w = refute(s.facts, lits, (), n)
    if r == 'no':
        rep.ok(rule)
        return True
    why = vague(s, *vals)
    if not why and any(l[0] in ('ge', 'eq', 'ne') and lin_imp(l[1]) for l in lits):
        why = 'value not tracked'
    if why:
        rep.und(rule, '%s: %s' % (construct, why))
    elif r == '?':
        rep.und(rule, '%s: no concrete witness for: %s' % (construct, msg))
    else:
        rep.bad(rule, construct, loc, msg, w)
        return False
    return None


def must_be(rep, rule, s, lit, construct, loc, msg, vals=(), extra=()):
    """lit must hold on the partition (with extra literals)"""
    f = s.facts.add_all(extra)
    if f is None:
        return True
    if f.decide_literal(lit) is True:
        rep.ok(rule)
        return True
    return must_not(rep, rule, s, list(extra) + [literal_not(lit)], construct, loc, msg, vals)


def must_equal(rep, rule, s, A, B, construct, loc, msg, extra=(), idx=()):
    """two forms must be equal on the partition"""
    f = s.facts.add_all(extra)
    if f is None:
        return True
    r = equal_forms(f, A, B, idx)
    if r is True:
        rep.ok(rule)
        return True
    why = vague(s) or ('value not tracked' if lin_imp(A) or lin_imp(B) else '')
    if why:
        rep.und(rule, '%s: %s' % (construct, why))
        return None
    d = evalx.differs(f, A, B)
    if d is True:
        rep.bad(rule, construct, loc, msg, 'got %s, expected %s' % (str(A)[:160], str(B)[:160]))
        return False
    rep.und(rule, '%s: %s not proved (%s)' % (construct, msg, 'equal on all samples' if d is False else 'no sample'))
    return None


def inner_b(L):
    out = []
    evalx.inner(L, out, set(), ('b',))
    for a in out:
        if a.args[0][0] in ('ge', 'eq', 'ne'):
            return a
    return None


def equal_forms(f, A, B, idx=(), depth=3):
    if f.equal(A, B):
        return True
    if depth:
        for L in (A, B):
            b = inner_b(L)
            if b is not None:
                lit = b.args[0]
                ok = True
                for l, v in ((lit, ONE), (literal_not(lit), ZERO)):
                    g = f.add_literal(l)
                    if g is None or not g.feasible():
                        continue
                    am = {b.id: v}
                    for a, _ in l[1].t:
                        i = g.interval(lin(a), 1 << 17)
                        if i[0] is not None and i[0] == i[1]:
                            am[a.id] = Lin(i[0])
                    if not equal_forms(g, g.simplify(subst_lin(A, am)), g.simplify(subst_lin(B, am)), idx, depth - 1):
                        ok = False
                        break
                if ok:
                    return True
                break
    for a in idx:
        if a.id not in (A - B).free_atoms():
            continue
        # case split on the index modulo 8
        m = mkatom('bv', ('mod8', a), 0)
        ok = True
        for c in range(8):
            am = {a.id: lin(m).scale(8) + c}
            f2 = Facts.replay([literal_subst(l, am, substx) for l in f.log if l[0] != 'unk'])
            if not f2.feasible():
                continue
            if not f2.equal(subst_lin(A, am), subst_lin(B, am)):
                ok = False
                break
        if ok:
            return True
    return None


from ..lin import literal_subst, subst_lin
from ..values import substx, lin_imp


def fnshort(q):
    return q.replace('modbus_tk.', '', 1)


def last_loc(s, I=None, default=None, kinds=None):
    evs = s.events()
    for e in reversed(evs):
        if e.loc and e.loc[0] and (kinds is None or e.kind in kinds):
            return e.loc
    return default or ('', 0, '')


def flat(evs):
    """events including those of loop bodies (once)"""
    for e in evs:
        yield e
        if e.kind == 'loop':
            for c in e.body['conts']:
                for x in flat(c[1]):
                    yield x


def functions(rep, s):
    for e in flat(s.events()):
        if e.fn:
            rep.analysed.add(e.fn)


def same_bytes(rep, rule, s, got, exp, construct, loc, msg, extra=()):
    """two byte strings must be equal on the partition"""
    f = s.facts.add_all(extra)
    if f is None or not f.feasible():
        return True
    if got is None or anyimp(got):
        rep.und(rule, '%s: bytes not tracked: %s' % (construct, str(got)[:120]))
        return None
    if got == exp:
        rep.ok(rule)
        return True
    if must_equal(rep, rule, s, got.length(), exp.length(), construct, loc, msg + ' (length)', extra) is not True:
        return False
    res = True
    p = ZERO
    for g in exp.segs:
        n = seg_len(g)
        if n.is_const and n.c <= 8:
            parts = [(p, n.c, ())] if g[0] in ('pk', 'sl') and n.c in (1, 2, 4) else [(p + i, 1, ()) for i in range(n.c)]
        else:
            k = lin(mkatom('bv', ('pos', p), 0))
            parts = [(p + k, 1, (('ge', n - k - 1),))]
        for off, w, lits in parts:
            h = f.add_all(lits)
            if h is None or not h.feasible():
                continue
            a, b = bs_int(got, off, w, False, '>', h), bs_int(exp, off, w, False, '>', h)
            if a is None or b is None:
                rep.und(rule, '%s: byte %s not understood' % (construct, off))
                res = None
                continue
            r = must_equal(rep, rule, s, a, b, construct, loc, '%s (byte %s)' % (msg, off), list(extra) + list(lits))
            if r is not True:
                res = r
                if r is False:
                    return False
        p = p + n
    return res
