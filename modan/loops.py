"""Loops: one generic iteration, closed by invariant / induction / append / periodic summaries.

A loop is solved by looking for a header state H(k) - the state before iteration k - such that one iteration from
H(k) leads to H(k+1).  Every component of the state that the body changes gets a summary: induction (v0 + c*k),
append (init followed by one more group of elements per iteration), or an unknown value with the inequalities
that turn out to be inductive.  Paths that do not lead back to H (a flag changes, a last partial step) leave it and
are analysed as a new loop from there.  p iterations are taken as one step when the control values are periodic.
"""
import ast
from .lin import (Lin, lin, mkatom, sym, fresh, Facts, literal_subst, subst_lin, ZERO, ONE, fld)
from .values import *
from .values import substx, freex, depsx, canon_segs, subst_seg, segs_len, subst_sseg, anyimp
from .state import *

MAXP = 8
UNROLL = 10


def bs_strip(pre, whole):
    """segments left of whole after the prefix pre, or None"""
    w = list(whole)
    for p in pre:
        if not w:
            return None
        x = w[0]
        if p == x:
            w.pop(0)
            continue
        if p[0] == 'lit' and x[0] == 'lit' and x[1].startswith(p[1]):
            w[0] = ('lit', x[1][len(p[1]):])
            continue
        if p[0] == 'sl' and x[0] == 'sl' and p[1] == x[1] and p[2] == x[2]:
            w[0] = ('sl', x[1], x[2] + p[3], x[3] - p[3])
            continue
        if p[0] == 'rep' and x[0] == 'rep' and p[3] == x[3]:
            d = x[2] - p[2]
            w[0] = ('rep', x[1], d, tuple(subst_seg(s, {x[1].id: lin(x[1]) + p[2]}) for s in x[3]))
            continue
        if p[0] == 'sl' and x[0] == 'sl' and p[1] == x[1]:
            return None
        return None
    return canon_segs(w)


def sq_strip(pre, whole):
    w = list(whole)
    for p in pre:
        if not w:
            return None
        x = w[0]
        if p == x:
            w.pop(0)
            continue
        if p[0] == 'rep' and x[0] == 'rep' and p[3] == x[3]:
            w[0] = ('rep', x[1], x[2] - p[2], tuple(v.subst({x[1].id: lin(x[1]) + p[2]}) for v in x[3]))
            continue
        return None
    return tuple(w)


def comp_get(st, c):
    """value of a component (V, Obj or None)"""
    if c[0] == 'x':
        v = st.ext.get(c[1])
        if v is None and isinstance(c[1], tuple) and c[1][0] in ('ver', 'pos'):
            v = N(ZERO)
        return v
    if not st.has(c[1]):
        return None
    o = st.get(c[1])
    if c[0] == 'v':
        return o.vars.get(c[2])
    if c[0] == 'a':
        return o.attrs.get(c[2])
    return o


def comp_set(st, c, v):
    if c[0] == 'x':
        st.setext(c[1], v)
        return
    o = st.get(c[1])
    if c[0] == 'v':
        d = dict(o.vars)
        if v is None:
            d.pop(c[2], None)
        else:
            d[c[2]] = v
        st.put(c[1], o.set(vars=d))
    elif c[0] == 'a':
        d = dict(o.attrs)
        if v is None:
            d.pop(c[2], None)
        else:
            d[c[2]] = v
        st.put(c[1], o.set(attrs=d))
    else:
        st.put(c[1], v)


def state_diff(h, s):
    """components of h whose value differs in s"""
    out = []
    for oid in s.heap:
        b = s.heap[oid]
        a = h.heap.get(oid)
        if a is None:
            a = h.base.get(oid)
        if a is None or a is b or a == b:
            continue
        if a.kind == 'env':
            for n in set(a.vars) | set(b.vars):
                if a.vars.get(n) != b.vars.get(n):
                    out.append(('v', oid, n))
        elif a.kind in ('inst', 'ext'):
            for n in set(a.attrs) | set(b.attrs):
                if a.attrs.get(n) != b.attrs.get(n):
                    out.append(('a', oid, n))
        else:
            out.append(('o', oid))
    for k in set(h.ext) | set(s.ext):
        if h.ext.get(k) != s.ext.get(k):
            out.append(('x', k))
    return sorted(out, key=repr)


def is_control(v):
    return isinstance(v, K) and (v.v is None or isinstance(v.v, bool))


class Summ(object):
    """summary of one component"""

    def __init__(self, kind, v0, **kw):
        self.kind, self.v0 = kind, v0
        self.__dict__.update(kw)

    def same(self, o):
        return o is not None and self.kind == o.kind and all(
            getattr(self, f, None) == getattr(o, f, None) for f in ('c', 'tail', 'base', 'p0'))


class LoopMixin(object):

    # ------------------------------------------------------------ syntax
    def s_For(self, n, st, fr):
        outs = []
        for s, itv in self.ev(n.iter, st, fr):
            if isinstance(itv, Exc):
                outs.append((s, ('exc', itv.v)))
                continue
            for s2, o in self.for_loop(s, fr, itv, n.target, lambda x: self.block(n.body, x, fr), n):
                if o is None and n.orelse:
                    outs.extend(self.block(n.orelse, s2, fr))
                elif o == 'brk':
                    outs.append((s2, None))
                else:
                    outs.append((s2, o))
        return self.merge(st, outs)

    def s_While(self, n, st, fr):
        def step(s, k):
            outs = []
            for s2, b in self.test(n.test, s, fr):
                if isinstance(b, Exc):
                    outs.append((s2, ('exc', b.v)))
                elif not b:
                    outs.append((s2, 'done'))
                else:
                    outs.extend(self.block(n.body, s2, fr))
            return outs
        outs = []
        for s, o in self.iterate(st, None, step):
            if o == 'done':
                if n.orelse:
                    outs.extend(self.block(n.orelse, s, fr))
                else:
                    outs.append((s, None))
            elif o == 'brk':
                outs.append((s, None))
            else:
                outs.append((s, o))
        return self.merge(st, outs)

    def for_loop(self, st, fr, itv, target, body, node):
        """[(state, None|'brk'|('ret',..)|('exc',..))]; None: the iterable is exhausted"""
        if isinstance(itv, Gen) and itv.kind == 'genexp':
            def add(s2, f2):
                r = []
                for s3, x in self.ev(itv.node.elt, s2, f2):
                    if isinstance(x, Exc):
                        r.append((s3, ('exc', x.v)))
                        continue
                    for s4, o in self.assign(target, x, s3, fr):
                        if o is not None:
                            r.append((s4, o))
                        else:
                            for s5, o2 in body(s4):
                                if o2 == 'brk':
                                    o2 = ('ret', K('$brk'))
                                elif isinstance(o2, tuple) and o2[0] == 'ret':
                                    o2 = ('ret', Tup(K('$ret'), o2[1]))
                                r.append((s5, o2))
                return r
            outs = []
            for s, v in self.comp_run(itv.node, st, itv.fr, itv.first, K('$end'), add):
                if isinstance(v, Exc):
                    outs.append((s, ('exc', v.v)))
                elif v == K('$brk'):
                    outs.append((s, 'brk'))
                elif v == K('$end'):
                    outs.append((s, None))
                else:
                    outs.append((s, ('ret', v.items()[1])))
            return outs
        outs = []
        for s, q in self.as_seq(st, itv, fr, node, live=True):
            if isinstance(q, Exc):
                outs.append((s, ('exc', q.v)))
                continue

            def step(s2, v):
                r = []
                for s3, o in self.assign(target, v, s2, fr):
                    if o is not None:
                        r.append((s3, o))
                    else:
                        r.extend(body(s3))
                return r
            if isinstance(itv, Ref) and s.get(itv.oid).kind == 'list' and q.items() is not None:
                outs.extend(self.run_live(s, itv, step))
                continue
            outs.extend(self.run_seq(s, q, step))
        return outs

    def run_live(self, st, ref, step):
        """iteration over a list which may change meanwhile"""
        cur = [st]
        outs = []
        i = 0
        while cur:
            nxt = []
            for s in cur:
                o = s.get(ref.oid)
                segs = o.segs if o.kind == 'list' else ()
                if any(x[0] != 'item' for x in segs[:i + 1]) or i > 400:
                    s.flag('loop')
                    outs.append((s, None))
                    continue
                if i >= len(segs):
                    outs.append((s, None))
                    continue
                for s2, r in step(s, segs[i][1]):
                    if r is None or r == 'cnt':
                        nxt.append((s2, None))
                    else:
                        outs.append((s2, r))
            nxt = self.merge(st, nxt, True if self.cfg.data.get('join') else None)
            cur = [x[0] for x in nxt]
            i += 1
        return outs

    def run_seq(self, st, q, step):
        cur = [st]
        outs = []
        for seg in q.segs:
            nxt = []
            for s in cur:
                if seg[0] == 'item':
                    rs = step(s, seg[1])
                else:
                    katom, n, vals = seg[1], seg[2], seg[3]

                    def stepk(s2, k, katom=katom, vals=vals):
                        c = [(s2, None)]
                        done = []
                        for v in vals:
                            x = []
                            for s3, _ in c:
                                for s4, o in step(s3, v.subst({katom.id: k})):
                                    if o is None or o == 'cnt':
                                        x.append((s4, None))
                                    else:
                                        done.append((s4, o))
                            c = x
                        return done + c
                    rs = self.iterate(s, n, stepk)
                for s2, o in rs:
                    if o is None or o == 'cnt':
                        nxt.append((s2, None))
                    else:
                        outs.append((s2, o))
            nxt = self.merge(st, nxt, True if self.cfg.data.get('join') else None)
            cur = [x[0] for x in nxt]
        return outs + [(s, None) for s in cur]

    # ------------------------------------------------------------ engine
    def iterate(self, st, n, stepk, base=ZERO, depth=0):
        """all outcomes of iterating stepk(state, index) for index = base .. n-1 (n None: until 'done')"""
        if n is not None:
            rem = n - base
            if not rem.is_const:
                lo, hi = st.facts.interval(rem, 64) if depth == 0 else (None, None)
                if lo is not None and lo == hi:
                    rem = Lin(lo)
                elif hi is not None and hi <= 0:
                    rem = ZERO
            if rem.is_const:
                if rem.c <= 0:
                    return [(st, None)]
                if rem.c <= self.cfg.data.get('unroll', UNROLL):
                    if not self.cfg.data.get('join'):
                        return self.unroll(st, rem.c, stepk, base)
                    self.joining += 1
                    try:
                        return self.unroll(st, rem.c, stepk, base)
                    finally:
                        self.joining -= 1
        peel = self.cfg.data.get('peel')
        if n is None and peel and depth == 0:
            # the first iterations one by one; what is left is marked
            outs = self.unroll(st, peel, stepk, base, self.cfg.data.get('silent') is not None or self.cfg.data.get('link') is not None)
            for i, (s, o) in enumerate(outs):
                if o is None:
                    s.flag('peeled')
                    outs[i] = (s, 'done')
            return outs
        self.joining += 1
        try:
            return self._iterate(st, n, stepk, base, depth)
        finally:
            self.joining -= 1

    def unroll(self, st, cnt, stepk, base, stuck=False):
        cur = [st]
        outs = []
        for i in range(cnt):
            nxt = []
            for s in cur:
                for s2, o in stepk(s, base + i):
                    if o is None or o == 'cnt':
                        if stuck and s2.same(s):
                            # an iteration that changes nothing: all others are like it
                            s2.flag('stuck')
                            outs.append((s2, 'done'))
                            continue
                        nxt.append((s2, None))
                    else:
                        outs.append((s2, o))
            nxt = self.merge(st, nxt)
            cur = [x[0] for x in nxt]
            if not cur:
                break
        return outs + [(s, None) for s in cur]

    def split_outs(self, outs):
        conts, exits = [], []
        for s, o in outs:
            (conts if o is None or o == 'cnt' else exits).append((s, None if o == 'cnt' else o))
        return conts, exits

    def _iterate(self, st, n, stepk, base, depth):
        if n is not None:
            e = st.assume(('ge', n - base - 1))
            if e is None:
                return [(st, None)]
        for force in (False, True):
            r = self.try_period(st, n, stepk, base, depth, 1, force)
            if r is not None:
                return r
            if not force:
                # periodic control values: several iterations as one
                ps = self.find_periods(st, n, stepk, base)
                for p in ps:
                    r = self.try_period(st, n, stepk, base, depth, p, False)
                    if r is not None:
                        return r
        st.flag('loop')
        return [(st, None)]

    def find_periods(self, st, n, stepk, base):
        cur = st.fork()
        ps = []
        for i in range(MAXP):
            s = cur
            if n is not None:
                s = cur.assume(('ge', n - base - i - 1))
                if s is None:
                    break
            s = s.fork()
            conts, _ = self.split_outs(stepk(s, base + i))
            conts = self.merge(cur, conts)
            if len(conts) != 1:
                break
            cur = conts[0][0]
            if i >= 1 and all(comp_get(st, c) is None or
                              self.propose(c, comp_get(st, c), comp_get(cur, c), st, cur) is not None
                              for c in state_diff(st, cur)):
                ps.append(i + 1)
        return ps

    # one super-step: p iterations; (conts, exits, [(j, state before sub-iteration j)])
    def superstep(self, H, stepk, base, p, m, n):
        cur = [H.fork()]
        exits, mids = [], []
        for j in range(p):
            idx = base + m.scale(p) + j
            nxt = []
            for s in cur:
                if n is not None and j:
                    mids.append((j, s.fork()))
                    s = s.assume(('ge', n - idx - 1))
                    if s is None:
                        continue
                    s = s.fork()
                c, e = self.split_outs(stepk(s, idx))
                nxt.extend(c)
                exits.extend(e)
            nxt = self.merge(H, nxt)
            cur = [x[0] for x in nxt]
        return cur, exits, mids

    def propose(self, c, pre, post, h, s):
        """a regular summary for one component, or None"""
        if c[0] == 'x' and isinstance(c[1], tuple) and c[1][0] == 'ver':
            return Summ('ver', pre, uid=fresh('ver'))
        if isinstance(pre, N) and isinstance(post, N):
            d = post.l - pre.l
            if d.is_const:
                return Summ('ind', pre, c=d.c)
            iv = s.facts.interval(d, 4096)
            if iv[0] is not None and iv[0] == iv[1]:
                return Summ('ind', pre, c=iv[0])
            return None
        if isinstance(pre, Bs) and isinstance(post, Bs):
            t = bs_strip(pre.segs, post.segs)
            if t is not None and segs_len(t).is_const:
                return Summ('app', pre, tail=t)
            return None
        if isinstance(pre, BAO) and isinstance(post, BAO):
            t = bs_strip(pre.bs.segs, post.bs.segs)
            if t is not None and segs_len(t).is_const:
                return Summ('appba', pre, tail=t)
            if t is not None and len(t) == 1 and t[0][0] == 'sl':
                # everything read so far from one stream
                for k, v in s.ext.items():
                    if k[0] == 'pos' and isinstance(v, N) and v.l == t[0][2] + t[0][3]:
                        p0 = h.ext.get(k)
                        p0 = p0.l if p0 is not None else ZERO
                        if t[0][2] == p0:
                            return Summ('stream', pre, base=t[0][1], p0=p0, key=k)
            return None
        if isinstance(pre, ListO) and isinstance(post, ListO):
            t = sq_strip(pre.segs, post.segs)
            if t is not None and all(x[0] == 'item' for x in t):
                return Summ('applist', pre, tail=tuple(x[1] for x in t))
            return None
        return None

    def header(self, entry, summ, kat, k, cands):
        """H(k) as a state"""
        s = entry.fork()
        vals = {}
        for c, m in summ.items():
            if m.kind == 'ind':
                v = N(m.v0.l + k.scale(m.c))
            elif m.kind == 'app':
                v = Bs(m.v0.segs + (('rep', kat, k, m.tail),))
            elif m.kind == 'appba':
                v = BAO(Bs(m.v0.bs.segs + (('rep', kat, k, m.tail),)))
            elif m.kind == 'applist':
                v = ListO(m.v0.segs + (('rep', kat, k, m.tail),))
            elif m.kind == 'stream':
                continue
            elif m.kind == 'ver':
                v = N(m.v0.l + lin(mkatom('verk', (m.uid, k), 0, None, deps=frozenset())))
            elif m.kind == 'hav':
                v = self.hav_value(m, k)
            else:
                continue
            comp_set(s, c, v)
        for c, m in summ.items():
            if m.kind == 'stream':
                pos = s.ext.get(m.key)
                pl = pos.l if pos is not None else ZERO
                comp_set(s, c, BAO(Bs(m.v0.bs.segs + (('sl', m.base, m.p0, pl - m.p0),))))
        if summ:
            for L in cands:
                s.facts = s.facts.add('ge', subst_lin(L, {kat.id: k})) or s.facts
        return s

    def hav_value(self, m, k):
        v0 = m.v0
        if isinstance(v0, N):
            if getattr(m, 'gf', None) is not None:
                return N(m.gf)
            return N(lin(mkatom('h', (m.uid, k), deps=frozenset([m.uid]))))
        if isinstance(v0, Bs) or isinstance(v0, BAO):
            n = lin(mkatom('hl', (m.uid, k), 0, None, deps=frozenset([m.uid])))
            b = Bs((('u', m.uid, n, ()),))
            return BAO(b) if isinstance(v0, BAO) else b
        if isinstance(v0, ListO):
            n = lin(mkatom('hl', (m.uid, k), 0, None, deps=frozenset([m.uid])))
            b = mkatom('bv', (0,), 0)
            return ListO((('rep', b, n, (T('he', (K(m.uid), N(k), N(lin(b))), None, True),)),))
        if isinstance(v0, DictO):
            return DictO((), (), (None, None, T(m.uid, (), None, True)), fresh('ver'))
        if isinstance(v0, (SetO, IterO)):
            return SetO((), True) if isinstance(v0, SetO) else v0
        if isinstance(v0, Obj):
            return v0
        hint = None
        if isinstance(v0, (St,)) or (isinstance(v0, K) and isinstance(v0.v, str)):
            hint = 'str'
        return T('h', (K(m.uid), N(k)), hint, True)

    def changed_control(self, h, s):
        for c in state_diff(h, s):
            pre = comp_get(h, c)
            post = comp_get(s, c)
            if is_control(pre) and post is not None and c[0] in ('v', 'a'):
                return True
        return False

    def conforms(self, H, H1, s, summ, kat, k):
        """components of s that do not lead back to the header"""
        bad = []
        for c in state_diff(H, s):
            m = summ.get(c)
            pre, post = comp_get(H, c), comp_get(s, c)
            if m is None:
                if pre is None:
                    continue          # first bound in the body
                if isinstance(pre, N) and isinstance(post, N) and s.facts.entails_eq(post.l - pre.l):
                    continue
                bad.append(c)
            elif m.kind == 'ind':
                if not (isinstance(post, N) and s.facts.entails_eq(post.l - pre.l - m.c)):
                    bad.append(c)
            elif m.kind in ('app', 'appba'):
                a = pre.segs if m.kind == 'app' else pre.bs.segs
                if post.__class__ is not pre.__class__:
                    bad.append(c)
                    continue
                b = post.segs if m.kind == 'app' else post.bs.segs
                t = bs_strip(a, b)
                if t is None or t != canon_segs(tuple(subst_seg(x, {kat.id: k}) for x in m.tail)):
                    bad.append(c)
            elif m.kind == 'applist':
                t = sq_strip(pre.segs, post.segs) if isinstance(post, ListO) else None
                if t is None or t != tuple(('item', v.subst({kat.id: k})) for v in m.tail):
                    bad.append(c)
            elif m.kind == 'stream':
                pos = s.ext.get(m.key)
                want = BAO(Bs(m.v0.bs.segs + (('sl', m.base, m.p0, (pos.l if pos else ZERO) - m.p0),)))
                if post != want:
                    bad.append(c)
        # components summarised as changing but unchanged on this path
        for c, m in summ.items():
            if m.kind == 'ind' and m.c:
                if comp_get(H, c) == comp_get(s, c):
                    bad.append(c)
            elif m.kind in ('app', 'appba', 'applist') and comp_get(H, c) == comp_get(s, c):
                bad.append(c)
        return bad

    def repeatable(self, H, s, kat, k):
        lits = s.facts.since(H.facts)
        f = s.facts
        for l in lits:
            if l[0] == 'unk':
                continue
            l2 = literal_subst(l, {kat.id: k + 1}, substx)
            if l2 == l:
                continue
            f = f.add_literal(l2)
            if f is None:
                return False
        return f.feasible()

    def settles(self, s, stepk, base, p, k, n):
        """at most one way on from s: worth analysing as a loop of its own"""
        if n is None:
            return False
        s2 = s.assume(('ge', n - base - (k + 1).scale(p) - 1))
        if s2 is None:
            return True
        conts, exits, _ = self.superstep(s2.fork(), stepk, base, p, k + 1, n)
        return len(conts) + len(exits) <= 1

    def try_period(self, entry, n, stepk, base, depth, p, force):
        kat = mkatom('k', (fresh('k'),), 0, None, deps=frozenset())
        k = lin(kat)
        trips = None if n is None else n - base

        def bounded(s, j=0):
            s.facts = s.facts.add('ge', k) or s.facts
            if trips is not None:
                f = s.facts.add('ge', trips - k.scale(p) - 1)
                if f is None:
                    return None
                s.facts = f
            return s

        # ---- candidates from one iteration with everything invariant
        H = bounded(entry.fork())
        if H is None:
            return [(entry, None)]
        conts, exits, mids = self.superstep(H, stepk, base, p, k, n)
        leaves = [s for s in conts if self.changed_control(H, s)]
        mains = [s for s in conts if not any(s is x for x in leaves)]
        choices = []
        if not mains:
            choices = [({}, [])]
        else:
            seen = []
            for s in mains:
                summ = {}
                for c in state_diff(H, s):
                    pre, post = comp_get(H, c), comp_get(s, c)
                    if pre is None:
                        continue
                    m = self.propose(c, pre, post, H, s)
                    if m is None:
                        m = Summ('hav', comp_get(entry, c), uid=fresh('h'))
                    elif m.kind == 'ind' and m.c == 0:
                        continue
                    else:
                        m.v0 = comp_get(entry, c)
                    if m.kind == 'stream' and ('x', m.key) not in summ:
                        summ.setdefault(('x', m.key), Summ('hav', entry.ext.get(m.key) or N(0), uid=fresh('h')))
                    if not (c in summ and summ[c].kind == 'hav'):
                        summ[c] = m
                sig = [(c, m.kind, getattr(m, 'c', None), getattr(m, 'tail', None)) for c, m in sorted(summ.items(), key=repr)]
                if sig not in seen:
                    seen.append(sig)
                    choices.append((summ, []))
            # larger steps first: a path that makes full progress is the regular one
            choices.sort(key=lambda x: -sum(abs(m.c) for m in x[0].values() if m.kind == 'ind')
                         - sum(len(m.tail) for m in x[0].values() if m.kind in ('app', 'appba', 'applist')))
        for summ, cands in choices:
            r = self.solve(entry, n, stepk, base, p, kat, summ, False, bounded)
            if r is not None:
                if not force and r['bad'] and p == 1:
                    continue
                return self.finish(entry, n, stepk, base, depth, p, kat, r, bounded)
        if force:
            summ = {}
            for s in mains:
                for c in state_diff(H, s):
                    if comp_get(H, c) is not None and c not in summ:
                        summ[c] = Summ('hav', comp_get(entry, c), uid=fresh('h'))
            r = self.solve(entry, n, stepk, base, p, kat, summ, True, bounded)
            if r is None:
                entry.flag('loop')
                return None
            return self.finish(entry, n, stepk, base, depth, p, kat, r, bounded)
        return None

    def solve(self, entry, n, stepk, base, p, kat, summ, force, bounded):
        """check that the summaries are stable; dict or None"""
        k = lin(kat)
        summ = dict(summ)
        havs = [c for c in summ if summ[c].kind == 'hav']
        cands = None
        body = {'conts': []}
        for _ in range(12):
            if cands is None:
                cands = self.hav_cands(summ, entry, kat)
            H = self.header(entry, summ, kat, k, cands)
            H.flags = entry.flags
            H.emit(Ev('loop', {'k': kat, 'count': k, 'base': base, 'p': p, 'body': body, 'n': n}, ('', 0, ''), H.facts, H.locks, ''))
            if bounded(H) is None:
                return None
            conts, exits, mids = self.superstep(H, stepk, base, p, k, n)
            good, leaves = [], []
            retry = False
            for s in conts:
                if s.locks != H.locks:
                    s.flag('looplocks')
                if self.changed_control(H, s):
                    leaves.append(s)
                    continue
                bad = self.conforms(H, None, s, summ, kat, k)
                if not bad:
                    good.append(s)
                    continue
                if not self.repeatable(H, s, kat, k) or self.settles(s, stepk, base, p, k, n):
                    leaves.append(s)
                    continue
                if not force:
                    # components not summarised so far
                    new = [c for c in bad if c not in summ]
                    if new and len(new) == len(bad):
                        for c in new:
                            m = self.propose(c, comp_get(H, c), comp_get(s, c), H, s)
                            if m is None:
                                m = Summ('hav', comp_get(entry, c), uid=fresh('h'))
                            else:
                                m.v0 = comp_get(entry, c)
                            summ[c] = m
                        retry = True
                        break
                    # an append whose element was computed from the unsummarised state: recompute it
                    upd = False
                    for c in bad:
                        m = summ.get(c)
                        if m is not None and m.kind in ('app', 'appba', 'applist', 'ind') and not getattr(m, 'again', False):
                            m2 = self.propose(c, comp_get(H, c), comp_get(s, c), H, s)
                            if m2 is not None and m2.kind == m.kind:
                                m2.v0 = comp_get(entry, c)
                                m2.again = True
                                summ[c] = m2
                                upd = True
                    if upd:
                        retry = True
                        break
                    return None
                for c in bad:
                    summ[c] = Summ('hav', comp_get(entry, c), uid=fresh('h'))
                retry = True
                break
            if retry:
                cands = None
                continue
            # inductive inequalities
            if cands:
                keep = []
                for L in cands:
                    ok = True
                    for s in good:
                        amap = self.post_map(summ, s, k)
                        if amap is None or not s.facts.entails_ge(self.shift(L, summ, amap, kat, k)):
                            ok = False
                            break
                    if ok:
                        keep.append(L)
                if len(keep) != len(cands):
                    cands = keep
                    continue
            # guard inequalities as further candidates
            if (havs or n is None) and not getattr(self, '_noguard', False):
                more = self.guard_cands(summ, entry, good, H, kat, k, n is None)
                more = [L for L in more if L not in (cands or []) and L not in body.setdefault('tried', [])]
                if more:
                    body['tried'].extend(more)
                    cands = list(cands or []) + more
                    continue
            bad = False
            for c in summ:
                m = summ[c]
                if m.kind == 'hav':
                    m.last = None
                    if len(good) == 1:
                        v = comp_get(good[0], c)
                        ids = self.hav_ids(m, k)
                        if isinstance(v, V) and not (freex(v) & ids) and not self.mentions(v, m.uid):
                            m.last = v
                    if m.last is None and good:
                        bad = True
            body['conts'] = [(s.facts.since(H.facts), s.events(H.ntrace), s) for s in good]
            flags = frozenset()
            for s in good:
                flags |= s.flags
            return {'summ': summ, 'cands': cands or [], 'good': good, 'leaves': leaves, 'exits': exits, 'mids': mids,
                    'H': H, 'body': body, 'bad': bad, 'flags': flags}
        return None

    def mentions(self, v, uid):
        return ("'%s'" % uid) in repr(v) or uid in repr(v)

    def hav_ids(self, m, k):
        return frozenset([mkatom('h', (m.uid, k), deps=frozenset([m.uid])).id,
                          mkatom('hl', (m.uid, k), 0, None, deps=frozenset([m.uid])).id])

    def hav_lin(self, m, k):
        if isinstance(m.v0, N):
            return lin(mkatom('h', (m.uid, k), deps=frozenset([m.uid])))
        if isinstance(m.v0, (Bs, BAO, ListO)):
            return lin(mkatom('hl', (m.uid, k), 0, None, deps=frozenset([m.uid])))
        return None

    def num_of(self, v):
        if isinstance(v, N):
            return v.l
        if isinstance(v, Bs):
            return v.length()
        if isinstance(v, BAO):
            return v.bs.length()
        if isinstance(v, ListO):
            return Sq(v.segs).length()
        return None

    def hav_cands(self, summ, entry, kat):
        out, hs = [], []
        for c, m in summ.items():
            if m.kind == 'hav':
                h = self.hav_lin(m, lin(kat))
                v0 = self.num_of(m.v0)
                if h is not None and v0 is not None:
                    out.append(h - v0)
                    out.append(v0 - h)
                    hs.append((h, v0))
        # values that change by the same amount
        for i, (h, v0) in enumerate(hs):
            for g, w0 in hs[:i]:
                d = (h - v0) - (g - w0)
                out.extend([d, -d])
        return out

    def post_map(self, summ, s, k):
        amap = {}
        for c, m in summ.items():
            if m.kind == 'hav':
                h = self.hav_lin(m, k)
                if h is None:
                    continue
                v = self.num_of(comp_get(s, c))
                if v is None:
                    return None
                amap[h.t[0][0].id] = v
        return amap

    def shift(self, L, summ, amap, kat, k):
        """L(k) evaluated after the iteration: havoc'd values replaced by their new ones, other k by k+1"""
        hs = dict((i, lin(mkatom('tmp', (i,)))) for i in amap)
        L = subst_lin(L, hs)
        L = subst_lin(L, {kat.id: k + 1})
        back = dict((mkatom('tmp', (i,)).id, v) for i, v in amap.items())
        return subst_lin(L, back)

    def guard_cands(self, summ, entry, good, H, kat, k, index=False):
        out = []
        emap = {}
        ids = set()
        for c, m in summ.items():
            if m.kind == 'hav':
                h = self.hav_lin(m, k)
                v0 = self.num_of(m.v0)
                if h is not None and v0 is not None:
                    emap[h.t[0][0].id] = v0
                    ids.add(h.t[0][0].id)
        if index:
            ids.add(kat.id)
        for s in good:
            for l in s.facts.since(H.facts):
                if index and l[0] == 'ne':
                    # an index that every iteration excludes is never passed
                    c = dict((a.id, x) for a, x in l[1].t).get(kat.id)
                    if c in (1, -1):
                        j = (l[1] - k.scale(c)).scale(-c)
                        if kat.id not in j.free_atoms() and not (j.free_atoms() & ids) and j - k not in out and entry.facts.entails_ge(j):
                            out.append(j - k)
                if l[0] != 'ge' or not (l[1].free_atoms() & ids):
                    continue
                for d in (0, 1):
                    L = l[1] + d
                    L0 = subst_lin(subst_lin(L, emap), {kat.id: ZERO})
                    if L not in out and entry.facts.entails_ge(L0):
                        out.append(L)
                        break
        return out

    def finish(self, entry, n, stepk, base, depth, p, kat, r, bounded):
        k = lin(kat)
        summ, cands, body = r['summ'], r['cands'], r['body']
        outs = []

        def final(count, guard_ge1=False):
            """state after `count` super-steps"""
            s = self.header(entry, summ, kat, count, cands)
            s.flags = entry.flags | r['flags']
            for c, m in summ.items():
                if m.kind == 'hav' and getattr(m, 'last', None) is not None:
                    if comp_get(s, c) is not None:
                        comp_set(s, c, m.last.subst({kat.id: count - 1}))
            # names first bound inside the body
            if r['good']:
                g = r['good'][0]
                for c in state_diff(r['H'], g):
                    if c not in summ and comp_get(r['H'], c) is None and c[0] == 'v':
                        if len(r['good']) == 1:
                            v = comp_get(g, c)
                            if isinstance(v, V):
                                comp_set(s, c, v.subst({kat.id: count - 1}))
                        else:
                            comp_set(s, c, unk('loopvar'))
            body['start'] = dict((m.uid, m.v0) for m in summ.values() if m.kind == 'hav')
            s.emit(Ev('loop', {'k': kat, 'count': count, 'base': base, 'p': p, 'body': body, 'n': n}, ('', 0, ''), s.facts, s.locks, ''))
            return s

        def handle_leave(s):
            s.flags = s.flags | r['flags']
            if depth >= 5:
                s.flag('loopdepth')
                outs.append((s, 'done' if n is None else None))
                return
            self.joining -= 1
            try:
                outs.extend(self.iterate(s, n, stepk, base + k.scale(p) + p, depth + 1))
            finally:
                self.joining += 1

        common = None
        for g in r['good']:
            ls = [l for l in g.facts.since(r['H'].facts) if l[0] != 'unk']
            common = ls if common is None else [l for l in common if l in ls]

        def went_on(s, count):
            """s after `count` super-steps: what every one of them requires held in the last one; False: impossible"""
            if not common:
                return True
            g = s.facts.add('ge', count - 1)
            for l in common:
                if g is None:
                    break
                g = g.add_literal(literal_subst(l, {kat.id: count - 1}, substx))
            if g is not None and not g.feasible():
                g = None
            if g is None:
                f = s.facts.add('eq', count)
                if f is None or not f.feasible():
                    return False
                s.facts = f
            elif s.facts.entails_ge(count - 1):
                s.facts = g
            # an index that every iteration excluded is not one of them
            for l in common:
                if l[0] != 'ne':
                    continue
                c = dict((a.id, x) for a, x in l[1].t).get(kat.id)
                if c not in (1, -1):
                    continue
                j = (l[1] - lin(kat).scale(c)).scale(-c)
                if kat.id in j.free_atoms():
                    continue
                f = s.facts
                if f.entails_ge(j):
                    f = f.add('ge', j - count)
                elif f.entails_ge(count - j - 1):
                    f = f.add('ge', -j - 1)
                if f is None or (f is not s.facts and not f.feasible()):
                    return False
                s.facts = f
            return True

        if n is not None:
            rem = n - base
            for s, o in r['exits']:
                s.flags = s.flags | r['flags']
                if went_on(s, k):
                    outs.append((s, o))
            for s in r['leaves']:
                if went_on(s, k):
                    handle_leave(s)
            if not r['good']:
                # never gets past the first iteration: the only exhausted case is an empty iterable
                e = entry.assume(('ge', -rem))
                if e is not None:
                    outs.append((e.fork(), None))
                # exits and leaves were computed with k >= 0; they happen at k = 0
                res = []
                for s, o in outs:
                    s2 = s.assume(('eq', k)) if o is not None or True else s
                    if s2 is not None:
                        res.append((s2, o))
                return res
            if p == 1:
                e = entry.assume(('ge', -rem))
                if rem.bounds()[0] is not None and rem.bounds()[0] >= 0 or entry.facts.entails_ge(rem):
                    e = None          # rem == 0 is the zero-iteration instance of the summary
                if e is not None:
                    outs.append((e.fork(), None))
                s = final(rem)
                f = s.facts.add('ge', rem)
                if f is not None:
                    s.facts = f
                    if went_on(s, rem):
                        outs.append((s, None))
            else:
                m = lin(mkatom('k', (fresh('m'),), 0, None, deps=frozenset()))
                s = final(m)
                f = s.facts.add('ge', m)
                f = f.add('eq', rem - m.scale(p)) if f is not None else None
                if f is not None:
                    s.facts = f
                    if went_on(s, m):
                        outs.append((s, None))
                for j, ms in r['mids']:
                    s = ms.fork()
                    f = s.facts.add('eq', rem - k.scale(p) - j)
                    if f is not None:
                        s.facts = f
                        s.flags = s.flags | r['flags']
                        if went_on(s, k):
                            outs.append((s, None))
            return outs
        # while loop: first test (k = 0) and later tests (k >= 1, previous iteration went on)
        starts = []
        s0 = entry.fork()
        starts.append(s0)
        if r['good']:
            s1 = final(k)
            f = s1.facts.add('ge', k - 1)
            if f is not None:
                for l in common or []:
                    l2 = literal_subst(l, {kat.id: k - 1}, substx)
                    f2 = f.add_literal(l2)
                    if f2 is None:
                        f = None
                        break
                    f = f2
                if f is not None:
                    s1.facts = f
                    if went_on(s1, k):
                        starts.append(s1)
        for i, s in enumerate(starts):
            kk = ZERO if i == 0 else k
            H = s.fork()
            conts, exits, _ = self.superstep(H, stepk, base, p, kk, None)
            for x, o in exits:
                x.flags = x.flags | r['flags']
                outs.append((x, o))
            for x in conts:
                if self.changed_control(H, x):
                    lv = True
                elif i == 0:
                    # conforming when it leads to H(1)
                    lv = bool(self.conforms(self.header(entry, summ, kat, ZERO, []), None, x, summ, kat, ZERO)) and \
                        not self.repeatable(r['H'], x, kat, k)
                    lv = lv or (not r['good'])
                else:
                    lv = bool(self.conforms(H, None, x, summ, kat, k)) and not self.repeatable(H, x, kat, k)
                    lv = lv or not r['good']
                if lv:
                    handle_leave(x)
        return outs
