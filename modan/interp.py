"""Abstract interpreter for the Python subset used by the analysed package.

eval: list of (state, value | Exc); exec: list of (state, outcome) with outcome None (falls through),
'brk', 'cnt', ('ret', value) or ('exc', value).  Nothing is imported from the analysed package.
"""
import ast
import os
from .lin import (Lin, lin, Atom, mkatom, sym, fresh, Facts, fld, floordiv, mod, mkbit, shl, shr, band, bor, bxor, mul,
                  choose, complementary, literal_subst, literal_not, indicator, minmax, subst_lin, ZERO, ONE)
from .values import *
from .values import substx, freex, depsx, str_parts, is_str, mkseq, anyimp, lin_imp
from .state import *
from .state import PH, at_idx, key_lin
from .loops import LoopMixin
from .models import ModelMixin, BUILTIN_EXC, EXC_ALIAS


class Budget(Exception):
    pass


class Frame(object):
    __slots__ = ('env', 'fn', 'mod', 'cls', 'selfv', 'depth', 'qual', 'file', 'stack')

    def __init__(self, env, fn, mod, cls, selfv, depth, qual, file, stack=()):
        self.env, self.fn, self.mod, self.cls, self.selfv = env, fn, mod, cls, selfv
        self.depth, self.qual, self.file, self.stack = depth, qual, file, stack

    def sub(self, env):
        return Frame(env, self.fn, self.mod, self.cls, self.selfv, self.depth, self.qual, self.file, self.stack)


class Eqs(list):
    complete = True


def tuple_eq(lit):
    """the equalities of the numbers in two tuples that a condition compares"""
    out = Eqs()
    if lit[0] != 'bool' or not lit[2] or not isinstance(lit[1], tuple) or len(lit[1]) != 3 or lit[1][0] != 'eq':
        return out
    p, q = lit[1][1:]
    if not (isinstance(p, Sq) and isinstance(q, Sq)):
        return out
    a, b = p.items(), q.items()
    if a is None or b is None or len(a) != len(b):
        return out
    for x, y in zip(a, b):
        if x == y:
            continue
        if isinstance(x, N) and isinstance(y, N):
            out.append(('eq', x.l - y.l))
        else:
            out.complete = False
    return out


class Config(object):
    def __init__(self, **kw):
        self.faults = frozenset(kw.get('faults', ()))
        self.hooks = kw.get('hooks', {})
        self.stubs = dict(kw.get('stubs', {}))
        self.budget = kw.get('budget', 400000)
        self.data = kw


def local_names(node):
    """names assigned in a function body (not in nested functions)"""
    out, glob = set(), set()
    body = node.body if isinstance(node.body, list) else [node.body]
    a = getattr(node, 'args', None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        if a.vararg:
            out.add(a.vararg.arg)
        if a.kwarg:
            out.add(a.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr) and not isinstance(n, ast.Lambda):
                    out.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return frozenset(out - glob), frozenset(glob)


def has_yield(node):
    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(s) for s in (node.body if isinstance(node.body, list) else [node.body]))


class Interp(LoopMixin, ModelMixin):
    @property
    def cfg(self):
        return self._cfg

    @cfg.setter
    def cfg(self, c):
        # the budget is one of each interpreted entry point
        self._cfg = c
        self.steps = 0
        self.watch = c.data.get('watch')

    def __init__(self, root, package='modbus_tk'):
        self.root, self.package = root, package
        self.base = {}
        self.modenv = {}
        self.trees = {}
        self.files = {}
        self.fncls = {}
        self._loc = {}
        self._yield = {}
        self.steps = 0
        self.joining = 0
        self.cfg = Config()
        self.notes = []
        for n, bases in BUILTIN_EXC:
            self.base['B:' + n] = ClsO(n, tuple(Ref('B:' + b) for b in bases), {}, 'builtins')
        self.base['B:object'] = ClsO('object', (), {}, 'builtins')
        self.st0 = State(self.base)
        self.load_all()

    # ------------------------------------------------------------ program
    def load_all(self):
        d = os.path.join(self.root, self.package)
        names = []
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                m = self.package if f == '__init__.py' else self.package + '.' + f[:-3]
                names.append((m, os.path.join(d, f)))
        for m, f in names:
            with open(f, 'rb') as h:
                src = h.read()
            self.trees[m] = ast.parse(src, f)
            self.files[m] = os.path.relpath(f, self.root)
        for m, f in names:
            self.load(m)
        self.base.update(self.st0.heap)
        self.st0 = None

    def load(self, m):
        if m in self.modenv:
            return
        env = 'M:' + m
        self.modenv[m] = env
        self.st0.put(env, EnvO({'__name__': K(m), '__file__': K(self.files[m])}, None))
        fr = Frame(env, None, m, None, None, 0, m, self.files[m])
        outs = self.block(self.trees[m].body, self.st0, fr)
        ok = [s for s, o in outs if o is None]
        if ok:
            self.st0 = ok[0]
        else:
            self.notes.append('module %s does not load: %r' % (m, outs))

    def new_state(self):
        return State(self.base)

    def glob(self, m, name):
        o = self.base.get('M:' + m)
        return None if o is None else o.vars.get(name)

    # ------------------------------------------------------------ events
    def loc(self, fr, node):
        return (fr.file, getattr(node, 'lineno', 0), fr.qual)

    def emit(self, st, kind, fr, node, **d):
        st.emit(Ev(kind, d, self.loc(fr, node), st.facts, st.locks, fr.qual, fr.stack))

    # ------------------------------------------------------------ exceptions
    def exc(self, st, name, *args):
        o = st.new(InstO(Ref('B:' + name), {'args': mkseq(args)}), 'exc')
        return Exc(o)

    def any_exc(self, st, why='$Any'):
        o = st.new(InstO(Ref('B:' + why), {}, True), 'exc')
        return Exc(o)

    def mro(self, st, cref):
        out = []

        def rec(c):
            if not isinstance(c, Ref) or c in out:
                if isinstance(c, Ext) and c not in out:
                    out.append(c)
                return
            out.append(c)
            o = st.get(c.oid)
            for b in o.bases:
                rec(b)
        rec(cref)
        # a base listed before a later derived duplicate does not matter here
        return out

    def class_of(self, st, v):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if o.kind == 'inst':
                return o.cls
        return None

    def exc_match(self, st, v, c):
        """'yes' / 'no' / 'maybe'"""
        if isinstance(c, Sq):
            r = [self.exc_match(st, v, x) for x in (c.items() or [])]
            return 'yes' if 'yes' in r else 'maybe' if 'maybe' in r else 'no'
        if isinstance(c, Ext):
            c = self.exc_class(c)
        cls = self.class_of(st, v)
        if cls is None or not isinstance(c, Ref):
            if isinstance(c, Ref) and c.oid in ('B:Exception', 'B:BaseException'):
                return 'yes'
            return 'maybe'
        m = self.mro(st, cls)
        if c in m:
            return 'yes'
        if cls.oid in ('B:$Any', 'B:$AnyIO'):
            # an unknown exception of that family
            if cls in self.mro(st, c) or set(x for x in m if x.oid not in ('B:$Any', 'B:$AnyIO')) & set(self.mro(st, c)[1:]):
                return 'maybe'
        return 'no'

    def exc_class(self, v):
        if isinstance(v, Ext):
            n = EXC_ALIAS.get(v.path)
            if n:
                return Ref('B:' + n)
        return v

    # ------------------------------------------------------------ joins
    def join_values(self, lit, x, y):
        """value that is x when lit holds and y otherwise; None when not expressible"""
        if x == y:
            return x
        if isinstance(x, N) and isinstance(y, N):
            return N(choose(lit, x.l, y.l))
        if isinstance(x, Sq) and isinstance(y, Sq) and x.kind == y.kind and len(x.segs) == len(y.segs):
            segs = self.join_sseqs(lit, x.segs, y.segs)
            return None if segs is None else Sq(segs, x.kind)
        if isinstance(x, Bs) and isinstance(y, Bs):
            segs = self.join_bsegs(lit, x.segs, y.segs)
            return None if segs is None else Bs(segs)
        return None

    def join_sseqs(self, lit, a, b):
        if len(a) != len(b):
            return None
        out = []
        for p, q in zip(a, b):
            if p == q:
                out.append(p)
            elif p[0] == 'item' and q[0] == 'item':
                v = self.join_values(lit, p[1], q[1])
                if v is None:
                    return None
                out.append(('item', v))
            else:
                return None
        return tuple(out)

    def join_bsegs(self, lit, a, b):
        def expand(segs):
            out = []
            for s in segs:
                if s[0] == 'lit':
                    out.extend(('pk', 1, '>', Lin(c)) for c in s[1])
                else:
                    out.append(s)
            return out
        if a == b:
            return a
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        pa, pb = expand(a[n:]), expand(b[n:])
        if len(pa) != len(pb):
            return None
        out = list(a[:n])
        for p, q in zip(pa, pb):
            if p == q:
                out.append(p)
            elif p[0] == 'pk' and q[0] == 'pk' and p[1:3] == q[1:3]:
                out.append(('pk', p[1], p[2], choose(lit, p[3], q[3])))
            elif p[0] in ('pk', 'sl') and q[0] in ('pk', 'sl'):
                va, vb = seg_as_int(p), seg_as_int(q)
                if va is None or vb is None or va[0] != vb[0]:
                    return None
                out.append(('pk', va[0], '>', choose(lit, va[1], vb[1])))
            else:
                return None
        return tuple(out)

    def join_objs(self, lit, a, b):
        if a == b:
            return a
        if a.__class__ is not b.__class__:
            return None
        if a.kind == 'env' or a.kind == 'inst' or a.kind == 'ext':
            f = {'env': 'vars', 'inst': 'attrs', 'ext': 'attrs'}[a.kind]
            da, db = getattr(a, f), getattr(b, f)
            if a.kind == 'env':
                # a variable assigned on one side only is left unassigned there: keep separate
                if set(da) != set(db) or a.parent != b.parent:
                    return None
            elif set(da) != set(db):
                return None
            out = {}
            for k, v in da.items():
                w = db[k]
                if v is w or v == w:
                    out[k] = v
                else:
                    j = self.join_values(lit, v, w)
                    if j is None:
                        return None
                    out[k] = j
            kw = {f: out}
            if a.kind == 'env':
                kw['captured'] = a.captured or b.captured
            return a.set(**kw)
        if a.kind == 'list':
            segs = self.join_sseqs(lit, a.segs, b.segs)
            return None if segs is None else ListO(segs)
        if a.kind == 'ba':
            segs = self.join_bsegs(lit, a.bs.segs, b.bs.segs)
            return None if segs is None else BAO(Bs(segs))
        return None

    def join_two(self, base, s1, s2, r1, r2, full):
        """join two states that differ by one complementary literal; None when impossible"""
        if s1.locks != s2.locks or s1.flags != s2.flags:
            return None
        l1, l2 = s1.facts.log, s2.facts.log
        if len(l1) != len(l2):
            return None
        diff = [i for i in range(len(l1)) if l1[i] != l2[i]]
        if len(diff) != 1 or not complementary(l1[diff[0]], l2[diff[0]]):
            return None
        lit = l1[diff[0]]
        if not full:
            if s1.trace is not s2.trace or s1.ext != s2.ext or r1 != r2:
                return None
            if s1.heap is not s2.heap and s1.heap != s2.heap:
                return None
            s = s1.fork()
            s.facts = Facts.replay(tuple(l for i, l in enumerate(l1) if i != diff[0]))
            return s, r1
        # values
        if r1 == r2:
            r = r1
        elif isinstance(r1, V) and isinstance(r2, V):
            r = self.join_values(lit, r1, r2)
            if r is None:
                return None
        elif isinstance(r1, tuple) and isinstance(r2, tuple) and r1[0] == r2[0] == 'ret':
            r = self.join_values(lit, r1[1], r2[1])
            if r is None:
                return None
            r = ('ret', r)
        else:
            return None
        if set(s1.ext) != set(s2.ext):
            return None
        ext = {}
        for k in s1.ext:
            v = self.join_values(lit, s1.ext[k], s2.ext[k])
            if v is None:
                return None
            ext[k] = v
        if s1.heap is s2.heap:
            heap = None
        else:
            if set(s1.heap) != set(s2.heap):
                return None
            heap = {}
            for o, a in s1.heap.items():
                b = s2.heap[o]
                j = a if a is b else self.join_objs(lit, a, b)
                if j is None:
                    return None
                heap[o] = j
        facts = Facts.replay(tuple(l for i, l in enumerate(l1) if i != diff[0]))
        s = s1.fork()
        if s1.trace is not s2.trace:
            # common prefix
            n = min(s1.ntrace, s2.ntrace)
            e1, e2 = s1.events(), s2.events()
            p = 0
            while p < n and e1[p] is e2[p]:
                p += 1
            e1, e2 = e1[p:], e2[p:]
            if len(e1) != len(e2):
                return None
            joined = []
            for a, b in zip(e1, e2):
                if a is b:
                    joined.append(a)
                    continue
                if a.kind != b.kind or set(a.d) != set(b.d) or a.locks != b.locks:
                    return None
                d = {}
                for k, v in a.d.items():
                    w = b.d[k]
                    if v == w:
                        d[k] = v
                    elif isinstance(v, V) and isinstance(w, V):
                        j = self.join_values(lit, v, w)
                        if j is None:
                            return None
                        d[k] = j
                    elif isinstance(v, Lin) and isinstance(w, Lin):
                        d[k] = choose(lit, v, w)
                    else:
                        return None
                joined.append(Ev(a.kind, d, a.loc, facts, a.locks, a.fn, a.stack))
            t = s1
            tr, nt = s1.trace, s1.ntrace
            for _ in range(len(e1)):
                tr = tr[0]
                nt -= 1
            s.trace, s.ntrace = tr, nt
            for ev in joined:
                s.emit(ev)
        if heap is not None:
            s.heap, s.own = heap, True
        s.ext = ext
        s.facts = facts
        return s, r

    def merge(self, base, outs, full=None):
        """exact unions of partitions that differ only by one complementary literal"""
        if len(outs) < 2:
            return outs
        full = self.joining > 0 if full is None else full
        outs = list(outs)
        changed = True
        while changed and len(outs) > 1:
            changed = False
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    a, b = outs[i], outs[j]
                    if isinstance(a[1], Exc) or isinstance(b[1], Exc):
                        continue
                    if isinstance(a[1], tuple) and a[1][0] == 'exc':
                        continue
                    r = self.join_two(base, a[0], b[0], a[1], b[1], full)
                    if r is not None:
                        outs[i] = r
                        del outs[j]
                        changed = True
                        break
                if changed:
                    break
        return outs

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for s2, o in self.stmt(s, c, fr):
                    if o is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, o))
            if len(nxt) > 1:
                nxt = self.merge(st, nxt)
            cur = [x[0] for x in nxt]
            if not cur:
                break
        return done + [(c, None) for c in cur]

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.cfg.budget:
            raise Budget()
        m = getattr(self, 's_' + n.__class__.__name__, None)
        if m is None:
            st.flag('stmt:' + n.__class__.__name__)
            return [(st, None)]
        return m(n, st, fr)

    def xs(self, outs):
        """evaluation results -> statement outcomes (values dropped)"""
        return [(s, ('exc', v.v) if isinstance(v, Exc) else None) for s, v in outs]

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self.merge(st, self.xs(self.ev(n.value, st, fr)))

    def s_Global(self, n, st, fr):
        return [(st, None)]
    s_Nonlocal = s_Global

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('exc', v.v) if isinstance(v, Exc) else ('ret', v)) for s, v in self.ev(n.value, st, fr)]

    def s_Break(self, n, st, fr):
        return [(st, 'brk')]

    def s_Continue(self, n, st, fr):
        return [(st, 'cnt')]

    def s_Import(self, n, st, fr):
        for a in n.names:
            top = a.name.split('.')[0]
            if top == self.package:
                if st is self.st0 or self.st0 is not None:
                    for m in self._prefixes(a.name):
                        if m in self.trees and m not in self.modenv:
                            self.st0 = st
                            self.load(m)
                            st = self.st0
                v = Mod(a.name if a.asname else top)
            else:
                v = Ext(a.name if a.asname else top)
            self.store_name(st, fr, a.asname or top, v)
        return [(st, None)]

    def _prefixes(self, name):
        p = name.split('.')
        return ['.'.join(p[:i + 1]) for i in range(len(p))]

    def s_ImportFrom(self, n, st, fr):
        if n.module == '__future__':
            return [(st, None)]
        m = n.module or ''
        if n.level:
            pkg = fr.mod.rsplit('.', 1)[0] if fr.mod != self.package else self.package
            m = pkg + ('.' + m if m else '')
        for a in n.names:
            if m.split('.')[0] == self.package:
                if self.st0 is not None:
                    for x in self._prefixes(m) + [m + '.' + a.name]:
                        if x in self.trees and x not in self.modenv:
                            self.st0 = st
                            self.load(x)
                            st = self.st0
                env = st.get('M:' + m) if st.has('M:' + m) else None
                if a.name == '*' and env is not None:
                    for k, v in env.vars.items():
                        if not k.startswith('_'):
                            self.store_name(st, fr, k, v)
                    continue
                if env is not None and a.name in env.vars:
                    v = env.vars[a.name]
                elif m + '.' + a.name in self.trees:
                    v = Mod(m + '.' + a.name)
                else:
                    return [(st, ('exc', self.exc(st, 'ImportError').v))]
            else:
                v = self.exc_class(Ext(m + '.' + a.name))
            self.store_name(st, fr, a.asname or a.name, v)
        return [(st, None)]

    def s_FunctionDef(self, n, st, fr):
        outs = []
        for s, defs in self.ev_all([d for d in n.args.defaults], st, fr):
            if isinstance(defs, Exc):
                outs.append((s, ('exc', defs.v)))
                continue
            for s2, kwd in self.ev_all([d for d in n.args.kw_defaults if d is not None], s, fr):
                if isinstance(kwd, Exc):
                    outs.append((s2, ('exc', kwd.v)))
                    continue
                names = [a.arg for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None]
                self.capture(s2, fr.env)
                q = fr.qual + '.' + n.name if fr.qual else n.name
                f = Fn(n, fr.mod, fr.env, q, defs, dict(zip(names, kwd)))
                res = [(s2, f)]
                for dec in reversed(n.decorator_list):
                    nxt = []
                    for s3, v in res:
                        if isinstance(v, Exc):
                            nxt.append((s3, v))
                            continue
                        for s4, dv in self.ev(dec, s3, fr):
                            if isinstance(dv, Exc):
                                nxt.append((s4, dv))
                            else:
                                nxt.extend(self.call(s4, dv, [v], {}, fr, dec))
                    res = nxt
                for s3, v in res:
                    if isinstance(v, Exc):
                        outs.append((s3, ('exc', v.v)))
                    else:
                        self.store_name(s3, fr, n.name, v)
                        outs.append((s3, None))
        return outs

    def capture(self, st, env):
        while env is not None:
            o = st.get(env)
            if o.captured:
                return
            st.put(env, o.set(captured=True))
            env = o.parent

    def s_ClassDef(self, n, st, fr):
        outs = []
        for s, bases in self.ev_all(n.bases, st, fr):
            if isinstance(bases, Exc):
                outs.append((s, ('exc', bases.v)))
                continue
            oid = 'C:%s.%s' % (fr.qual, n.name)
            if s.has(oid):
                oid = fresh(oid)
            env = s.new(EnvO({}, fr.env, frozenset(), True), 'clsenv').oid
            s.put(oid, ClsO(n.name, tuple(self.exc_class(b) for b in bases), {}, fr.mod, env))
            f2 = Frame(env, None, fr.mod, Ref(oid), None, fr.depth, fr.qual + '.' + n.name, fr.file, fr.stack)
            for s2, o in self.block(n.body, s, f2):
                if o is not None:
                    outs.append((s2, o))
                    continue
                attrs = dict(s2.get(env).vars)
                s2.put(oid, s2.get(oid).set(attrs=attrs))
                for x in ast.walk(n):
                    if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                        self.fncls.setdefault(id(x), Ref(oid))
                self.store_name(s2, fr, n.name, Ref(oid))
                outs.append((s2, None))
        return outs

    def s_Assign(self, n, st, fr):
        outs = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                outs.append((s, ('exc', v.v)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, o in cur:
                    nxt.extend(self.assign(t, v, s2, fr) if o is None else [(s2, o)])
                cur = nxt
            outs.extend(cur)
        return outs

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        outs = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                outs.append((s, ('exc', v.v)))
            else:
                outs.extend(self.assign(n.target, v, s, fr))
        return outs

    def assign(self, t, v, st, fr):
        """list of (state, None | ('exc', v))"""
        if isinstance(t, ast.Name):
            self.store_name(st, fr, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = []
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for s, seq in self.as_seq(st, v, fr, t):
                if isinstance(seq, Exc):
                    outs.append((s, ('exc', seq.v)))
                    continue
                items = seq.items() if isinstance(seq, Sq) else None
                if star and items is not None:
                    i = star[0]
                    m = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        outs.append((s, ('exc', self.exc(s, 'ValueError').v)))
                        continue
                    mid = s.new(ListO(tuple(('item', x) for x in items[i:len(items) - m])), 'list')
                    vals = items[:i] + [mid] + (items[len(items) - m:] if m else [])
                    elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
                elif items is not None:
                    if len(items) != len(t.elts):
                        outs.append((s, ('exc', self.exc(s, 'ValueError').v)))
                        continue
                    vals, elts = items, t.elts
                elif isinstance(seq, Sq):
                    n = seq.length()
                    s2 = s.assume(('ne', n - len(t.elts)))
                    if s2 is not None:
                        s2 = s2.fork()
                        outs.append((s2, ('exc', self.exc(s2, 'ValueError').v)))
                    s = s.assume(('eq', n - len(t.elts)))
                    if s is None:
                        continue
                    vals = [self.seq_elem(seq, Lin(i), s.facts) for i in range(len(t.elts))]
                    vals = [x if x is not None else unk('elem') for x in vals]
                    elts = t.elts
                else:
                    vals = [T('item', (v, N(i)), None, anyimp(v)) for i in range(len(t.elts))]
                    elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
                cur = [(s, None)]
                for e, x in zip(elts, vals):
                    nxt = []
                    for s2, o in cur:
                        nxt.extend(self.assign(e, x, s2, fr) if o is None else [(s2, o)])
                    cur = nxt
                outs.extend(cur)
            return outs
        if isinstance(t, ast.Attribute):
            outs = []
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc):
                    outs.append((s, ('exc', o.v)))
                else:
                    outs.extend(self.setattr_(s, o, t.attr, v, fr, t))
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc):
                    outs.append((s, ('exc', o.v)))
                    continue
                for s2, i in self.ev(t.slice, s, fr):
                    if isinstance(i, Exc):
                        outs.append((s2, ('exc', i.v)))
                    else:
                        outs.extend(self.xs(self.setitem(s2, o, i, v, fr, t)))
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        st.flag('target')
        return [(st, None)]

    def store_name(self, st, fr, name, v):
        env = fr.env
        o = st.get(env)
        if fr.fn is not None:
            _, glob = self.locals_of(fr.fn.node)
            if name in glob:
                # global or nonlocal
                e = o.parent
                while e is not None:
                    p = st.get(e)
                    if name in p.vars:
                        break
                    e = p.parent
                env = e if e is not None else 'M:' + fr.mod
                o = st.get(env)
        d = dict(o.vars)
        d[name] = v
        st.put(env, o.set(vars=d))
        if env.startswith('M:') and self.st0 is None:
            self.emit(st, 'setglobal', fr, None, mod=env[2:], name=name, value=v)

    def locals_of(self, node):
        r = self._loc.get(id(node))
        if r is None:
            r = self._loc[id(node)] = local_names(node)
        return r

    def setattr_(self, st, o, name, v, fr, node):
        if isinstance(o, Ref):
            ob = st.get(o.oid)
            if ob.kind == 'inst':
                # property setter?
                d = dict(ob.attrs)
                if o.idx:
                    self.emit(st, 'setattr', fr, node, obj=o, name=name, value=v)
                    d[name] = unk('fam')
                    st.put(o.oid, ob.set(attrs=d))
                    return [(st, None)]
                self.emit(st, 'setattr', fr, node, obj=o, name=name, value=v)
                d[name] = v
                st.put(o.oid, ob.set(attrs=d))
                return [(st, None)]
            if ob.kind == 'cls':
                d = dict(ob.attrs)
                d[name] = v
                st.put(o.oid, ob.set(attrs=d))
                self.emit(st, 'setattr', fr, node, obj=o, name=name, value=v)
                return [(st, None)]
            if ob.kind == 'ext':
                d = dict(ob.attrs)
                d[name] = v
                st.put(o.oid, ob.set(attrs=d))
                self.emit(st, 'setattr', fr, node, obj=o, name=name, value=v)
                return [(st, None)]
            if ob.kind == 'env':
                pass
        if isinstance(o, Mod):
            env = 'M:' + o.name
            if st.has(env):
                e = st.get(env)
                d = dict(e.vars)
                d[name] = v
                st.put(env, e.set(vars=d))
            return [(st, None)]
        self.emit(st, 'setattr', fr, node, obj=o, name=name, value=v)
        st.setext(('attr', o, name), v)
        return [(st, None)]

    def s_AugAssign(self, n, st, fr):
        t = n.target
        outs = []
        if isinstance(t, ast.Name):
            places = [(st, None)]
        elif isinstance(t, ast.Attribute):
            places = self.ev(t.value, st, fr)
        else:
            places = []
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc):
                    places.append((s, o))
                    continue
                for s2, i in self.ev(t.slice, s, fr):
                    places.append((s2, i if isinstance(i, Exc) else (o, i)))
        for s, p in places:
            if isinstance(p, Exc):
                outs.append((s, ('exc', p.v)))
                continue
            if isinstance(t, ast.Name):
                cur = self.lookup(s, fr, t.id)
                cur = [(s, cur)]
            elif isinstance(t, ast.Attribute):
                cur = self.getattr_(s, p, t.attr, fr, t)
            else:
                cur = self.getitem(s, p[0], p[1], fr, t)
            for s2, c in cur:
                if isinstance(c, Exc):
                    outs.append((s2, ('exc', c.v)))
                    continue
                for s3, v in self.ev(n.value, s2, fr):
                    if isinstance(v, Exc):
                        outs.append((s3, ('exc', v.v)))
                        continue
                    for s4, r in self.augop(s3, n.op, c, v, fr, n):
                        if isinstance(r, Exc):
                            outs.append((s4, ('exc', r.v)))
                        elif isinstance(t, ast.Name):
                            self.store_name(s4, fr, t.id, r)
                            outs.append((s4, None))
                        elif isinstance(t, ast.Attribute):
                            outs.extend(self.setattr_(s4, p, t.attr, r, fr, t))
                        else:
                            outs.extend(self.xs(self.setitem(s4, p[0], p[1], r, fr, t)))
        return outs

    def augop(self, st, op, a, b, fr, node):
        if isinstance(op, ast.Add) and isinstance(a, Ref):
            o = st.get(a.oid)
            if o.kind == 'ba':
                outs = []
                bb = self.as_bytes(st, b)
                if bb is not None:
                    st.put(a.oid, BAO(Bs(o.bs.segs + bb.segs)))
                    return [(st, a)]
                if isinstance(b, T):
                    st.put(a.oid, BAO(Bs(o.bs.segs + (self.unk_seg('imp' if anyimp(b) else 'u', depsx(b)),))))
                    return [(st, a)]
                return [(st, self.exc(st, 'TypeError'))]
            if o.kind == 'list':
                return [(s, v if isinstance(v, Exc) else a) for s, v in self.call_method(st, a, 'extend', [b], {}, fr, node)]
        return self.binop(st, op, a, b, fr, node)

    def unk_seg(self, prefix='u', deps=()):
        u = fresh(prefix)
        return ('u', u, sym('len(%s)' % u, 0, None, deps=frozenset([u])), tuple(sorted(deps)))

    def s_Delete(self, n, st, fr):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, o in cur:
                if o is not None:
                    nxt.append((s, o))
                    continue
                if isinstance(t, ast.Name):
                    e = s.get(fr.env)
                    d = dict(e.vars)
                    d.pop(t.id, None)
                    s.put(fr.env, e.set(vars=d))
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    for s2, ov in self.ev(t.value, s, fr):
                        if isinstance(ov, Exc):
                            nxt.append((s2, ('exc', ov.v)))
                            continue
                        for s3, iv in self.ev(t.slice, s2, fr):
                            if isinstance(iv, Exc):
                                nxt.append((s3, ('exc', iv.v)))
                            else:
                                nxt.extend(self.xs(self.delitem(s3, ov, iv, fr, t)))
                else:
                    for s2, ov in self.ev(t.value, s, fr):
                        if isinstance(ov, Exc):
                            nxt.append((s2, ('exc', ov.v)))
                            continue
                        if isinstance(ov, Ref) and s2.get(ov.oid).kind == 'inst':
                            ob = s2.get(ov.oid)
                            d = dict(ob.attrs)
                            d.pop(t.attr, None)
                            s2.put(ov.oid, ob.set(attrs=d))
                        nxt.append((s2, None))
            cur = nxt
        return cur

    def s_Assert(self, n, st, fr):
        outs = []
        for s, b in self.test(n.test, st, fr):
            if isinstance(b, Exc):
                outs.append((s, ('exc', b.v)))
            elif b:
                outs.append((s, None))
            else:
                outs.append((s, ('exc', self.exc(s, 'AssertionError').v)))
        return outs

    def s_If(self, n, st, fr):
        outs = []
        for s, b in self.test(n.test, st, fr):
            if isinstance(b, Exc):
                outs.append((s, ('exc', b.v)))
            elif b:
                outs.extend(self.block(n.body, s, fr))
            else:
                outs.extend(self.block(n.orelse, s, fr))
        return self.merge(st, outs)

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            v = st.pend if st.pend is not None else self.any_exc(st).v
            return [(st, ('exc', v))]
        outs = []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Exc):
                outs.append((s, ('exc', v.v)))
                continue
            v = self.exc_class(v)
            if isinstance(v, Ref) and s.get(v.oid).kind == 'cls':
                for s2, i in self.call(s, v, [], {}, fr, n):
                    outs.append((s2, ('exc', i.v if isinstance(i, Exc) else i)))
            else:
                outs.append((s, ('exc', v)))
        for s, o in outs:
            self.emit(s, 'raise', fr, n, exc=o[1])
        return outs

    def s_Try(self, n, st, fr):
        outs = []
        pend0 = st.pend
        for s, o in self.block(n.body, st, fr):
            if isinstance(o, tuple) and o[0] == 'exc':
                outs.extend(self.handle(n.handlers, s, o[1], fr))
            elif o is None and n.orelse:
                outs.extend(self.block(n.orelse, s, fr))
            else:
                outs.append((s, o))
        outs = self.merge(st, outs)
        if n.finalbody:
            res = []
            for s, o in outs:
                p = s.pend
                if isinstance(o, tuple) and o[0] == 'exc':
                    s.pend = o[1]
                for s2, o2 in self.block(n.finalbody, s, fr):
                    s2.pend = p
                    res.append((s2, o if o2 is None else o2))
            outs = res
        for s, o in outs:
            s.pend = pend0
        return outs
    s_TryStar = s_Try

    def handle(self, handlers, st, v, fr):
        outs = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    ms = [(s, 'yes')]
                else:
                    ms = []
                    for s2, c in self.ev(h.type, s, fr):
                        if isinstance(c, Exc):
                            outs.append((s2, ('exc', c.v)))
                        else:
                            ms.append((s2, self.exc_match(s2, v, self.exc_class(c))))
                for s2, m in ms:
                    if m == 'no':
                        nxt.append(s2)
                        continue
                    if m == 'maybe':
                        other = s2.fork()
                        nxt.append(other)
                        s2 = s2.fork()
                    old = s2.pend
                    s2.pend = v
                    self.emit(s2, 'caught', fr, h, exc=v)
                    if h.name:
                        self.store_name(s2, fr, h.name, v)
                    for s3, o in self.block(h.body, s2, fr):
                        s3.pend = old
                        if h.name:
                            e = s3.get(fr.env)
                            if h.name in e.vars:
                                d = dict(e.vars)
                                d.pop(h.name)
                                s3.put(fr.env, e.set(vars=d))
                        outs.append((s3, o))
            cur = nxt
        outs.extend((s, ('exc', v)) for s in cur)
        return outs

    def s_With(self, n, st, fr):
        return self.with_items(n.items, n.body, st, fr, n)

    def with_items(self, items, body, st, fr, node):
        if not items:
            return self.block(body, st, fr)
        it = items[0]
        outs = []
        for s, cm in self.ev(it.context_expr, st, fr):
            if isinstance(cm, Exc):
                outs.append((s, ('exc', cm.v)))
                continue
            for s2, v in self.cm_enter(s, cm, fr, it.context_expr):
                if isinstance(v, Exc):
                    outs.append((s2, ('exc', v.v)))
                    continue
                if it.optional_vars is not None:
                    ass = self.assign(it.optional_vars, v, s2, fr)
                else:
                    ass = [(s2, None)]
                for s3, o in ass:
                    bo = self.with_items(items[1:], body, s3, fr, node) if o is None else [(s3, o)]
                    for s4, o2 in bo:
                        outs.extend(self.cm_exit(s4, cm, o2, fr, it.context_expr))
        return outs

    # ------------------------------------------------------------ expressions
    def ev_all(self, exprs, st, fr):
        """list of (state, [values]) or (state, Exc)"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.cfg.budget:
            raise Budget()
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            return [(st, unk('expr'))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, float)) or v is Ellipsis:
            return [(st, K(v))]
        if isinstance(v, int):
            return [(st, N(v))]
        if isinstance(v, bytes):
            return [(st, BL(v))]
        return [(st, unk('const'))]

    def lookup(self, st, fr, name):
        env = fr.env
        first = True
        while env is not None:
            o = st.get(env)
            if name in o.vars:
                return o.vars[name]
            if name in o.locals:
                return self.exc(st, 'UnboundLocalError', K(name))
            env = o.parent
        o = st.get('M:' + fr.mod)
        if name in o.vars:
            return o.vars[name]
        if ('B:' + name) in self.base:
            return Ref('B:' + name)
        if name in EXC_ALIAS:
            return Ref('B:' + EXC_ALIAS[name])
        if name in self.BUILTINS:
            return Ext('builtins.' + name)
        return self.exc(st, 'NameError', K(name))

    def watched(self, st, owner, name, fr, node):
        """emit the read of an attribute or global variable that the driver watches"""
        if (owner, name) in self.watch:
            self.emit(st, 'acc', fr, node, obj=K('%s.%s' % (owner, name)), op='get')

    def e_Name(self, e, st, fr):
        if self.watch:
            st = st.fork()
            self.watched(st, 'M:' + fr.mod, e.id, fr, e)
        return [(st, self.lookup(st, fr, e.id))]

    def e_Attribute(self, e, st, fr):
        outs = []
        for s, o in self.ev(e.value, st, fr):
            if isinstance(o, Exc):
                outs.append((s, o))
            else:
                outs.extend(self.getattr_(s, o, e.attr, fr, e))
        return outs

    def class_attr(self, st, cref, name):
        """(value, owner) from the class hierarchy, ('ext', base) when an external base may define it, or None"""
        ext = None
        for c in self.mro(st, cref):
            if isinstance(c, Ext):
                if c.path not in ('builtins.object',):
                    ext = c
                continue
            o = st.get(c.oid)
            if name in o.attrs:
                return o.attrs[name], c
        if ext is not None:
            return 'ext', ext
        return None

    def bind(self, st, v, recv, cls, fr, node):
        """bind a class attribute to an instance (or class)"""
        if isinstance(v, Fn):
            return [(st, BM(recv, v) if recv is not None else v)]
        if isinstance(v, Wrap):
            if v.kind == 'static':
                return [(st, v.val)]
            if v.kind == 'classm':
                return [(st, BM(cls, v.val))]
            if v.kind == 'property':
                if recv is None:
                    return [(st, v)]
                return self.call(st, v.val, [recv], {}, fr, node)
        return [(st, v)]

    def getattr_(self, st, o, name, fr, node):
        if isinstance(o, Ref):
            ob = st.get(o.oid)
            k = ob.kind
            if self.watch and k in ('inst', 'cls'):
                own = o
                if k == 'cls' or name not in ob.attrs:
                    ca = self.class_attr(st, o if k == 'cls' else ob.cls, name)
                    own = ca[1] if ca is not None else o
                if isinstance(own, Ref):
                    st = st.fork()
                    self.watched(st, own.oid, name, fr, node)
            if k == 'inst':
                if name in ob.attrs:
                    ca = self.class_attr(st, ob.cls, name)
                    if not (ca is not None and isinstance(ca[0], Wrap) and ca[0].kind == 'property'):
                        return [(st, at_idx(ob.attrs[name], o.idx))]
                if name == '__class__':
                    return [(st, ob.cls)]
                if name == '__dict__':
                    return [(st, unk('dict'))]
                ca = self.class_attr(st, ob.cls, name)
                if ca is not None:
                    if ca[0] == 'ext':
                        return [(st, ExtM(o, name))]
                    return self.bind(st, ca[0], o, ob.cls, fr, node)
                if self.is_exc_cls(st, ob.cls) or name.startswith('__'):
                    return [(st, ExtM(o, name))]
                if ob.open:
                    return [(st, T('attr', (o, K(name))))]
                return [(st, self.exc(st, 'AttributeError', K(name)))]
            if k == 'cls':
                if name == '__name__':
                    return [(st, K(ob.name))]
                ca = self.class_attr(st, o, name)
                if ca is not None:
                    if ca[0] == 'ext':
                        return [(st, ExtM(ca[1], name))]
                    return self.bind(st, ca[0], None, o, fr, node)
                if ob.mod == 'builtins' or name.startswith('__') or self.is_exc_cls(st, o):
                    return [(st, ExtM(o, name))]
                return [(st, self.exc(st, 'AttributeError', K(name)))]
            if k == 'ext':
                if name in ob.attrs:
                    return [(st, at_idx(ob.attrs[name], o.idx))]
                return self.ext_attr(st, o, ob, name, fr, node)
            return [(st, ExtM(o, name))]
        if isinstance(o, Mod):
            env = 'M:' + o.name
            if self.watch:
                st = st.fork()
                self.watched(st, env, name, fr, node)
            if st.has(env):
                vs = st.get(env).vars
                if name in vs:
                    return [(st, vs[name])]
            if o.name + '.' + name in self.trees:
                return [(st, Mod(o.name + '.' + name))]
            return [(st, self.exc(st, 'AttributeError', K(name)))]
        if isinstance(o, Ext):
            return [(st, self.ext_const(o.path + '.' + name))]
        if isinstance(o, Sup):
            m = self.mro(st, self.class_of(st, o.obj) or o.obj)
            if o.cls in m:
                m = m[m.index(o.cls) + 1:]
            ext = None
            for c in m:
                if isinstance(c, Ext):
                    if c.path != 'builtins.object':
                        ext = c
                    continue
                oc = st.get(c.oid)
                if name in oc.attrs:
                    return self.bind(st, oc.attrs[name], o.obj, self.class_of(st, o.obj), fr, node)
            return [(st, ExtM(o.obj, name))]
        if isinstance(o, T):
            v = st.getext(('attr', o, name))
            if v is not None:
                return [(st, v)]
            if o.hint == 'dictobj':
                return [(st, T('attr', (o, K(name))))]
            return self.term_attr(st, o, name, fr, node)
        if isinstance(o, (Fn, BM)):
            if name in ('__name__', '__qualname__', '__doc__'):
                f = o if isinstance(o, Fn) else o.fn
                return [(st, K(f.qual.rsplit('.', 1)[-1]) if isinstance(f, Fn) else unk('name', 'str'))]
            if name == '__func__' and isinstance(o, BM):
                return [(st, o.fn)]
            if name == '__self__' and isinstance(o, BM):
                return [(st, o.recv)]
            return [(st, unk('fnattr'))]
        if isinstance(o, K) and o.v is None:
            return [(st, self.exc(st, 'AttributeError', K(name)))]
        if isinstance(o, (N,)) or (isinstance(o, K) and isinstance(o.v, (bool, float))):
            return [(st, ExtM(o, name))]
        return [(st, ExtM(o, name))]

    def is_exc_cls(self, st, c):
        return Ref('B:BaseException') in self.mro(st, c)

    def e_Subscript(self, e, st, fr):
        outs = []
        for s, o in self.ev(e.value, st, fr):
            if isinstance(o, Exc):
                outs.append((s, o))
                continue
            for s2, i in self.ev(e.slice, s, fr):
                if isinstance(i, Exc):
                    outs.append((s2, i))
                else:
                    outs.extend(self.getitem(s2, o, i, fr, e))
        return outs

    def e_Slice(self, e, st, fr):
        outs = []
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        for s, vs in self.ev_all(parts, st, fr):
            outs.append((s, vs if isinstance(vs, Exc) else Sl(*vs)))
        return outs

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Tuple(self, e, st, fr):
        return [(s, vs if isinstance(vs, Exc) else Sq(self.splat(vs))) for s, vs in self.ev_star(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        outs = []
        for s, vs in self.ev_star(e.elts, st, fr):
            outs.append((s, vs if isinstance(vs, Exc) else s.new(ListO(self.splat(vs)), 'list')))
        return outs

    def e_Set(self, e, st, fr):
        outs = []
        for s, vs in self.ev_star(e.elts, st, fr):
            outs.append((s, vs if isinstance(vs, Exc) else s.new(SetO([v for v in vs if isinstance(v, V)]), 'set')))
        return outs

    def splat(self, vs):
        segs = []
        for v in vs:
            if isinstance(v, tuple) and v[0] == 'star':
                segs.extend(v[1].segs)
            else:
                segs.append(('item', v))
        return tuple(segs)

    def ev_star(self, elts, st, fr):
        """values, with ('star', Sq) for starred ones"""
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                            continue
                        for s3, q in self.as_seq(s2, v, fr, e):
                            if isinstance(q, Exc):
                                nxt.append((s3, q))
                            elif isinstance(q, Sq) and q.items() is not None:
                                nxt.append((s3, vs + q.items()))
                            elif isinstance(q, Sq):
                                nxt.append((s3, vs + [('star', q)]))
                            else:
                                nxt.append((s3, vs + [('star', Sq((('rep', mkatom('bv', (0,), 0), sym('len(%r)' % (v,), 0), (T('elem', (v,)),)),)))]))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            cur = nxt
        return cur

    def e_Dict(self, e, st, fr):
        outs = []
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, ps in cur:
                if isinstance(ps, Exc):
                    nxt.append((s, ps))
                    continue
                if k is None:
                    for s2, d in self.ev(v, s, fr):
                        if isinstance(d, Exc):
                            nxt.append((s2, d))
                        elif isinstance(d, Ref) and s2.get(d.oid).kind == 'dict' and s2.get(d.oid).tmpl is None:
                            nxt.append((s2, ps + list(s2.get(d.oid).entries)))
                        else:
                            s2.flag('dictsplat')
                            nxt.append((s2, ps))
                    continue
                for s2, kv in self.ev_all([k, v], s, fr):
                    nxt.append((s2, kv if isinstance(kv, Exc) else ps + [tuple(kv)]))
            cur = nxt
        for s, ps in cur:
            if isinstance(ps, Exc):
                outs.append((s, ps))
            else:
                d = []
                for k, v in ps:
                    d = [(a, b) for a, b in d if a != k] + [(k, v)]
                outs.append((s, s.new(DictO(d), 'dict')))
        return outs

    def e_JoinedStr(self, e, st, fr):
        cur = [(st, [])]
        for p in e.values:
            nxt = []
            for s, ps in cur:
                if isinstance(ps, Exc):
                    nxt.append((s, ps))
                elif isinstance(p, ast.Constant):
                    nxt.append((s, ps + [p.value]))
                else:
                    spec = ''
                    if p.format_spec is not None and all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                        spec = ''.join(x.value for x in p.format_spec.values)
                    for s2, v in self.ev(p.value, s, fr):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        else:
                            nxt.append((s2, ps + list(self.fmt_part(s2, spec or 's', v))))
            cur = nxt
        return [(s, ps if isinstance(ps, Exc) else mkstr(ps)) for s, ps in cur]

    def e_IfExp(self, e, st, fr):
        outs = []
        for s, b in self.test(e.test, st, fr):
            if isinstance(b, Exc):
                outs.append((s, b))
            else:
                outs.extend(self.ev(e.body if b else e.orelse, s, fr))
        return self.merge(st, outs)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        outs = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s, fr):
                    if isinstance(v, Exc) or last:
                        outs.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, fr, x):
                        if isinstance(b, Exc):
                            outs.append((s3, b))
                        elif b == isand:
                            nxt.append(s3)
                        else:
                            outs.append((s3, v))
            cur = nxt
        return outs

    def test(self, e, st, fr):
        """list of (state, bool | Exc); avoids materialising boolean values"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs = []
            cur = [st]
            for x in e.values:
                nxt = []
                for s in cur:
                    for s2, b in self.test(x, s, fr):
                        if isinstance(b, Exc):
                            outs.append((s2, b))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            outs.append((s2, b))
                cur = nxt
            outs.extend((s, isand) for s in cur)
            return self.merge(st, outs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else not b) for s, b in self.test(e.operand, st, fr)]
        outs = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Exc):
                outs.append((s, v))
            else:
                outs.extend(self.truth(s, v, fr, e))
        return self.merge(st, outs)

    def split(self, st, lit):
        """[(state, bool)] for a literal, without infeasible branches"""
        d = st.facts.decide_literal(lit)
        if d is not None:
            return [(st, d)]
        out = []
        a = st.fork()
        a.facts = st.facts.add_raw(lit)
        eqs = tuple_eq(lit)
        if eqs:
            # equal tuples have equal items
            ds = [st.facts.decide_literal(l) for l in eqs]
            if False in ds:
                return [(st, False)]
            if None not in ds and eqs.complete:
                return [(st, True)]
            f = a.facts.add_all(eqs)
            if f is None or not f.feasible():
                b = st.fork()
                b.facts = st.facts.add_raw(literal_not(lit))
                return [(b, False)]
            a.facts = f
        out.append((a, True))
        b = st.fork()
        b.facts = st.facts.add_raw(literal_not(lit))
        out.append((b, False))
        return out

    def split_int(self, st, lit):
        """as split, but conditions on something not modelled are marked undecided"""
        outs = self.split(st, lit)
        if len(outs) == 2 and lin_imp(lit[1]):
            for s, _ in outs:
                s.facts = s.facts.add_unk(lit[1].deps)
        return outs

    def split_term(self, st, key, imp=False):
        outs = self.split(st, ('bool', key, True))
        if len(outs) == 2 and imp:
            for s, _ in outs:
                s.facts = s.facts.add_unk(depsx(key))
        return outs

    def truth(self, st, v, fr=None, node=None):
        if isinstance(v, T) and v.op == '$view':
            v = v.args[0]
        if isinstance(v, K):
            return [(st, bool(v.v))]
        if isinstance(v, N):
            return self.split_int(st, ('ne', v.l))
        if isinstance(v, Bs):
            return self.split_int(st, ('ge', v.length() - 1))
        if isinstance(v, Sq):
            return self.split_int(st, ('ge', v.length() - 1))
        if isinstance(v, St):
            if any(isinstance(p, str) or p[1] == 'd' for p in v.parts):
                return [(st, True)]
            return self.split_term(st, ('truth', v), anyimp(v))
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if o.kind == 'list':
                return self.list_truth(st, v, o)
            if o.kind == 'cells':
                return self.split_int(st, ('ge', at_idx(o.n, v.idx) - 1))
            if o.kind == 'ba':
                return self.split_int(st, ('ge', o.bs.length() - 1))
            if o.kind == 'dict':
                if o.entries:
                    return [(st, True)]
                if o.tmpl is None:
                    return [(st, False)]
                return self.split_term(st, ('nonempty', v, N(o.ver)))
            if o.kind == 'set':
                if o.items:
                    return [(st, True)]
                if not o.open:
                    return [(st, False)]
                return self.split_term(st, ('nonempty', v))
            if o.kind == 'inst':
                for nm in ('__bool__', '__len__'):
                    ca = self.class_attr(st, o.cls, nm)
                    if ca is not None and isinstance(ca[0], Fn):
                        outs = []
                        for s, r in self.call(st, BM(v, ca[0]), [], {}, fr, node):
                            if isinstance(r, Exc):
                                outs.append((s, r))
                            else:
                                outs.extend(self.truth(s, r, fr, node))
                        return outs
                return [(st, True)]
            return [(st, True)]
        if isinstance(v, T):
            if v.op == 'not':
                return [(s, not b) for s, b in self.truth(st, v.args[0], fr, node)]
            if v.hint in ('socket', 'obj', 'exc'):
                return [(st, True)]
            return self.split_term(st, ('truth', v), anyimp(v))
        return [(st, True)]

    def list_truth(self, st, v, o):
        n = ListLen(o)
        return self.split_int(st, ('ge', n - 1))

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else K(not b)) for s, b in self.test(e.operand, st, fr)]
        outs = []
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(v, Exc):
                outs.append((s, v))
                continue
            n = num(v)
            if n is not None:
                if isinstance(e.op, ast.USub):
                    outs.append((s, N(-n)))
                elif isinstance(e.op, ast.UAdd):
                    outs.append((s, N(n)))
                else:
                    outs.append((s, N(-n - 1)))
            elif isinstance(v, K) and isinstance(v.v, float):
                outs.append((s, K(-v.v if isinstance(e.op, ast.USub) else v.v)))
            else:
                outs.append((s, T('neg', (v,), getattr(v, 'hint', None), anyimp(v))))
        return outs

    def e_BinOp(self, e, st, fr):
        outs = []
        for s, vs in self.ev_all([e.left, e.right], st, fr):
            if isinstance(vs, Exc):
                outs.append((s, vs))
            else:
                outs.extend(self.binop(s, e.op, vs[0], vs[1], fr, e))
        return outs

    def e_Compare(self, e, st, fr):
        outs = []
        cur = []
        for s, v in self.ev(e.left, st, fr):
            cur.append((s, v))
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            last = i == len(e.ops) - 1
            nxt = []
            for s, a in cur:
                if isinstance(a, Exc):
                    outs.append((s, a))
                    continue
                for s2, b in self.ev(x, s, fr):
                    if isinstance(b, Exc):
                        outs.append((s2, b))
                        continue
                    for s3, r in self.compare(s2, op, a, b, fr, e):
                        if isinstance(r, Exc):
                            outs.append((s3, r))
                        elif r is False or last:
                            outs.append((s3, K(r) if isinstance(r, bool) else r))
                        else:
                            nxt.append((s3, b))
            cur = nxt
        return outs

    def e_Lambda(self, e, st, fr):
        outs = []
        for s, defs in self.ev_all(e.args.defaults, st, fr):
            if isinstance(defs, Exc):
                outs.append((s, defs))
                continue
            self.capture(s, fr.env)
            if fr.cls is not None:
                self.fncls.setdefault(id(e), fr.cls)
            outs.append((s, Fn(e, fr.mod, fr.env, fr.qual + '.<lambda>', defs)))
        return outs

    def e_NamedExpr(self, e, st, fr):
        outs = []
        for s, v in self.ev(e.value, st, fr):
            if not isinstance(v, Exc):
                self.store_name(s, fr, e.target.id, v)
            outs.append((s, v))
        return outs

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        outs = []
        vs = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        for s, v in vs:
            if not isinstance(v, Exc):
                y = self.lookup(s, fr, '$yield')
                if isinstance(y, Ref):
                    o = s.get(y.oid)
                    s.put(y.oid, ListO(o.segs + (('item', v),)))
                v = NONE
            outs.append((s, v))
        return outs

    def e_YieldFrom(self, e, st, fr):
        outs = []
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Exc):
                outs.append((s, v))
                continue
            for s2, q in self.as_seq(s, v, fr, e):
                if isinstance(q, Sq):
                    y = self.lookup(s2, fr, '$yield')
                    if isinstance(y, Ref):
                        o = s2.get(y.oid)
                        s2.put(y.oid, ListO(o.segs + q.segs))
                outs.append((s2, q if isinstance(q, Exc) else NONE))
        return outs

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        outs = []
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if not e.args:
                return [(st, Sup(fr.cls, fr.selfv))]
            for s, vs in self.ev_all(e.args, st, fr):
                outs.append((s, vs if isinstance(vs, Exc) else Sup(vs[0], vs[1])))
            return outs
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars'):
            return [(st, unk('ns'))]
        for s, f in self.ev(e.func, st, fr):
            if isinstance(f, Exc):
                outs.append((s, f))
                continue
            for s2, args in self.ev_star(e.args, s, fr):
                if isinstance(args, Exc):
                    outs.append((s2, args))
                    continue
                cur = [(s2, {})]
                for kw in e.keywords:
                    nxt = []
                    for s3, d in cur:
                        if isinstance(d, Exc):
                            nxt.append((s3, d))
                            continue
                        for s4, v in self.ev(kw.value, s3, fr):
                            if isinstance(v, Exc):
                                nxt.append((s4, v))
                                continue
                            d2 = dict(d)
                            if kw.arg is not None:
                                d2[kw.arg] = v
                            elif isinstance(v, Ref) and s4.get(v.oid).kind == 'dict' and s4.get(v.oid).tmpl is None \
                                    and all(isinstance(k, K) for k, _ in s4.get(v.oid).entries):
                                for k, x in s4.get(v.oid).entries:
                                    d2[k.v] = x
                            else:
                                d2['**'] = v
                            nxt.append((s4, d2))
                    cur = nxt
                for s3, d in cur:
                    if isinstance(d, Exc):
                        outs.append((s3, d))
                    else:
                        outs.extend(self.call(s3, f, args, d, fr, e))
        return outs if len(outs) < 2 else self.merge(st, outs)

    def call(self, st, f, args, kw, fr, node):
        f = self.exc_class(f)
        if isinstance(f, BM):
            return self.call(st, f.fn, [f.recv] + list(args), kw, fr, node)
        if isinstance(f, Wrap):
            if f.kind == 'partial':
                fn, a0, k0 = f.val
                k = dict(k0)
                k.update(kw)
                return self.call(st, fn, list(a0) + list(args), k, fr, node)
            return self.call(st, f.val, args, kw, fr, node)
        if isinstance(f, Fn):
            stub = self.cfg.stubs[f.qual] if f.qual in self.cfg.stubs else self.STUBS.get(f.qual)
            if stub is not None:
                r = stub(self, st, list(args), kw, fr, node)
                if r is not NotImplemented:
                    return r
            if fr.depth > 40:
                return [(st, unk('deep'))]
            return self.call_fn(st, f, args, kw, fr, node)
        if isinstance(f, Ref):
            o = st.get(f.oid)
            if o.kind == 'cls':
                return self.instantiate(st, f, args, kw, fr, node)
            if o.kind == 'inst':
                ca = self.class_attr(st, o.cls, '__call__')
                if ca is not None and isinstance(ca[0], Fn):
                    return self.call(st, ca[0], [f] + list(args), kw, fr, node)
        if isinstance(f, Ext):
            return self.call_ext(st, f.path, args, kw, fr, node)
        if isinstance(f, ExtM):
            return self.call_method(st, f.recv, f.name, args, kw, fr, node)
        if isinstance(f, T):
            return self.call_term(st, f, args, kw, fr, node)
        if isinstance(f, (K, N, Bs, Sq, St)):
            return [(st, self.exc(st, 'TypeError'))]
        return [(st, unk('call'))]

    def flat_args(self, args):
        return all(isinstance(a, V) for a in args)

    def call_fn(self, st, f, args, kw, fr, node):
        n = f.node
        a = n.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        env = {}
        args = list(args)
        kw = dict(kw)
        starkw = kw.pop('**', None)
        # positional
        i = 0
        rest = []
        while args:
            x = args[0]
            if isinstance(x, tuple):
                # generic-length star: only a vararg can take it
                if i < len(names):
                    q = x[1]
                    need = len(names) - i
                    for j in range(need):
                        env[names[i]] = self.seq_elem(q, Lin(j), st.facts) or unk('arg')
                        i += 1
                    args.pop(0)
                    continue
                rest.append(x)
                args.pop(0)
                continue
            if i < len(names):
                env[names[i]] = x
                i += 1
            else:
                rest.append(x)
            args.pop(0)
        if rest and not a.vararg:
            return [(st, self.exc(st, 'TypeError', K('too many arguments for %s' % f.qual)))]
        if a.vararg:
            env[a.vararg.arg] = Sq(self.splat(rest))
        extra = []
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in env:
                    return [(st, self.exc(st, 'TypeError', K('duplicate argument %s' % k)))]
                env[k] = v
            else:
                extra.append((K(k), v))
        if extra and not a.kwarg:
            return [(st, self.exc(st, 'TypeError', K('unexpected argument of %s' % f.qual)))]
        if a.kwarg:
            if starkw is not None and not extra:
                env[a.kwarg.arg] = starkw
            else:
                env[a.kwarg.arg] = st.new(DictO(extra), 'kw')
        elif starkw is not None:
            for nm in names[i:]:
                if nm not in env:
                    env[nm] = T('kwarg', (starkw, K(nm)))
        nd = len(f.defs)
        for j, nm in enumerate(names):
            if nm not in env:
                d = j - (len(names) - nd)
                if d < 0:
                    return [(st, self.exc(st, 'TypeError', K('missing argument %s of %s' % (nm, f.qual))))]
                env[nm] = f.defs[d]
        for nm in konly:
            if nm not in env:
                if nm not in f.kwdefs:
                    return [(st, self.exc(st, 'TypeError', K('missing argument %s' % nm)))]
                env[nm] = f.kwdefs[nm]
        locs, _ = self.locals_of(n)
        gen = self._yield.get(id(n))
        if gen is None:
            gen = self._yield[id(n)] = has_yield(n)
        st = st.fork()
        ylist = None
        if gen:
            ylist = st.new(ListO(), 'gen')
            env['$yield'] = ylist
        eref = st.new(EnvO(env, f.env if f.env and not f.env.startswith('M:') else None, locs), 'env')
        cls = f.cls or self.fncls.get(id(n))
        selfv = env[names[0]] if names else None
        f2 = Frame(eref.oid, f, f.mod, cls, selfv, fr.depth + 1, f.qual, self.files.get(f.mod, '?'),
                   fr.stack + ((fr.file, getattr(node, 'lineno', 0), f.qual),))
        if isinstance(n, ast.Lambda):
            res = [(s, ('exc', v.v) if isinstance(v, Exc) else ('ret', v)) for s, v in self.ev(n.body, st, f2)]
        else:
            res = self.block(n.body, st, f2)
        outs = []
        for s, o in res:
            if o is None:
                v = NONE
            elif isinstance(o, tuple):
                v = Exc(o[1]) if o[0] == 'exc' else o[1]
            else:
                v = NONE
            if ylist is not None and not isinstance(v, Exc):
                v = Sq(s.get(ylist.oid).segs, 'gen')
            if s.has(eref.oid) and not s.get(eref.oid).captured:
                s.drop(eref.oid)
            outs.append((s, v))
        return self.merge(st, outs)

    def instantiate(self, st, c, args, kw, fr, node):
        o = st.get(c.oid)
        if o.mod == 'builtins' and self.is_exc_cls(st, c):
            if not self.flat_args(args):
                args = []
            return [(st, st.new(InstO(c, {'args': mkseq(args)}), 'exc'))]
        st = st.fork()
        inst = st.new(InstO(c, {}, False), o.name)
        self.emit(st, 'new', fr, node, cls=c, obj=inst)
        ca = self.class_attr(st, c, '__init__')
        if ca is not None and ca[0] != 'ext' and isinstance(ca[0], Fn):
            outs = []
            for s, v in self.call(st, BM(inst, ca[0]), args, kw, fr, node):
                outs.append((s, v if isinstance(v, Exc) else inst))
            return outs
        if self.is_exc_cls(st, c):
            io = st.get(inst.oid)
            st.put(inst.oid, io.set(attrs={'args': mkseq([a for a in args if isinstance(a, V)])}))
        elif ca is not None and ca[0] == 'ext':
            st.put(inst.oid, st.get(inst.oid).set(open=True))
        elif args or kw:
            return [(st, self.exc(st, 'TypeError'))]
        return [(st, inst)]

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, 'set')

    def e_DictComp(self, e, st, fr):
        outs = []
        for s, v in self.ev(e.generators[0].iter, st, fr):
            if isinstance(v, Exc):
                outs.append((s, v))
                continue
            d = s.new(DictO(), 'dict')
            outs.extend(self.comp_run(e, s, fr, v, d, lambda s2, f2: self.dict_add(e, s2, f2, d)))
        return [(s, v if isinstance(v, Exc) else v) for s, v in outs]

    def dict_add(self, e, st, fr, d):
        outs = []
        for s, kv in self.ev_all([e.key, e.value], st, fr):
            if isinstance(kv, Exc):
                outs.append((s, ('exc', kv.v)))
            else:
                outs.extend(self.xs(self.setitem(s, d, kv[0], kv[1], fr, e)))
        return outs

    def comp(self, e, st, fr, kind):
        outs = []
        for s, v in self.ev(e.generators[0].iter, st, fr):
            if isinstance(v, Exc):
                outs.append((s, v))
                continue
            lst = s.new(ListO(), 'comp')

            def add(s2, f2, lst=lst):
                r = []
                for s3, x in self.ev(e.elt, s2, f2):
                    if isinstance(x, Exc):
                        r.append((s3, ('exc', x.v)))
                    else:
                        o = s3.get(lst.oid)
                        s3.put(lst.oid, ListO(o.segs + (('item', x),)))
                        r.append((s3, None))
                return r
            outs.extend(self.comp_run(e, s, fr, v, lst, add))
        return outs

    def comp_run(self, e, st, fr, first, result, add):
        """run a comprehension; add(state, frame) -> statement outcomes"""
        st = st.fork()
        eref = st.new(EnvO({}, fr.env, frozenset(), True), 'cenv')
        f2 = fr.sub(eref.oid)

        def level(i, s, itv):
            g = e.generators[i]

            def body(s2):
                cur = [(s2, None)]
                for c in g.ifs:
                    nxt = []
                    for s3, o in cur:
                        if o is not None:
                            nxt.append((s3, o))
                            continue
                        for s4, b in self.test(c, s3, f2):
                            if isinstance(b, Exc):
                                nxt.append((s4, ('exc', b.v)))
                            else:
                                nxt.append((s4, None if b else 'cnt'))
                    cur = nxt
                res = []
                for s3, o in cur:
                    if o is not None:
                        res.append((s3, o))
                    elif i + 1 < len(e.generators):
                        for s4, v in self.ev(e.generators[i + 1].iter, s3, f2):
                            if isinstance(v, Exc):
                                res.append((s4, ('exc', v.v)))
                            else:
                                res.extend(level(i + 1, s4, v))
                    else:
                        res.extend(add(s3, f2))
                return self.merge(s2, res)
            return self.for_loop(s, f2, itv, g.target, body, e)
        outs = []
        for s, o in level(0, st, first):
            s.drop(eref.oid)
            if isinstance(o, tuple):
                outs.append((s, Exc(o[1]) if o[0] == 'exc' else o[1]))
            else:
                outs.append((s, result))
        return outs

    def e_GeneratorExp(self, e, st, fr):
        outs = []
        for s, v in self.ev(e.generators[0].iter, st, fr):
            if isinstance(v, Exc):
                outs.append((s, v))
            else:
                self.capture(s, fr.env)
                outs.append((s, Gen(e, fr, v)))
        return outs

    def gen_search(self, st, g, fr, node, onelem, default):
        """consume a generator until onelem(state, value) gives ('stop', value); list of (state, value|Exc)"""
        e, f0, first = g.node, g.fr, g.first

        def add(s2, f2):
            r = []
            for s3, x in self.ev(e.elt, s2, f2):
                if isinstance(x, Exc):
                    r.append((s3, ('exc', x.v)))
                else:
                    r.extend(onelem(s3, x))
            return r
        return self.comp_run(e, st, f0, first, default, add)


def ListLen(o):
    n = ZERO
    for s in o.segs:
        n = n + (ONE if s[0] == 'item' else s[2].scale(len(s[3])))
    return n


def seg_as_int(s):
    if s[0] == 'pk' and s[2] == '>':
        return s[1], s[3]
    if s[0] == 'sl' and s[3].is_const and s[3].c in (1, 2, 4):
        return s[3].c, fld(s[1], s[2], s[3].c, False, '>')
    return None
