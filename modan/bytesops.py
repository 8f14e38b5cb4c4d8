"""Operations on symbolic byte strings and sequences (pure functions, decided under Facts)."""
from .lin import Lin, lin, mkatom, sym, fresh, fld, floordiv, mod, ZERO, ONE, subst_lin, merge_bytes
from .values import *
from .values import segs_len, seg_len, subst_seg, canon_segs, subst_sseg


def pk_byte(s, i):
    """value (0..255) of byte i of a packed integer"""
    size, endian, v = s[1], s[2], s[3]
    j = (size - 1 - i) if endian == '>' else i
    return mod(floordiv(v, 1 << (8 * j)), 256)


def seg_bytes(s):
    """list of byte values of a segment of constant length, or None"""
    if s[0] == 'lit':
        return [Lin(c) for c in s[1]]
    if s[0] == 'pk':
        return [pk_byte(s, i) for i in range(s[1])]
    if s[0] == 'sl':
        if s[3].is_const and s[3].c <= 16:
            return [fld(s[1], s[2] + i, 1, False, '>') for i in range(s[3].c)]
        return None
    if s[0] == 'u':
        if s[2].is_const and s[2].c <= 16:
            return [ubyte(s[1], Lin(i)) for i in range(s[2].c)]
        return None
    return None


def ubyte(uid, i):
    return lin(mkatom('ub', (uid, i), 0, 255, deps=frozenset([uid]) | i.deps))


def rep_unit(s):
    """(element size, list of byte values of one element in terms of s[1]) or None"""
    out = []
    for x in s[3]:
        b = seg_bytes(x)
        if b is None:
            return None
        out.extend(b)
    return len(out), out


def imp_bs(deps=(), n=None):
    u = fresh('imp')
    if n is None:
        n = sym('len(%s)' % u, 0, None, deps=frozenset([u]))
    return Bs((('u', u, n, tuple(sorted(deps))),))


def bs_int(bs, off, size, signed, endian, facts):
    """integer of `size` bytes at offset off (known to be inside), or None"""
    if size == 1:
        endian = '>'
    p = ZERO
    for s in bs.segs:
        n = seg_len(s)
        rel = off - p
        # inside this segment?
        if facts.entails_ge(rel - n):
            p = p + n
            continue
        if not facts.entails_ge(rel):
            return None
        if facts.entails_ge(n - rel - size):
            return seg_int(s, rel, size, signed, endian, facts)
        break
    # byte by byte
    bl = []
    for i in range(size):
        b = bs_byte(bs, off + i, facts)
        if b is None:
            return None
        bl.append(b)
    return bytes_int(bl, signed, endian)


def bytes_int(bl, signed, endian):
    if endian == '<':
        bl = list(reversed(bl))
    v = ZERO
    for b in bl:
        v = v.scale(256) + b
    v = merge_bytes(v)
    if signed:
        return to_signed(v, len(bl))
    return v


def to_signed(v, size):
    m = 1 << (8 * size)
    lo, hi = v.bounds()
    if hi is not None and hi < m // 2:
        return v
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        a = v.t[0][0]
        if a.op == 'fld' and a.args[2] == size and not a.args[3]:
            return fld(a.args[0], a.args[1], size, True, a.args[4])
    from .lin import choose
    return choose(('ge', v - m // 2), v - m, v)


def seg_int(s, rel, size, signed, endian, facts):
    if s[0] == 'lit':
        if rel.is_const:
            b = s[1][rel.c:rel.c + size]
            if len(b) == size:
                return Lin(int.from_bytes(b, 'big' if endian == '>' else 'little', signed=signed))
        iv = facts.interval(rel, 4096)
        if iv[0] is not None and iv[0] == iv[1]:
            return seg_int(s, Lin(iv[0]), size, signed, endian, facts)
        if len(set(s[1])) == 1:
            return Lin(int.from_bytes(s[1][:1] * size, 'big', signed=signed))
        return None
    if s[0] == 'pk':
        iv = (rel.c, rel.c) if rel.is_const else facts.interval(rel, 64)
        if iv[0] is None or iv[0] != iv[1]:
            return None
        r = iv[0]
        if r == 0 and size == s[1] and (endian == s[2] or size == 1):
            lo, hi = s[3].bounds()
            m = 1 << (8 * size)
            if signed:
                if lo is not None and hi is not None and lo >= -(m // 2) and hi < m // 2:
                    return s[3]
                return to_signed(mod(s[3], m), size)
            if lo is not None and hi is not None and lo >= 0 and hi < m:
                return s[3]
            if facts.entails_ge(s[3]) and facts.entails_ge(Lin(m - 1) - s[3]):
                return s[3]
            return mod(s[3], m)
        return bytes_int([pk_byte(s, r + i) for i in range(size)], signed, endian)
    if s[0] == 'sl':
        return fld(s[1], s[2] + rel, size, signed, endian)
    if s[0] == 'u':
        return bytes_int([ubyte(s[1], rel + i) for i in range(size)], signed, endian)
    # rep
    u = rep_unit(s)
    if u is None:
        return None
    c, bl = u
    jr = split_rel(rel, c, facts)
    if jr is None:
        return None
    j, r = jr
    if r + size <= c:
        # a whole packed item?
        q = 0
        for x in s[3]:
            w = seg_len(x).c
            if q == r and w == size and x[0] == 'pk':
                y = subst_seg(x, {s[1].id: j})
                if y[0] == 'lit':
                    return Lin(int.from_bytes(y[1], 'big' if endian == '>' else 'little', signed=signed))
                return seg_int(y, ZERO, size, signed, endian, facts)
            q += w
        return bytes_int([subst_lin(bl[r + i], {s[1].id: j}) for i in range(size)], signed, endian)
    out = []
    for i in range(size):
        jj = j + (r + i) // c
        out.append(subst_lin(bl[(r + i) % c], {s[1].id: jj}))
    return bytes_int(out, signed, endian)


def split_rel(rel, c, facts):
    """rel = c*j + r with 0 <= r < c constant"""
    if c == 1:
        return rel, 0
    if all(k % c == 0 for _, k in rel.t):
        r = rel.c % c
        return floordiv(rel - r, c), r
    iv = facts.interval(rel, 65536)
    if iv[0] is not None and iv[0] == iv[1]:
        return Lin(iv[0] // c), iv[0] % c
    return None


def bs_byte(bs, off, facts):
    p = ZERO
    for s in bs.segs:
        n = seg_len(s)
        rel = off - p
        if facts.entails_ge(rel - n):
            p = p + n
            continue
        if not facts.entails_ge(rel):
            return None
        if not facts.entails_ge(n - rel - 1):
            return None
        return seg_int(s, rel, 1, False, '>', facts)
    return None


def bs_region(bs, lo, hi, facts):
    """bytes [lo, hi) of bs, 0 <= lo <= hi <= len known; Bs"""
    if lo == ZERO and facts.entails_eq(bs.length() - hi):
        return bs
    if hi - lo == ZERO:
        return Bs()
    out = []
    p = ZERO
    for s in bs.segs:
        n = seg_len(s)
        e = p + n
        if facts.entails_ge(lo - e):
            p = e
            continue
        if facts.entails_ge(p - hi):
            break
        if facts.entails_ge(p - lo):
            a = ZERO
        elif facts.entails_ge(lo - p):
            a = lo - p
        else:
            return imp_bs(bs.deps, hi - lo)
        if facts.entails_ge(hi - e):
            b = n
        elif facts.entails_ge(e - hi):
            b = hi - p
        else:
            return imp_bs(bs.deps, hi - lo)
        r = seg_part(s, n, a, b, facts)
        if r is None:
            return imp_bs(bs.deps, hi - lo)
        out.extend(r)
        p = e
    return Bs(out)


def seg_part(s, n, a, b, facts):
    if a == ZERO and b == n:
        return [s]
    if s[0] == 'sl':
        return [('sl', s[1], s[2] + a, b - a)]
    def const(x):
        if x.is_const:
            return x.c
        iv = facts.interval(x, 70000)
        return iv[0] if iv[0] is not None and iv[0] == iv[1] else None
    if s[0] in ('lit', 'pk'):
        ca, cb = const(a), const(b)
        if ca is None or cb is None:
            return None
        if s[0] == 'lit':
            return [('lit', s[1][ca:cb])]
        return [('pk', 1, '>', pk_byte(s, i)) for i in range(ca, cb)]
    if s[0] == 'u':
        k = mkatom('bv', (0,), 0)
        return [('rep', k, b - a, (('pk', 1, '>', ubyte(s[1], lin(k) + a)),))]
    u = rep_unit(s)
    if u is None:
        return None
    c, bl = u
    ja, jb = split_rel(a, c, facts), split_rel(b, c, facts)
    if ja is None:
        return None
    if jb is None:
        return None
    out = []
    (j, r), (j2, r2) = ja, jb
    # partial first element
    if r:
        if j2 - j == ZERO:
            return [('pk', 1, '>', subst_lin(bl[i], {s[1].id: j})) for i in range(r, r2)]
        out.extend(('pk', 1, '>', subst_lin(bl[i], {s[1].id: j})) for i in range(r, c))
        j = j + 1
    if j2 - j != ZERO:
        k = s[1]
        out.append(('rep', k, j2 - j, tuple(subst_seg(x, {k.id: lin(k) + j}) for x in s[3])))
    out.extend(('pk', 1, '>', subst_lin(bl[i], {s[1].id: j2})) for i in range(0, r2))
    return out


def bs_seq(bs):
    """the byte values as a sequence"""
    segs = []
    for s in bs.segs:
        b = seg_bytes(s)
        if b is not None:
            segs.extend(('item', N(x)) for x in b)
        elif s[0] == 'sl':
            k = mkatom('bv', (0,), 0)
            segs.append(('rep', k, s[3], (N(fld(s[1], s[2] + lin(k), 1, False, '>')),)))
        elif s[0] == 'u':
            k = mkatom('bv', (0,), 0)
            segs.append(('rep', k, s[2], (N(ubyte(s[1], lin(k))),)))
        else:
            u = rep_unit(s)
            k = mkatom('bv', (0,), 0)
            if u is None:
                segs.append(('rep', k, seg_len(s), (impint(),)))
            else:
                segs.append(('rep', s[1], s[2], tuple(N(x) for x in u[1])))
    return Sq(segs, 'bytes')


def seq_elem(q, i, facts):
    """element i (known to be inside) of a Sq, or None"""
    p = ZERO
    for s in q.segs:
        n = ONE if s[0] == 'item' else s[2].scale(len(s[3]))
        rel = i - p
        if facts.entails_ge(rel - n):
            p = p + n
            continue
        if not facts.entails_ge(rel):
            return None
        if s[0] == 'item':
            if rel == ZERO or facts.entails_eq(rel):
                return s[1]
            return None
        if not facts.entails_ge(n - rel - 1):
            return None
        c = len(s[3])
        jr = split_rel(rel, c, facts)
        if jr is None:
            return None
        j, r = jr
        return s[3][r].subst({s[1].id: j})
    return None


def seq_region(q, lo, hi, facts):
    """segments of q[lo:hi], 0 <= lo <= hi <= len known; or None"""
    if hi - lo == ZERO:
        return ()
    out = []
    p = ZERO
    for s in q.segs:
        n = ONE if s[0] == 'item' else s[2].scale(len(s[3]))
        e = p + n
        if facts.entails_ge(lo - e):
            p = e
            continue
        if facts.entails_ge(p - hi):
            break
        if facts.entails_ge(p - lo):
            a = ZERO
        elif facts.entails_ge(lo - p):
            a = lo - p
        else:
            return None
        if facts.entails_ge(hi - e):
            b = n
        elif facts.entails_ge(e - hi):
            b = hi - p
        else:
            return None
        if s[0] == 'item' or (a == ZERO and b == n):
            out.append(s)
        else:
            c = len(s[3])
            ja, jb = split_rel(a, c, facts), split_rel(b, c, facts)
            if ja is None or jb is None:
                return None
            (j, r), (j2, r2) = ja, jb
            if r:
                if j2 - j == ZERO:
                    out.extend(('item', s[3][i].subst({s[1].id: j})) for i in range(r, r2))
                    p = e
                    continue
                out.extend(('item', s[3][i].subst({s[1].id: j})) for i in range(r, c))
                j = j + 1
            if j2 - j != ZERO:
                k = s[1]
                out.append(('rep', k, j2 - j, tuple(v.subst({k.id: lin(k) + j}) for v in s[3])))
            out.extend(('item', s[3][i].subst({s[1].id: j2})) for i in range(0, r2))
        p = e
    return tuple(out)
