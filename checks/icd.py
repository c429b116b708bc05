"""Message fields against the interface documents.

The tables give, per decoder and parameter, the width, sign and scale the
interface document defines.  A decoded value that is one (possibly split)
bit field times a constant must be one of the fields its table names; values
computed in another way are left to the other rules."""
from fractions import Fraction
from absint import terms as X

LIM = 400


def split(t):
    """values of a term over its decisions, simplified per path"""
    out, todo, n = set(), [(t, X.Asm.of({}))], 0
    while todo and n < LIM:
        n += 1
        u, asm = todo.pop()
        c = findite(u)
        if c is None:
            out.add(u)
            continue
        for v in (True, False):
            a = X.assume(asm, c, v)
            try:
                w = X.restrict(u, a)
            except X.Big:
                continue
            if w is u:
                continue
            todo.append((w, a))
    return out


def findite(t):
    """condition of an outermost decision in t"""
    todo, seen = [t], set()
    while todo:
        u = todo.pop(0)
        if u in seen or not u.ite or u.op in X.ATOMS:
            continue
        seen.add(u)
        if u.op == 'ite':
            return u.args[0]
        for a in args(u):
            todo.append(a)
    return None


def args(t):
    st = list(t.args)
    while st:
        a = st.pop(0)
        if isinstance(a, X.T):
            yield a
        elif isinstance(a, tuple):
            st[:0] = list(a)


def linear(d):
    """{(bits atom): coefficient} or None"""
    r = {}
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.op != 'bits' or X.isnum(a.args[2]) is None:
            return None
        r[a] = c
    return r


def field(t):
    """(width, signed, scale, power, parts) of a single field times a
    constant"""
    d = X.pget(t)
    if not d or () in d:
        return None
    p = 1
    r = linear(d)
    if r is None:
        sq = {m[0][0]: c for m, c in d.items()
              if len(m) == 1 and m[0][1] == 2 and m[0][0].op == 'bits'}
        if not sq or len(sq) * (len(sq) + 1) // 2 != len(d):
            return None
        top = max(sq.values())
        r = {}
        base = None
        for a, c in sq.items():
            if X.isnum(a.args[2]) is None:
                return None
            q = c / top
            n, e = q.numerator, q.denominator
            if n != 1 or e & (e - 1) or (e.bit_length() - 1) % 2:
                return None
            r[a] = Fraction(1, 1 << ((e.bit_length() - 1) // 2))
        p = 2
        scale2 = top
    xs = sorted(r.items(), key=lambda ac: -abs(ac[1]))
    w = 0
    low = xs[-1][1]
    for a, c in reversed(xs):
        if c != low * (1 << w):
            return None
        if a.args[3] and a is not xs[0][0]:
            return None
        w += int(X.isnum(a.args[2]))
    sgn = xs[0][0].args[3]
    parts = tuple(a for a, _ in xs)
    if p == 2:
        return (w, bool(sgn), float(scale2 * low * low), 2, parts)
    return (w, bool(sgn), float(low), 1, parts)


def fields(t, depth=0):
    """bit fields stored by a value: its own, or those of the elements of a
    container"""
    out = []
    for v in split(t):
        f = field(v)
        if f:
            out.append(f)
        elif depth < 6 and v.op in HOLD:
            for a in args(v):
                out += fields(a, depth + 1)
    return out


HOLD = {'tuple', 'lst', 'dictv', 'dictc', 'arrv', 'w', 'upd'}


def parse(s):
    """'s32 p2-31S ^2 @12 | ...' -> [(width, signed, scale, power, offset)]"""
    import math
    out = []
    for a in s.split('|'):
        ws = a.split()
        p, o = 1, None
        for w in ws[2:]:
            if w == '^2':
                p = 2
            elif w[0] == '@':
                o = int(w[1:])
        v = ws[1]
        sg = -1.0 if v[0] == '-' else 1.0
        v = v.lstrip('-')
        if v.startswith('p2-'):
            sc = 2.0 ** -int(v[3:].rstrip('S'))
            if v.endswith('S'):
                sc *= math.pi
        else:
            sc = float(v)
        out.append((int(ws[0][1:]), ws[0][0] == 's', (sg * sc) ** p
                    if p == 2 else sg * sc, p, o))
    return out


def offset(f):
    """constant distance from the symbolic start of the message"""
    d = X.pget(f[4][0].args[1])
    rest = [m for m in d if m != ()]
    if any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sym' or d[m] != 1
           for m in rest) or len(rest) > 1:
        return None
    return int(d.get((), 0))


def fits(f, w, magn):
    n, sg, sc, p, o = w
    if f[0] != n or f[1] != sg or f[3] != p:
        return False
    if abs(f[2] - sc) > 1e-6 * abs(sc) and not (
            magn and abs(f[2] + sc) <= 1e-6 * abs(sc)):
        return False
    if o is not None:
        q = offset(f)
        return q is None or q == o
    return True


def describe(f):
    q = offset(f)
    return '%d-bit %ssigned field%s scaled by %.10g%s' % (
        f[0], '' if f[1] else 'un', '' if q is None else ' at bit %d' % q,
        f[2], ' (squared)' if f[3] == 2 else '')


def check(sid, F):
    """[(property, key, message)], number of fields decided"""
    import re
    from . import icdtab
    bad, n = [], {}
    tabs = [(p, t) for p, pat, t in icdtab.TABLES if re.fullmatch(pat, sid)]
    if not tabs:
        return bad, n
    for k, t in F.f.items():
        for p, tab in tabs:
            for kp, want in tab.items():
                if not re.fullmatch(kp, k):
                    continue
                ws = parse(want)
                try:
                    fs = fields(t)
                except (X.Big, RecursionError):
                    continue
                if not fs:
                    continue
                magn = not any(w[1] for w in ws)
                n[p] = n.get(p, 0) + 1
                ok = [any(fits(f, w, magn) for w in ws) for f in fs]
                no = [f for f, o in zip(fs, ok)
                      if not o and (f[1] or not any(ok))]
                if no:
                    bad.append((p, k, '%s is a %s; the interface document '
                                'defines %s' % (k, describe(no[0]), want)))
                break
    return bad, n
